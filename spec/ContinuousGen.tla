---------------------------- MODULE ContinuousGen ---------------------------
EXTENDS Continuous, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<last>>
One == IF sol = <<>> THEN {} ELSE {RandomElement(DOMAIN sol)}
GStep == /\ Len(hist) < Depth
         /\ \/ \E b \in {RandomElement(1..K)} : Len(sol) < 3 /\ Make(b)
            \/ \E b \in {RandomElement(1..K)} : Run(b)
            \/ Same
            \/ \E i \in One : \E x \in {RandomElement(1..K)} : Eval(i, <<x>>, TRUE)
            \/ \E i \in One : \E x \in {RandomElement(1..K)}, y \in {RandomElement(1..K)}, z \in {RandomElement(1..K)} : Eval(i, <<x, y, z>>, FALSE)
            \/ \E i \in One : \E k \in {RandomElement(Keys)}, p \in {RandomElement({"re", "im"})},
                                 a \in {RandomElement({"log", "linear"})}, n \in {RandomElement(Steps)} : Plot(i, k, p, a, n)
            \/ \E i \in One : \E k \in {RandomElement(Keys)}, p \in {RandomElement({"re", "im"})},
                                 a \in {RandomElement({"log", "linear"})}, n \in {RandomElement(Steps)} : Plot(i, k, p, a, n)
         /\ hist' = Append(hist, last')
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [op |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
