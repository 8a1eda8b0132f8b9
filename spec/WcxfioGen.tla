----------------------------- MODULE WcxfioGen ------------------------------
EXTENDS Wcxfio, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
One == IF art = <<>> THEN {} ELSE {RandomElement(1..Len(art))}
GStep == /\ Len(hist) < Depth
         /\ \/ \E c \in {RandomElement(Contents)} : New(c)
            \/ \E i \in One : \E f \in {RandomElement(Fmts)}, t \in {RandomElement(Targets)} : Dump(i, f, t)
            \/ \E i \in One : \E f \in {RandomElement(Fmts)}, t \in {RandomElement(Targets)} : Dump(i, f, t)
            \/ \E i \in One : \E s \in {RandomElement(Sources)} : Load(i, s)
            \/ \E i \in One : \E s \in {RandomElement(Sources)} : Load(i, s)
            \/ \E i \in One : \E f \in {RandomElement(Ops)} : Calc(i, f)
            \/ \E i \in One : \E f \in {RandomElement(Ops)} : Calc(i, f)
            \/ \E i \in One : ToJson_(i)
            \/ \E i \in One : ToYaml(i)
            \/ \E i \in One : Use(i)
            \/ \E i \in One : Use(i)
            \/ \E i \in One : BadDump(i) \/ BadYaml(i)
         /\ hist' = Append(hist, last')
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [op |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
