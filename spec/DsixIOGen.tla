------------------------------ MODULE DsixIOGen -----------------------------
EXTENDS DsixIO
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
Maybe(S) == IF RandomElement(1..2) = 1 THEN None ELSE RandomElement(S)
GStep == /\ Len(hist) < Depth
         /\ \/ \E b \in {RandomElement(1..3)} : b = 1 /\ New
            \/ \E i \in {RandomElement(Ids)}, s \in {RandomElement(Scales)}, h \in {RandomElement(Scales \cup {None})} : Set(i, s, h, "object")
            \/ \E i \in {RandomElement(Ids)}, s \in {RandomElement(Scales)} : Set(i, s, None, "load")
            \/ \E l \in {RandomElement(Scales \cup {None})}, f \in {RandomElement(BOOLEAN)}, t \in {RandomElement({"lha", "json", "yaml"})} : Dump(l, f, t)
            \/ \E l \in {RandomElement(Scales \cup {None})}, f \in {RandomElement(BOOLEAN)} : Dump(l, f, "lha")
            \/ \E i \in {RandomElement(Ids)}, s \in {RandomElement(Scales)}, f \in {RandomElement(BOOLEAN)} : Write(i, s, f)
            \/ \E i \in {RandomElement(Ids)}, s \in {RandomElement(Scales)} : Convert(i, s)
            \/ \E m \in {RandomElement(Sms)}, p \in {RandomElement(1..3)} : Load(m, p)
            \/ \E m \in {RandomElement(Sms)}, p \in {RandomElement(1..3)} : Load(m, p)
            \/ \E m \in {RandomElement(Sms)}, p \in {RandomElement(1..3)} : Back(m, p)
            \/ \E w \in {RandomElement({"sm", "scale"})}, b \in {RandomElement(1..3)} : b = 1 /\ Bad(w)
            \/ \E s \in {RandomElement(Scales)}, t \in {RandomElement(Fmts)} : Export(s, t)
         /\ hist' = Append(hist, last')
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [op |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
