---------------------------- MODULE SmeftsimGen -----------------------------
EXTENDS Smeftsim
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Good(x) == { c \in Contents : c.flaw = None /\ c.basis = "Warsaw mass" }
GStep ==
  /\ Len(hist) < Depth
  /\ \E a \in {RandomElement(1..8)} :
     \/ a <= 2 /\ \E c \in R(Contents), s \in R(Sets), h \in R(Schemes), u \in R(Cutoffs), o \in R(Outputs), n \in R(Answers) : Convert(c, s, h, u, o, n)
     \/ a = 3 /\ \E c \in R({x \in Contents : Asked(x)}), s \in R(Sets), h \in R(Schemes), u \in R(Cutoffs), o \in R(Outputs), n \in R(Answers) : Convert(c, s, h, u, o, n)
     \/ a = 4 /\ \E c \in R(Good(last)), s \in R(Sets), h \in R(Schemes), u \in R(Cutoffs), o \in R(Outputs), n \in R(Answers) : Convert(c, s, h, u, o, n)
     \/ a = 5 /\ \E k \in R(Cards), s \in R(Sets) : NewCard(k, s)
     \/ a >= 6 /\ \E k \in R({x \in Cards : card[x].set # None}), c \in R(Good(last)), h \in R(Schemes), u \in R(Cutoffs) : Fill(k, c, h, u)
     \/ a >= 6 /\ (\A x \in Cards : card[x].set = None) /\ \E k \in R(Cards), s \in R(Sets) : NewCard(k, s)
  /\ hist' = Append(hist, last')
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [op |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
