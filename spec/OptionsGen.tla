----------------------------- MODULE OptionsGen -----------------------------
EXTENDS Options, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
View == [defs |-> adefs, caller |-> [d \in Dicts |-> heap[d]],
         inst |-> [i \in { j \in Ids : Live(j) } |-> ainst[i]]]
(* mostly good values *)
Vals(k, n) == LET good == { r \in DOMAIN Raw[k] : Raw[k][r] # "bad" } IN
  IF RandomElement(1..(3 + n - n)) = 1 THEN DOMAIN Raw[k] \ good ELSE good
LiveIds == { i \in Ids : Live(i) }
(* one kind of step is chosen first: the generator evaluates every successor *)
Acts == (IF LiveIds = Ids THEN {} ELSE {1}) \cup {2, 3, 6, 9, 11}
        \cup (IF LiveIds = {} THEN {} ELSE {4, 5, 7, 8, 10, 12, 13})
Step(a) ==
  \/ a = 1 /\ \E i \in R(Ids \ LiveIds), wc \in R(WCs) : New(i, wc)
  \/ a = 2 /\ \E d \in R(Dicts), c \in R(Contents) : Mutate(d, c)
  \/ a = 3 /\ \E d \in R(Dicts), c \in R({x \in Contents : PCanon[x] # "bad"}) : Mutate(d, c)
  \/ a \in {4, 5} /\ \E i \in R(LiveIds), k \in R(Plain) : \E r \in R(Vals(k, Len(hist))) : Set(i, k, r)
  \/ a = 6 /\ \E k \in R(Plain) : \E r \in R(Vals(k, Len(hist))) : SetDefault(k, r)
  \/ a \in {7, 8} /\ \E i \in R(LiveIds), d \in R(Dicts) : SetPar(i, d)
  \/ a = 9 /\ \E d \in R(Dicts) : SetDefaultPar(d)
  \/ a = 10 /\ \E i \in R(LiveIds), n \in R(BadNames) : BadSet(i, n)
  \/ a = 11 /\ \E n \in R(BadNames) : BadDefault(n)
  \/ a = 13 /\ \E i \in R(LiveIds), c \in R({x \in Contents : PCanon[x] = x}) : Touch(i, c)
  \/ a = 12 /\ \E i \in R(LiveIds), h \in R(Uses) : Use(i, h)
GStep == /\ Len(hist) < Depth
         /\ \E a \in R(Acts) : Step(a)
         /\ hist' = Append(hist, [e |-> last', v |-> View'])
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [a |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
