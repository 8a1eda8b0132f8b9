---------------------------- MODULE WCValuesGen -----------------------------
EXTENDS WCValues, Json, SequencesExt
CONSTANT Depth, MaxKeys
VARIABLE hist
Add(e) == hist' = Append(hist, e)
GInit == Init /\ hist = <<>>
RandObj(e, b, K) == LET ks == SetToSeq(K) IN
   [eft |-> e, basis |-> b, vals |-> [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> RandomElement(Forms)]]]
KeySets == { K \in SUBSET Keys : Cardinality(K) <= MaxKeys }
GoodSets == { K \in SUBSET KnownKeys : Cardinality(K) <= MaxKeys }
(* mostly valid objects, so that acceptance is exercised as well *)
RandPair(n) == IF RandomElement(1..3) = 1 THEN RandomElement(Bases) ELSE RandomElement(KnownBases)
RandKeys(n) == IF RandomElement(1..4) = 1 THEN RandomElement(KeySets) ELSE RandomElement(GoodSets)
GStep ==
  /\ Len(hist) < Depth
  /\ \/ \E p \in {RandPair(Len(hist))}, K \in {RandKeys(Len(hist))} : \E o \in {RandObj(p[1], p[2], K)} :
           New(o) /\ Add([op |-> "new", o |-> o])
     \/ \E i \in 1..Len(objs) : Renumber(i) /\ Add([op |-> "renumber", i |-> i])
     \/ \E i \in 1..Len(objs) : Validate(i) /\ Add(answer')
     \/ \E i \in 1..Len(objs), v \in Views : Read(i, v) /\ Add(answer')
     \/ \E i \in 1..Len(objs), k \in Keys : Item(i, k) /\ Add(answer')
     \/ \E i \in 1..Len(objs), k \in Keys : Item(i, k) /\ Add(answer')
(* one last step, so that exactly one line is printed per behaviour *)
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [a |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
