---------------------------- MODULE DispatchGen -----------------------------
EXTENDS Dispatch, Json
CONSTANTS Depth, Scales
VARIABLE hist
GInit == Init /\ hist = <<>>
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Add(e) == hist' = Append(hist, [e EXCEPT !.resp = resp'])
Targets(i) == { n[3] : n \in { m \in DOMAIN tr : m[1] = objs[i].eft /\ m[2] = objs[i].basis } }
MTargets(i) == { m \in DOMAIN ma : m[1] = objs[i].eft /\ m[2] = objs[i].basis }
GStep ==
  /\ Len(hist) < Depth
  /\ \/ \E e \in R(Efts), b \in R(Bases), s \in R(Scales) : NewObj(e, b, s)
          /\ Add([a |-> "new", e |-> e, b |-> b, s |-> s, resp |-> resp])
     \/ \E n \in R(TrNames) : AddTr(n) /\ Add([a |-> "tr", n |-> n, resp |-> resp])
     \/ \E n \in R(TrNames) : AddTr(n) /\ Add([a |-> "tr", n |-> n, resp |-> resp])
     \/ \E n \in R(MaNames) : AddMa(n) /\ Add([a |-> "ma", n |-> n, resp |-> resp])
     \/ \E i \in R(1..Len(objs)) : \E b \in R(Bases) : AddTr(<<objs[i].eft, objs[i].basis, b>>)
          /\ Add([a |-> "tr", n |-> <<objs[i].eft, objs[i].basis, b>>, resp |-> resp])
     \/ \E i \in R(1..Len(objs)) : \E b \in R(Bases), e \in R(Efts) : AddMa(<<objs[i].eft, objs[i].basis, e, b>>)
          /\ Add([a |-> "ma", n |-> <<objs[i].eft, objs[i].basis, e, b>>, resp |-> resp])
     \/ Len(hist) % 3 = 0 /\ \E n \in R(DOMAIN tr) : DelTr(n) /\ Add([a |-> "deltr", n |-> n, resp |-> resp])
     \/ Len(hist) % 3 = 0 /\ \E n \in R(DOMAIN ma) : DelMa(n) /\ Add([a |-> "delma", n |-> n, resp |-> resp])
     \/ \E i \in R(1..Len(objs)) : \E b \in R(Bases), p \in R(Pars), s \in R(Secs) : Translate(i, b, p, s)
          /\ Add([a |-> "translate", i |-> i, b |-> b, p |-> p, s |-> s, resp |-> resp])
     \/ \E i \in R(1..Len(objs)) : \E b \in R(Targets(i)), p \in R(Pars), s \in R(Secs) : Translate(i, b, p, s)
          /\ Add([a |-> "translate", i |-> i, b |-> b, p |-> p, s |-> s, resp |-> resp])
     \/ \E i \in R(1..Len(objs)) : \E b \in R(Bases), p \in R(Pars), e \in R(Efts) : Match(i, e, b, p)
          /\ Add([a |-> "match", i |-> i, e |-> e, b |-> b, p |-> p, resp |-> resp])
     \/ \E i \in R(1..Len(objs)) : \E m \in R(MTargets(i)), p \in R(Pars) : Match(i, m[3], m[4], p)
          /\ Add([a |-> "match", i |-> i, e |-> m[3], b |-> m[4], p |-> p, resp |-> resp])
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [a |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
