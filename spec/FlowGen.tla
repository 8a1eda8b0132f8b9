------------------------------ MODULE FlowGen -------------------------------
(* Random histories of module Flow with the normal form of every result.     *)
EXTENDS Flow, Json
CONSTANTS Depth, Fresh   \* Fresh: atoms that may be introduced
VARIABLES hist
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Kinds(n) == (IF n < 2 THEN {<<"new", i>> : i \in 1..4}
             ELSE {<<"new", 1>>} \cup {<<"run", i>> : i \in 1..4} \cup {<<"sec", 1>>} \cup {<<"lin", i>> : i \in 1..3}
                  \cup {<<"par", 1>>, <<"cp", 1>>, <<"lab", 1>>, <<"lab", 2>>, <<"pack", 1>>} \cup (IF Isospin = {} THEN {} ELSE {<<"iso", 1>>, <<"iso", 2>>}))
Terms(t) == { [atom |-> x[1], p |-> x[2], cp |-> x[3], a |-> x[4], b |-> x[5], iso |-> x[6], coef |-> t[x]] : x \in DOMAIN t }
Rec(e, r) == hist' = Append(hist, e @@ [r |-> r, out |-> [obj'[r] EXCEPT !.t = Terms(obj'[r].t)]])
Ok(r) == Cardinality(DOMAIN obj'[r].t) <= 4 /\ \A x \in DOMAIN obj'[r].t : Len(x[4]) <= 4 /\ obj'[r].t[x] \in -9..9
GStep == Len(hist) < Depth /\ \E k \in R(Kinds(Cardinality(Live))) :
  \/ k[1] = "new" /\ \E a \in R(Fresh) : \E r \in R(Regs \ Live) : New(r, a) /\ Rec([k |-> "new", atom |-> a], r)
  \/ k[1] = "run" /\ \E q \in R(Live) : \E r \in R(Regs) : \E s \in R(Scales) : \E o \in R(Orders) :
        DoRun(q, r, s, o) /\ Ok(r) /\ Rec([k |-> "run", q |-> q, s |-> s, o |-> o], r)
  \/ k[1] = "sec" /\ \E q \in R(Live) : \E r \in R(Regs) : \E s \in R(Scales) : \E o \in R(Orders) : \E S \in R(Sectors) :
        RunSec(q, r, s, o, S) /\ Ok(r) /\ Rec([k |-> "sec", q |-> q, s |-> s, o |-> o, S |-> S], r)
  \/ k[1] = "lin" /\ \E p \in R(Live) : \E q \in R({ x \in Live : obj[x].eft = obj[p].eft /\ obj[x].sc = obj[p].sc }) :
        \E r \in R(Regs) : \E a \in R(Coefs) : \E b \in R(Coefs) :
        Lin(p, q, r, a, b) /\ Ok(r) /\ Rec([k |-> "lin", p |-> p, q |-> q, ca |-> a, cb |-> b], r)
  \/ k[1] = "par" /\ \E q \in R(Live) : \E r \in R(Regs) : Parity(q, r) /\ Rec([k |-> "par", q |-> q], r)
  \/ k[1] = "cp" /\ \E q \in R(Live) : \E r \in R(Regs) : CP(q, r) /\ Rec([k |-> "cp", q |-> q], r)
  \/ k[1] = "iso" /\ \E q \in R(Live) : \E r \in R(Regs) : Iso(q, r) /\ Rec([k |-> "iso", q |-> q], r)
  \/ k[1] = "lab" /\ \E q \in R(Live) : \E r \in R(Regs) : \E g \in R(Perms[obj[q].eft]) :
        Relabel(q, r, g) /\ Ok(r) /\ Rec([k |-> "lab", q |-> q, g |-> g], r)
  \/ k[1] = "pack" /\ \E q \in R(Live) : \E r \in R(Regs) : Repack(q, r) /\ Rec([k |-> "pack", q |-> q], r)
(* a draw that is not possible leaves the history as it is                  *)
Skip == Len(hist) < Depth /\ UNCHANGED <<obj, hist>>
GNext == IF Len(hist) < Depth THEN GStep \/ Skip
         ELSE Len(hist) = Depth /\ UNCHANGED obj /\ hist' = Append(hist, [k |-> "end"])
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_<<obj, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
