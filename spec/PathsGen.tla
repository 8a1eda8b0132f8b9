------------------------------ MODULE PathsGen -------------------------------
(* Random histories of module Paths with the normal form of each result.     *)
EXTENDS Paths, Json
CONSTANTS Depth, Moves    \* Moves: [kind -> weight]
VARIABLES hist
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
KindsOf(n) == IF n < 2 THEN {<<"new", 1>>} ELSE UNION { { <<k, i>> : i \in 1..Moves[k] } : k \in DOMAIN Moves }
Terms(t) == { [atom |-> x[1], w |-> x[2], coef |-> t[x]] : x \in DOMAIN t }
Rec(e, r) == hist' = Append(hist, e @@ [r |-> r, out |-> [obj'[r] EXCEPT !.t = Terms(obj'[r].t)]])
Ok(r) == /\ Cardinality(DOMAIN obj'[r].t) <= 4 /\ obj'[r].sec # {}
         /\ \A x \in DOMAIN obj'[r].t : Len(x[2]) <= MaxWord /\ obj'[r].t[x] \in -9..9
GStep == Len(hist) < Depth /\ \E k \in R(KindsOf(Cardinality(Live))) :
  \/ k[1] = "new" /\ \E a \in R(DOMAIN Atoms) : \E r \in R(Regs \ Live) : New(r, a) /\ Rec([k |-> "new", atom |-> a], r)
  \/ k[1] = "over" /\ \E a \in R(DOMAIN Atoms) : \E r \in R(Regs) : New(r, a) /\ Rec([k |-> "new", atom |-> a], r)
  \/ k[1] = "tr" /\ \E q \in R(Live) : \E r \in R(Regs) : \E b \in R({ t[3] : t \in { u \in Translators : u[1] = obj[q].eft /\ u[2] = obj[q].basis } }) :
        Translate(q, r, b) /\ Ok(r) /\ Rec([k |-> "tr", q |-> q, b |-> b], r)
  \/ k[1] = "same" /\ \E q \in R(Live) : \E r \in R(Regs) : Translate(q, r, obj[q].basis) /\ Rec([k |-> "tr", q |-> q, b |-> obj[q].basis], r)
  \/ k[1] = "sec" /\ \E q \in R(Live) : \E r \in R(Regs) : \E S \in R(DOMAIN SecSets) :
        \E b \in R({ t[3] : t \in { u \in Translators : u[1] = obj[q].eft /\ u[2] = obj[q].basis } }) :
        TranslateSec(q, r, b, S) /\ Ok(r) /\ Rec([k |-> "sec", q |-> q, b |-> b, S |-> S], r)
  \/ k[1] = "down" /\ \E q \in R(Live) : \E r \in R(Regs) : Down(q, r) /\ Rec([k |-> "down", q |-> q], r)
  \/ k[1] = "cp" /\ \E q \in R(Live) : \E r \in R(Regs) : CP(q, r) /\ Rec([k |-> "cp", q |-> q], r)
  \/ k[1] = "pack" /\ \E q \in R(Live) : \E r \in R(Regs) : Repack(q, r) /\ Rec([k |-> "pack", q |-> q], r)
  \/ k[1] = "lin" /\ \E p \in R(Live) : \E q \in R({ x \in Live : obj[x].eft = obj[p].eft /\ obj[x].basis = obj[p].basis /\ obj[x].cp = obj[p].cp /\ obj[x].sec = obj[p].sec }) :
        \E r \in R(Regs) : \E a \in R(Coefs) : \E b \in R(Coefs) :
        Lin(p, q, r, a, b) /\ Ok(r) /\ Rec([k |-> "lin", p |-> p, q |-> q, ca |-> a, cb |-> b], r)
Skip == Len(hist) < Depth /\ UNCHANGED <<obj, hist>>
GNext == IF Len(hist) < Depth THEN GStep \/ Skip
         ELSE Len(hist) = Depth /\ UNCHANGED obj /\ hist' = Append(hist, [k |-> "end"])
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_<<obj, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
