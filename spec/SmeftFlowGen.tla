---------------------------- MODULE SmeftFlowGen -----------------------------
(* Random histories of module SmeftFlow with the normal form of each result. *)
EXTENDS SmeftFlow, Json
CONSTANTS Depth
VARIABLES hist
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
KindsOf(n) == IF n < 2 THEN {<<"new", i>> : i \in 1..3}
  ELSE {<<"new", 1>>} \cup {<<"run", i>> : i \in 1..5} \cup {<<"rot", i>> : i \in 1..2} \cup {<<"lin", i>> : i \in 1..4}
       \cup {<<"cp", 1>>, <<"refl", 1>>, <<"loop", 1>>, <<"mass", 1>>, <<"pack", 1>>, <<"twin", 1>>}
Terms(t) == { [atom |-> x, coef |-> t[x]] : x \in DOMAIN t }
Rec(e, r) == hist' = Append(hist, e @@ [r |-> r, out |-> [obj'[r] EXCEPT !.t = Terms(obj'[r].t)]])
Ok(r) == Length(obj'[r].w) <= MaxLen /\ \A x \in DOMAIN obj'[r].t : obj'[r].t[x] \in -9..9
GStep == Len(hist) < Depth /\ \E k \in R(KindsOf(Cardinality(Live))) :
  \/ k[1] = "new" /\ \E s \in R(DOMAIN SMs) : \E a \in R(Atoms) : \E r \in R(Regs \ Live) : New(r, s, a) /\ Rec([k |-> "new", sm |-> s, atom |-> a], r)
  \* another coefficient set that went the same way
  \/ k[1] = "twin" /\ \E q \in R(Live) : \E a \in R(Atoms) : \E r \in R(Regs) :
        obj[q].w = <<>> /\ Set(r, [obj[q] EXCEPT !.t = a :> 1]) /\ Rec([k |-> "twin", q |-> q, atom |-> a], r)
  \/ k[1] = "run" /\ \E q \in R(Live) : \E r \in R(Regs) : \E n \in R(Lengths) : \E x \in R(Kinds) :
        Run(q, r, x, n) /\ Ok(r) /\ Rec([k |-> "run", q |-> q, n |-> n, x |-> x], r)
  \/ k[1] = "rot" /\ \E q \in R(Live) : \E r \in R(Regs) : \E h \in R(Rots) : Rotate(q, r, h) /\ Rec([k |-> "rot", q |-> q, h |-> h], r)
  \/ k[1] = "cp" /\ \E q \in R(Live) : \E r \in R(Regs) : CP(q, r) /\ Rec([k |-> "cp", q |-> q], r)
  \/ k[1] = "pack" /\ \E q \in R(Live) : \E r \in R(Regs) : Repack(q, r) /\ Rec([k |-> "pack", q |-> q], r)
  \/ k[1] = "refl" /\ \E q \in R(Live) : \E r \in R(Regs) : \E i \in R(1..3) : Reflect(q, r, i) /\ Rec([k |-> "refl", q |-> q, i |-> i], r)
  \/ k[1] = "loop" /\ \E q \in R(Live) : \E r \in R(Regs) : \E d \in R({-1, 1}) : Loop(q, r, d) /\ Rec([k |-> "loop", q |-> q, d |-> d], r)
  \/ k[1] = "mass" /\ \E q \in R(Live) : \E r \in R(Regs) : \E d \in R({-1, 1}) : Mass(q, r, d) /\ Rec([k |-> "mass", q |-> q, d |-> d], r)
  \/ k[1] = "lin" /\ \E p \in R(Live) :
        \E q \in R({ x \in Live : obj[x].sm = obj[p].sm /\ obj[x].sym = obj[p].sym /\ obj[x].w = obj[p].w }) :
        \E r \in R(Regs) : \E a \in R(Coefs) : \E b \in R(Coefs) : Lin(p, q, r, a, b) /\ Ok(r) /\ Rec([k |-> "lin", p |-> p, q |-> q, ca |-> a, cb |-> b], r)
Skip == Len(hist) < Depth /\ UNCHANGED <<obj, hist>>
GNext == IF Len(hist) < Depth THEN GStep \/ Skip
         ELSE Len(hist) = Depth /\ UNCHANGED obj /\ hist' = Append(hist, [k |-> "end"])
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_<<obj, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
