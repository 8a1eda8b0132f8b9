------------------------------- MODULE Charges --------------------------------
(* What the operators above and below the electroweak scale carry: lepton    *)
(* family numbers and baryon number are conserved by the matching, and, with *)
(* a trivial CKM matrix, quark family numbers.                               *)
EXTENDS WetSym
S == INSTANCE SmeftOps WITH done <- done
Quark(f) == f \in {"q", "u", "d"}
NumQuarks(o) == Cardinality({ i \in DOMAIN Fields[o] : Quark(Fields[o][i]) })
(* -1 for fields, 1 for their conjugates; three quarks: all are fields       *)
WetSign(o, i) == IF Len(Fields[o]) = 4 /\ NumQuarks(o) = 3 THEN -1 ELSE IF i % 2 = 1 THEN 1 ELSE -1
Wet == [o \in DOMAIN Fields |-> [i \in DOMAIN Fields[o] |-> [q |-> Quark(Fields[o][i]), s |-> WetSign(o, i)]]]
Above == [o \in S!Names \ S!Couplings |-> [i \in DOMAIN S!Ops[o].f |-> [q |-> Quark(S!Ops[o].f[i].sp), s |-> IF S!Ops[o].f[i].bar THEN 1 ELSE -1]]]
(* both sides: number of quarks minus antiquarks divisible by three, and      *)
(* baryon number violated by one unit only together with lepton number       *)
RECURSIVE Sum(_, _)
Sum(f, q) == IF f = <<>> THEN 0 ELSE (IF Head(f).q = q THEN Head(f).s ELSE 0) + Sum(Tail(f), q)
ASSUME \A t \in {Wet, Above} : \A o \in DOMAIN t : Sum(t[o], TRUE) \in {0, -3} /\ (Sum(t[o], TRUE) = -3 <=> Sum(t[o], FALSE) = -1)
Out2 == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [wet |-> Wet, smeft |-> Above])
=============================================================================
