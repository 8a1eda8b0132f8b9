------------------------------- MODULE WetSym -------------------------------
(* What parity, CP and relabelling of flavours do to the operators of the    *)
(* weak effective theories in the JMS basis (1709.04486).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

(* the fields at the index positions *)
Pair(a, b) == <<a, a, b, b>>
Fields ==
  [ G |-> <<>>, Gtilde |-> <<>>, uG |-> <<"u", "u">>, dG |-> <<"d", "d">>, ugamma |-> <<"u", "u">>,
    dgamma |-> <<"d", "d">>, egamma |-> <<"e", "e">>,
    VnunuLL |-> Pair("n", "n"), VeeLL |-> Pair("e", "e"), VeeRR |-> Pair("e", "e"), VeeLR |-> Pair("e", "e"),
    SeeRR |-> Pair("e", "e"), VuuLL |-> Pair("u", "u"), VuuRR |-> Pair("u", "u"), VddLL |-> Pair("d", "d"),
    VddRR |-> Pair("d", "d"), V1uuLR |-> Pair("u", "u"), V8uuLR |-> Pair("u", "u"), V1ddLR |-> Pair("d", "d"),
    V8ddLR |-> Pair("d", "d"), S1uuRR |-> Pair("u", "u"), S8uuRR |-> Pair("u", "u"), S1ddRR |-> Pair("d", "d"),
    S8ddRR |-> Pair("d", "d"), V1udLL |-> Pair("u", "d"), V8udLL |-> Pair("u", "d"), V1udRR |-> Pair("u", "d"),
    V8udRR |-> Pair("u", "d"), V1udLR |-> Pair("u", "d"), V8udLR |-> Pair("u", "d"), V1duLR |-> Pair("d", "u"),
    V8duLR |-> Pair("d", "u"), S1udRR |-> Pair("u", "d"), S8udRR |-> Pair("u", "d"),
    S1udduRR |-> <<"u", "d", "d", "u">>, S8udduRR |-> <<"u", "d", "d", "u">>,
    V1udduLR |-> <<"u", "d", "d", "u">>, V8udduLR |-> <<"u", "d", "d", "u">>,
    VnueLL |-> Pair("n", "e"), VnueLR |-> Pair("n", "e"), VnuuLL |-> Pair("n", "u"), VnuuLR |-> Pair("n", "u"),
    VnudLL |-> Pair("n", "d"), VnudLR |-> Pair("n", "d"), VeuLL |-> Pair("e", "u"), VeuRR |-> Pair("e", "u"),
    VeuLR |-> Pair("e", "u"), VueLR |-> Pair("u", "e"), VedLL |-> Pair("e", "d"), VedRR |-> Pair("e", "d"),
    VedLR |-> Pair("e", "d"), VdeLR |-> Pair("d", "e"), SedRL |-> Pair("e", "d"), SedRR |-> Pair("e", "d"),
    TedRR |-> Pair("e", "d"), SeuRL |-> Pair("e", "u"), SeuRR |-> Pair("e", "u"), TeuRR |-> Pair("e", "u"),
    VnueduLL |-> <<"n", "e", "d", "u">>, VnueduLR |-> <<"n", "e", "d", "u">>, SnueduRL |-> <<"n", "e", "d", "u">>,
    SnueduRR |-> <<"n", "e", "d", "u">>, TnueduRR |-> <<"n", "e", "d", "u">>,
    SuudLR |-> <<"u", "u", "d", "e">>, SuudRL |-> <<"u", "u", "d", "e">>, SduuLL |-> <<"d", "u", "u", "e">>,
    SduuRR |-> <<"d", "u", "u", "e">>, SduuLR |-> <<"d", "u", "u", "e">>, SduuRL |-> <<"d", "u", "u", "e">>,
    SuddLL |-> <<"u", "d", "d", "n">>, SdudRL |-> <<"d", "u", "d", "n">>, SdduRL |-> <<"d", "d", "u", "n">> ]

(* E.g. V1udduLR_prst = (u_p L d_r)(d_s R u_t): its parity image is the      *)
(* hermitian conjugate of (d_r R u_p)(u_t L d_s), i.e. of V1udduLR_tsrp.     *)
(* Parity, acting on the charged fermions: coefficient x[i] of the operator  *)
(* goes to the coefficient of operator `to` at the permuted position.        *)
Same == [i \in 1..4 |-> i]
P(o, p, s, c) == [to |-> o, perm |-> p, sign |-> s, conj |-> c]
LRpair(a, b) == a :> P(b, Same, 1, FALSE) @@ b :> P(a, Same, 1, FALSE)
Swapped(a, b) == a :> P(b, <<3, 4, 1, 2>>, 1, FALSE) @@ b :> P(a, <<3, 4, 1, 2>>, 1, FALSE)
Chiral(a) == a :> P(a, <<2, 1, 4, 3>>, 1, TRUE)
Dipole(a) == a :> P(a, <<2, 1>>, 1, TRUE)
Parity ==
  "Gtilde" :> P("Gtilde", <<>>, -1, FALSE)
  @@ Dipole("uG") @@ Dipole("dG") @@ Dipole("ugamma") @@ Dipole("dgamma") @@ Dipole("egamma")
  @@ LRpair("VeeLL", "VeeRR") @@ LRpair("VuuLL", "VuuRR") @@ LRpair("VddLL", "VddRR") @@ LRpair("V1udLL", "V1udRR")
  @@ LRpair("V8udLL", "V8udRR") @@ LRpair("VeuLL", "VeuRR") @@ LRpair("VedLL", "VedRR")
  @@ LRpair("VnueLL", "VnueLR") @@ LRpair("VnuuLL", "VnuuLR") @@ LRpair("VnudLL", "VnudLR")
  @@ Swapped("VeeLR", "VeeLR") @@ Swapped("V1uuLR", "V1uuLR") @@ Swapped("V8uuLR", "V8uuLR")
  @@ Swapped("V1ddLR", "V1ddLR") @@ Swapped("V8ddLR", "V8ddLR") @@ Swapped("V1udLR", "V1duLR")
  @@ Swapped("V8udLR", "V8duLR") @@ Swapped("VeuLR", "VueLR") @@ Swapped("VedLR", "VdeLR")
  @@ "V1udduLR" :> P("V1udduLR", <<4, 3, 2, 1>>, 1, TRUE) @@ "V8udduLR" :> P("V8udduLR", <<4, 3, 2, 1>>, 1, TRUE)
  @@ Chiral("SeeRR") @@ Chiral("S1uuRR") @@ Chiral("S8uuRR") @@ Chiral("S1ddRR") @@ Chiral("S8ddRR")
  @@ Chiral("S1udRR") @@ Chiral("S8udRR") @@ Chiral("SedRR") @@ Chiral("SeuRR")
  @@ Chiral("TedRR") @@ Chiral("TeuRR") @@ Chiral("SedRL") @@ Chiral("SeuRL")
  @@ "S1udduRR" :> P("S1udduRR", <<4, 3, 2, 1>>, 1, TRUE) @@ "S8udduRR" :> P("S8udduRR", <<4, 3, 2, 1>>, 1, TRUE)
  @@ LRpair("SduuLL", "SduuRR") @@ LRpair("SduuLR", "SduuRL") @@ LRpair("SuudLR", "SuudRL")

(* exchange of up- and down-type quarks *)
Both(a, b) == a :> P(b, Same, 1, FALSE) @@ b :> P(a, Same, 1, FALSE)
Iso ==
  Both("VuuLL", "VddLL") @@ Both("VuuRR", "VddRR") @@ Both("V1uuLR", "V1ddLR") @@ Both("V8uuLR", "V8ddLR")
  @@ Both("S1uuRR", "S1ddRR") @@ Both("S8uuRR", "S8ddRR") @@ Both("V1udLR", "V1duLR") @@ Both("V8udLR", "V8duLR")
  @@ Both("VeuLL", "VedLL") @@ Both("VeuRR", "VedRR") @@ Both("VeuLR", "VedLR") @@ Both("VueLR", "VdeLR")
  @@ Both("SeuRL", "SedRL") @@ Both("SeuRR", "SedRR") @@ Both("TeuRR", "TedRR")
  @@ Both("VnuuLL", "VnudLL") @@ Both("VnuuLR", "VnudLR")
  @@ Swapped("V1udLL", "V1udLL") @@ Swapped("V8udLL", "V8udLL") @@ Swapped("V1udRR", "V1udRR")
  @@ Swapped("V8udRR", "V8udRR") @@ Swapped("S1udRR", "S1udRR") @@ Swapped("S8udRR", "S8udRR")
  @@ Swapped("S1udduRR", "S1udduRR") @@ Swapped("S8udduRR", "S8udduRR")
  @@ Chiral("V1udduLR") @@ Chiral("V8udduLR")
  @@ Both("VeeLL", "VeeLL") @@ Both("VeeRR", "VeeRR") @@ Both("VeeLR", "VeeLR") @@ Both("SeeRR", "SeeRR")
  @@ Both("VnueLL", "VnueLL") @@ Both("VnueLR", "VnueLR") @@ Both("VnunuLL", "VnunuLL")
OtherQ(f) == CASE f = "u" -> "d" [] f = "d" -> "u" [] OTHER -> f

ApplyPerm(p, x) == [i \in DOMAIN x |-> x[p[i]]]
(* design: parity is an involution and respects the fields *)
ASSUME \A o \in DOMAIN Parity :
         LET q == Parity[o] r == Parity[q.to]
         IN /\ r.to = o /\ r.sign * q.sign = 1 /\ r.conj = q.conj
            /\ Len(q.perm) >= Len(Fields[o])
            /\ LET n == Len(Fields[o]) x == [i \in 1..n |-> i]
               IN ApplyPerm(r.perm, ApplyPerm(q.perm, x)) = x
            /\ Fields[q.to] = ApplyPerm(q.perm, Fields[o])
ASSUME \A o \in DOMAIN Iso :
         LET q == Iso[o] r == Iso[q.to]
         IN /\ r.to = o /\ r.conj = q.conj
            /\ ApplyPerm(r.perm, ApplyPerm(q.perm, Same)) = Same
            /\ \A i \in 1..4 : Fields[q.to][i] = OtherQ(ApplyPerm(q.perm, Fields[o])[i])
(* parity and isospin commute *)
ASSUME \A o \in DOMAIN Iso \ {"VnunuLL"} :
         LET a == Parity[Iso[o].to] b == Iso[Parity[o].to]
         IN a.to = b.to /\ a.conj # Iso[o].conj <=> b.conj # Parity[o].conj
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Spec == Init /\ [][Next]_done
Out == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [fields |-> Fields, parity |-> Parity, iso |-> Iso])
=============================================================================
