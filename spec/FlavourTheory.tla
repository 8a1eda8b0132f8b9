-------------------------- MODULE FlavourTheory ----------------------------
(* Flavour symmetries of operators, from the theory: a class of operators is *)
(* a group acting on the flavour indices (permutation of positions, sign,    *)
(* complex conjugation); class 8 (qqql) is a relation in the group algebra   *)
(* of S3.  What one entry of a coefficient array says about another, which   *)
(* entries are real or vanish, and how often a coefficient occurs in the     *)
(* Lagrangian follow from that.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

N == 3
Dim(c) == IF c \in {"1", "2", "9"} THEN 2 ELSE 4
Id(d) == [i \in 1..d |-> i]
G(p, s, j) == [perm |-> p, sign |-> s, conj |-> j]
Swap == G(<<3, 4, 1, 2>>, 1, FALSE)      \* exchange of two identical currents
Herm == G(<<2, 1, 4, 3>>, 1, TRUE)
Fierz == G(<<1, 4, 3, 2>>, 1, FALSE)
First(s) == G(<<2, 1, 3, 4>>, s, FALSE)  \* exchange of the first two fields
Gens(c) == CASE c \in {"1", "3"} -> {}
             [] c = "2" -> {G(<<2, 1>>, 1, TRUE)}
             [] c = "9" -> {G(<<2, 1>>, 1, FALSE)}
             [] c = "4" -> {Swap, Herm}
             [] c = "41" -> {Swap}
             [] c = "5" -> {Herm}
             [] c = "6" -> {Swap, Fierz, Herm}
             [] c = "7" -> {First(1)}
             [] c = "71" -> {First(-1)}
Classes == {"1", "2", "3", "4", "41", "5", "6", "7", "71", "9"}

Compose(g, h) == [perm |-> [i \in DOMAIN g.perm |-> h.perm[g.perm[i]]], sign |-> g.sign * h.sign, conj |-> g.conj # h.conj]
RECURSIVE Close(_)
Close(S) == LET T == S \cup { Compose(g, h) : g \in S, h \in S } IN IF T = S THEN S ELSE Close(T)
Group(c) == Close(Gens(c) \cup {G(Id(Dim(c)), 1, FALSE)})

Idx(c) == [1..Dim(c) -> 1..N]
Act(g, x) == [i \in DOMAIN x |-> x[g.perm[i]]]
RECURSIVE Code(_)
Code(x) == IF x = <<>> THEN 0 ELSE 10 * Code(SubSeq(x, 1, Len(x) - 1)) + x[Len(x)]
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
(* what class c says about entry x *)
Entry(c, gr, x) ==
  LET orbit == { Act(g, x) : g \in gr }
      rep == CHOOSE y \in orbit : \A z \in orbit : Code(y) <= Code(z)
      to == { g \in gr : Act(g, rep) = x }
      plain == { g \in to : ~g.conj }
      g0 == IF plain # {} THEN CHOOSE g \in plain : TRUE ELSE CHOOSE g \in to : TRUE
  IN [idx |-> Code(x), rep |-> Code(rep), sign |-> g0.sign, conj |-> g0.conj,
      zero |-> \E g, h \in to : g.conj = h.conj /\ g.sign # h.sign,
      real |-> \E g, h \in to : g.conj # h.conj,
      (* the Weinberg operator is, by convention, a sum over all entries of *)
      (* a symmetric matrix; all others are sums over independent ones      *)
      mult |-> IF c = "9" THEN 1 ELSE Cardinality({ Act(g, x) : g \in { h \in gr : ~h.conj } })]
Table(c) == LET gr == Group(c) IN { Entry(c, gr, x) : x \in Idx(c) }

(* Class 8: a_prst + a_rpst = a_sprt + a_srpt.  Coefficients with the        *)
(* symmetry of the operator are the image of an orthogonal projector, which  *)
(* is an element of the group algebra of S3 (times 6).                       *)
S3 == { p \in [1..3 -> 1..3] : Cardinality({p[i] : i \in 1..3}) = 3 }
Mul(p, q) == [i \in 1..3 |-> q[p[i]]]
Inv(p) == CHOOSE q \in S3 : Mul(p, q) = [i \in 1..3 |-> i]
Weight(p) == CASE p = <<1, 2, 3>> -> 4 [] p = <<2, 1, 3>> -> -1 [] p = <<1, 3, 2>> -> -1
               [] p = <<3, 2, 1>> -> 2 [] OTHER -> 1
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Conv(p) == Sum([q \in S3 |-> Weight(q) * Weight(Mul(Inv(q), p))], S3)
Triple == [1..3 -> 1..N]
Rearr(p, x) == [i \in 1..3 |-> x[p[i]]]
(* six times the entry y of the projection of the unit tensor at x *)
Proj8(x, y) == Sum([p \in { q \in S3 : Rearr(q, x) = y } |-> Weight(p)], { q \in S3 : Rearr(q, x) = y })
Rel8(x) == \A y \in Triple : LET a(p, r, s) == Proj8(x, <<p, r, s>>) IN
              a(y[1], y[2], y[3]) + a(y[2], y[1], y[3]) = a(y[3], y[1], y[2]) + a(y[3], y[2], y[1])
Orders(x) == { Rearr(p, x) : p \in S3 }
ASSUME \A p \in S3 : Conv(p) = 6 * Weight(p)          \* a projector
ASSUME \A p \in S3 : Weight(p) = Weight(Inv(p))       \* an orthogonal one
ASSUME \A x \in Triple : Rel8(x)                      \* onto solutions of the relation
Table8 == { [from |-> Code(x), to |-> { [idx |-> Code(y), six |-> Proj8(x, y)] : y \in Orders(x) }] : x \in Triple }

(* numbers of real parameters known from the literature (1312.2014, n = 3)   *)
Params(c) == LET t == Table(c) IN
  Sum([e \in t |-> IF e.idx # e.rep \/ e.zero THEN 0 ELSE IF e.real THEN 1 ELSE 2], t)
Trace8 == Sum([x \in Triple |-> Proj8(x, x)], Triple)   \* 6 * dimension
ASSUME /\ Params("1") = 18 /\ Params("2") = 9 /\ Params("9") = 12
       /\ Params("3") = 162 /\ Params("5") = 81 /\ Params("4") = 45 /\ Params("6") = 36
       /\ Params("7") = 108 /\ Params("71") = 54 /\ Params("41") = 90
       /\ Trace8 = 6 * 19                                 \* 57 = 3 * 19 complex

(* Classes of the operators *)
SMEFT == [ c0 |-> {"G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB",
                   "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB"},
           c1 |-> {"uphi", "dphi", "ephi", "uG", "uW", "uB", "dG", "dW", "dB", "eW", "eB", "phiud"},
           c2 |-> {"phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid"},
           c3 |-> {"ledq", "quqd1", "quqd8", "lequ1", "lequ3", "duql", "duue"},
           c4 |-> {"ll", "qq1", "qq3", "uu", "dd"},
           c5 |-> {"lq1", "lq3", "eu", "ed", "ud1", "ud8", "le", "lu", "ld", "qe", "qu1", "qd1", "qu8", "qd8"},
           c6 |-> {"ee"}, c7 |-> {"qque"}, c8 |-> {"qqql"}, c9 |-> {"llphiphi"} ]
WET == [ c0 |-> {"G", "Gtilde"},
         c1 |-> {"egamma", "uG", "dG", "ugamma", "dgamma"},
         c3 |-> {"S1udRR", "S1udduRR", "S8udRR", "S8udduRR", "SedRL", "SedRR", "SeuRL", "SeuRR", "SnueduRL",
                 "SnueduRR", "TedRR", "TeuRR", "TnueduRR", "V1udduLR", "V8udduLR", "VnueduLL", "VnueduLR",
                 "SuddLL", "SduuLL", "SduuLR", "SduuRL", "SdudRL", "SduuRR"},
         c4 |-> {"VuuRR", "VddRR", "VuuLL", "VddLL"},
         c41 |-> {"S1ddRR", "S1uuRR", "S8uuRR", "SeeRR", "S8ddRR"},
         c5 |-> {"VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL", "VeuRR", "VedRR", "V1udRR",
                 "V8udRR", "VnueLR", "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR", "V1uuLR",
                 "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"},
         c6 |-> {"VeeLL", "VeeRR", "VnunuLL"},
         c71 |-> {"SuudLR", "SuudRL", "SdduRL"} ]
=============================================================================
