------------------------------ MODULE SmeftOps ------------------------------
(* The operators of the Standard Model Effective Field Theory, from their    *)
(* field content.  What follows from it: how coefficients transform under    *)
(* flavour rotations, CP, reflections of the gauge couplings, changes of     *)
(* units and of the counting parameter of loops, and the exchange of up- and *)
(* down-type quarks; and the scalar product of operators, with respect to    *)
(* which the one-loop anomalous dimension matrix of operators with four      *)
(* legs is self-adjoint (unitarity: the matrix is the cut of the product of  *)
(* a form factor and a tree-level amplitude, which is symmetric).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

F(s) == [sp |-> s, bar |-> FALSE]
B(s) == [sp |-> s, bar |-> TRUE]
(* f: fermions in the order of the indices; h: number of Higgs fields, nh:   *)
(* their number minus that of conjugates; w, b, g: field strengths, dual:    *)
(* one of them; d: derivatives; cur: Higgs current of isospin zero (odd      *)
(* under the exchange of the Higgs doublet with its conjugate, as H+ tau H); *)
(* c, t: colour and isospin structure                                        *)
Op(f, h, nh) == [f |-> f, h |-> h, nh |-> nh, w |-> 0, b |-> 0, g |-> 0, dual |-> FALSE, d |-> 0, cur |-> FALSE, c |-> "1", t |-> "1", lor |-> "V"]
Pure(h, w, b, g, dual, d) == [Op(<<>>, h, 0) EXCEPT !.w = w, !.b = b, !.g = g, !.dual = dual, !.d = d]
Yuk(l, r, nh) == Op(<<B(l), F(r)>>, 1, nh)
Dip(l, r, nh, x) == [Op(<<B(l), F(r)>>, 1, nh) EXCEPT !.w = IF x = "w" THEN 1 ELSE 0, !.b = IF x = "b" THEN 1 ELSE 0, !.g = IF x = "g" THEN 1 ELSE 0]
Cur(s, t) == [Op(<<B(s), F(s)>>, 2, 0) EXCEPT !.d = 1, !.cur = (t = "1"), !.t = t]
Four(a, b, c, t) == [Op(<<B(a), F(a), B(b), F(b)>>, 0, 0) EXCEPT !.c = c, !.t = t]
Scal(a, b, c, e, col, t, lor) == [Op(<<a, b, c, e>>, 0, 0) EXCEPT !.c = col, !.t = t, !.lor = lor]

Ops ==
  [ G |-> Pure(0, 0, 0, 3, FALSE, 0), Gtilde |-> Pure(0, 0, 0, 3, TRUE, 0), W |-> Pure(0, 3, 0, 0, FALSE, 0), Wtilde |-> Pure(0, 3, 0, 0, TRUE, 0),
    phi |-> Pure(6, 0, 0, 0, FALSE, 0), phiBox |-> Pure(4, 0, 0, 0, FALSE, 2), phiD |-> Pure(4, 0, 0, 0, FALSE, 2),
    phiG |-> Pure(2, 0, 0, 2, FALSE, 0), phiB |-> Pure(2, 0, 2, 0, FALSE, 0), phiW |-> Pure(2, 2, 0, 0, FALSE, 0),
    phiWB |-> [Pure(2, 1, 1, 0, FALSE, 0) EXCEPT !.cur = TRUE],
    phiGtilde |-> Pure(2, 0, 0, 2, TRUE, 0), phiBtilde |-> Pure(2, 0, 2, 0, TRUE, 0), phiWtilde |-> Pure(2, 2, 0, 0, TRUE, 0),
    phiWtildeB |-> [Pure(2, 1, 1, 0, TRUE, 0) EXCEPT !.cur = TRUE],
    Gu |-> Yuk("q", "u", -1), Gd |-> Yuk("q", "d", 1), Ge |-> Yuk("l", "e", 1),
    uphi |-> [Yuk("q", "u", -1) EXCEPT !.h = 3], dphi |-> [Yuk("q", "d", 1) EXCEPT !.h = 3], ephi |-> [Yuk("l", "e", 1) EXCEPT !.h = 3],
    eW |-> Dip("l", "e", 1, "w"), eB |-> Dip("l", "e", 1, "b"), uG |-> Dip("q", "u", -1, "g"), uW |-> Dip("q", "u", -1, "w"), uB |-> Dip("q", "u", -1, "b"),
    dG |-> Dip("q", "d", 1, "g"), dW |-> Dip("q", "d", 1, "w"), dB |-> Dip("q", "d", 1, "b"),
    phil1 |-> Cur("l", "1"), phil3 |-> Cur("l", "3"), phie |-> Cur("e", "1"), phiq1 |-> Cur("q", "1"), phiq3 |-> Cur("q", "3"),
    phiu |-> Cur("u", "1"), phid |-> Cur("d", "1"), phiud |-> [Op(<<B("u"), F("d")>>, 2, 2) EXCEPT !.d = 1],
    llphiphi |-> Op(<<F("l"), F("l")>>, 2, 2),
    ll |-> Four("l", "l", "1", "1"), qq1 |-> Four("q", "q", "1", "1"), qq3 |-> Four("q", "q", "1", "3"),
    lq1 |-> Four("l", "q", "1", "1"), lq3 |-> Four("l", "q", "1", "3"), ee |-> Four("e", "e", "1", "1"), uu |-> Four("u", "u", "1", "1"),
    dd |-> Four("d", "d", "1", "1"), eu |-> Four("e", "u", "1", "1"), ed |-> Four("e", "d", "1", "1"), ud1 |-> Four("u", "d", "1", "1"),
    ud8 |-> Four("u", "d", "8", "1"), le |-> Four("l", "e", "1", "1"), lu |-> Four("l", "u", "1", "1"), ld |-> Four("l", "d", "1", "1"),
    qe |-> Four("q", "e", "1", "1"), qu1 |-> Four("q", "u", "1", "1"), qu8 |-> Four("q", "u", "8", "1"), qd1 |-> Four("q", "d", "1", "1"),
    qd8 |-> Four("q", "d", "8", "1"),
    ledq |-> Scal(B("l"), F("e"), B("d"), F("q"), "1", "1", "S"), quqd1 |-> Scal(B("q"), F("u"), B("q"), F("d"), "1", "eps", "S"),
    quqd8 |-> Scal(B("q"), F("u"), B("q"), F("d"), "8", "eps", "S"), lequ1 |-> Scal(B("l"), F("e"), B("q"), F("u"), "1", "eps", "S"),
    lequ3 |-> Scal(B("l"), F("e"), B("q"), F("u"), "1", "eps", "T"),
    duql |-> Scal(F("d"), F("u"), F("q"), F("l"), "eps", "eps", "S"), qque |-> Scal(F("q"), F("q"), F("u"), F("e"), "eps", "eps", "S"),
    qqql |-> Scal(F("q"), F("q"), F("q"), F("l"), "eps", "epseps", "S"), duue |-> Scal(F("d"), F("u"), F("u"), F("e"), "eps", "1", "S") ]
Names == DOMAIN Ops
Couplings == {"Gu", "Gd", "Ge"}

(* twice the mass dimension *)
Dim2(o) == 3 * Len(o.f) + 2 * o.h + 4 * (o.w + o.b + o.g) + 2 * o.d
ASSUME \A n \in Names : Dim2(Ops[n]) = IF n = "llphiphi" THEN 10 ELSE IF n \in Couplings THEN 8 ELSE 12
(* electric charges add up: hypercharges times six *)
Y6(s) == CASE s = "q" -> 1 [] s = "u" -> 4 [] s = "d" -> -2 [] s = "l" -> -3 [] s = "e" -> -6
RECURSIVE SumY(_)
SumY(f) == IF f = <<>> THEN 0 ELSE (IF Head(f).bar THEN -Y6(Head(f).sp) ELSE Y6(Head(f).sp)) + SumY(Tail(f))
ASSUME \A n \in Names : SumY(Ops[n].f) + 3 * Ops[n].nh = 0

Legs(o) == Len(o.f) + o.h + o.w + o.b + o.g
Weight(o) == Legs(o) - 2
MassDim(n) == IF n \in Couplings THEN 0 ELSE IF n = "llphiphi" THEN -1 ELSE -2
Scalars == [g |-> 1, gp |-> 1, gs |-> 1, Lambda |-> 2, m2 |-> 0]     \* weights of the other couplings
ScalarDim == [g |-> 0, gp |-> 0, gs |-> 0, Lambda |-> 0, m2 |-> 2]

(* --- exchange of u and d, H and its conjugate ----------------------------*)
Flip(f) == [i \in DOMAIN f |-> [f[i] EXCEPT !.sp = CASE @ = "u" -> "d" [] @ = "d" -> "u" [] OTHER -> @]]
Conj(f) == [i \in DOMAIN f |-> [f[IF i % 2 = 1 THEN i + 1 ELSE i - 1] EXCEPT !.bar = ~@]]
PermsOf(n) == { p \in [1..n -> 1..n] : Cardinality({ p[i] : i \in 1..n }) = n }
Pairs(n) == IF n < 4 THEN { [i \in 1..n |-> i] } ELSE { <<1, 2, 3, 4>>, <<3, 4, 1, 2>>, <<2, 1, 3, 4>> }
Same(o, x) == /\ o.h = x.h /\ o.w = x.w /\ o.b = x.b /\ o.g = x.g /\ o.d = x.d /\ o.dual = x.dual /\ o.c = x.c /\ o.t = x.t /\ o.lor = x.lor /\ o.cur = x.cur
              /\ Len(o.f) = Len(x.f)
(* entry C'[i] of the partner x is sign * C[perm of i], conjugated if conj   *)
NumU(f) == Cardinality({ i \in DOMAIN f : f[i].sp = "u" })
Odd(n) == n % 2 = 1
Candidates(n) == { [to |-> x, perm |-> p, conj |-> j] : x \in Names, p \in Pairs(Len(Ops[n].f)), j \in BOOLEAN }
IsPartner(n, k) ==
  LET o == Ops[n]  x == Ops[k.to]  fl == Flip(o.f)  base == IF k.conj THEN Conj(fl) ELSE fl IN
  /\ Same(o, x)
  /\ (n \in Couplings) = (k.to \in Couplings)
  /\ x.nh = IF k.conj THEN o.nh ELSE -o.nh
  /\ x.f = [i \in DOMAIN base |-> base[k.perm[i]]]
  /\ (k.conj => o.nh # 0)
  \* operators that differ by the powers of fields only in the name
  /\ (o.f = <<>> => k.to = n)
Id(p) == [i \in DOMAIN p |-> i]
Partner(n) == { k \in Candidates(n) : IsPartner(n, k) /\ (k.perm = Id(k.perm) \/ ~IsPartner(n, [k EXCEPT !.perm = Id(@)])) }
(* u -> d, d -> -u, H -> H~, H~ -> -H; an epsilon tensor whose indices are   *)
(* exchanged gives a sign                                                    *)
IsoSign(n, k) ==
  LET o == Ops[n]
      sw == (k.perm = <<3, 4, 1, 2>> /\ o.t = "eps") \/ (k.perm = <<2, 1, 3, 4>> /\ o.c = "eps") IN
  IF Odd(NumU(o.f) + (IF o.nh \in {-1, 2} THEN 1 ELSE 0) + (IF o.cur THEN 1 ELSE 0) + (IF sw THEN 1 ELSE 0)) THEN -1 ELSE 1
(* the coefficient of the conjugate operator has its indices exchanged      *)
Adj(p) == [i \in DOMAIN p |-> p[IF i % 2 = 1 THEN i + 1 ELSE i - 1]]
Iso(n) == LET K == Partner(n) IN
  IF K = {} THEN <<>> ELSE LET k == CHOOSE k \in K : TRUE IN <<[to |-> k.to, perm |-> IF k.conj THEN Adj(k.perm) ELSE k.perm, conj |-> k.conj, sign |-> IsoSign(n, k)]>>
NoPartner == { n \in Names : Partner(n) = {} }
ASSUME NoPartner = {"Ge", "ephi", "eW", "eB", "ledq", "lequ1", "lequ3", "qque", "duue", "llphiphi"}
ASSUME \A n \in Names \ NoPartner : \A k \in Partner(n) : Cardinality(Partner(n)) = 1

(* --- scalar product, in units of 1/48 -------------------------------------*)
(* Colour and isospin tensors as combinations of products of Kronecker       *)
(* symbols: x for delta(12) delta(34), y for delta(14) delta(32), times 6    *)
Singlet == [x |-> 6, y |-> 0]
Triplet == [x |-> -6, y |-> 12]            \* sigma^I sigma^I
Octet == [x |-> -1, y |-> 3]               \* T^A T^A
(* contraction of two such tensors: closed loops count N                     *)
Direct(a, b, N) == (a.x * b.x + a.y * b.y) * N * N + (a.x * b.y + a.y * b.x) * N
Swapped(b) == [x |-> b.y, y |-> b.x]
Exch(a, b, N) == Direct(a, Swapped(b), N)
ASSUME /\ Direct(Triplet, Triplet, 2) = 36 * 12 /\ Exch(Triplet, Triplet, 2) = 36 * (-6) /\ Direct(Singlet, Triplet, 2) = 0
       /\ Exch(Singlet, Triplet, 2) = 36 * 6 /\ Direct(Octet, Octet, 3) = 36 * 2 /\ 3 * Exch(Octet, Octet, 3) = 36 * (-2)
       /\ Exch(Singlet, Octet, 3) = 36 * 4
Wk(s) == IF s \in {"q", "l"} THEN 2 ELSE 1
Co(s) == IF s \in {"q", "u", "d"} THEN 3 ELSE 1
WT(o) == IF o.t = "3" THEN Triplet ELSE Singlet
CT(o) == IF o.c = "8" THEN Octet ELSE Singlet
W4(o, p) == LET a == Wk(o.f[1].sp)  b == Wk(o.f[3].sp) IN IF a = 2 /\ b = 2 THEN Direct(WT(o), WT(p), 2) ELSE 36 * a * b
C4(o, p) == LET a == Co(o.f[1].sp)  b == Co(o.f[3].sp) IN IF a = 3 /\ b = 3 THEN Direct(CT(o), CT(p), 3) ELSE 36 * a * b
WX(o, p) == IF Wk(o.f[1].sp) = 2 THEN Exch(WT(o), WT(p), 2) ELSE 36
CX(o, p) == IF Co(o.f[1].sp) = 3 THEN Exch(CT(o), CT(p), 3) ELSE 36
E(x, y, p, n) == [x |-> x, y |-> y, perm |-> p, num |-> n]
I2 == <<1, 2>>
I4 == <<1, 2, 3, 4>>
Vec == { n \in Names : Len(Ops[n].f) = 4 /\ Ops[n].lor = "V" }
Ident == { n \in Vec : Ops[n].f[1] = Ops[n].f[3] }
U == 48
GramV == { E(n, n, I4, (U * W4(Ops[n], Ops[n]) * C4(Ops[n], Ops[n])) \div 1296) : n \in Vec \ Ident }
   \cup UNION { UNION { { E(n, m, I4, (2 * U * W4(Ops[n], Ops[m]) * C4(Ops[n], Ops[m])) \div 1296),
                          E(n, m, <<1, 4, 3, 2>>, (2 * U * WX(Ops[n], Ops[m]) * CX(Ops[n], Ops[m])) \div 1296) }
                        : m \in { k \in Ident : Ops[k].f = Ops[n].f } } : n \in Ident }
(* scalar operators: a quarter of vectors, but with the conjugate operator   *)
(* in addition; tensors 48 times scalars; identical doublets give 1/2        *)
GramS == { E("ledq", "ledq", I4, (U * 2 * 3) \div 2), E("lequ1", "lequ1", I4, (U * 2 * 3) \div 2), E("lequ3", "lequ3", I4, (48 * U * 2 * 3) \div 2) }
  \cup UNION { { E(n, m, I4, (U * 2 * Direct(CT(Ops[n]), CT(Ops[m]), 3)) \div 72), E(n, m, <<3, 2, 1, 4>>, (U * Exch(CT(Ops[n]), CT(Ops[m]), 3)) \div 72) }
               : n \in {"quqd1", "quqd8"}, m \in {"quqd1", "quqd8"} }
GramH == { E(n, n, I2, U * Wk(Ops[n].f[1].sp) * Co(Ops[n].f[1].sp) * (IF Ops[n].t = "3" THEN 3 ELSE 1)) :
             n \in {"phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid", "phiud"} }
  \cup { E("phiBox", "phiBox", <<>>, U \div 2), E("phiD", "phiD", <<>>, U \div 8) }
GramX == { E(n, n, I2, U * 6 * Wk(Ops[n].f[1].sp) * Co(Ops[n].f[1].sp) * (IF Ops[n].w = 1 THEN 3 ELSE 1)) :
             n \in {"eW", "eB", "uW", "uB", "dW", "dB"} }
  \cup { E(n, n, I2, U * 6 * 2 * 4) : n \in {"uG", "dG"} }
  \cup { E("phiG" \o s, "phiG" \o s, <<>>, U * 3 * 16) : s \in {"", "tilde"} }
  \cup { E("phiB" \o s, "phiB" \o s, <<>>, U * 3 * 2) : s \in {"", "tilde"} }
  \cup { E("phiW" \o s, "phiW" \o s, <<>>, U * 3 * 6) : s \in {"", "tilde"} }
  \cup { E("phiW" \o s, "phiW" \o s, <<>>, U * 9) : s \in {"B", "tildeB"} }
(* baryon number: the coefficients of qqql have the symmetry of class 8      *)
GramB == { E("duql", "duql", I4, 4 * U), E("qque", "qque", I4, 8 * U), E("duue", "duue", I4, 2 * U), E("duue", "duue", <<1, 3, 2, 4>>, U),
           E("qqql", "qqql", I4, 10 * U), E("qqql", "qqql", <<2, 1, 3, 4>>, -4 * U) }
GramY == { E("uphi", "uphi", I2, 6), E("dphi", "dphi", I2, 6), E("ephi", "ephi", I2, 2) }    \* five legs
Gram == [four |-> GramV \cup GramS \cup GramH \cup GramX, bnv |-> GramB, five |-> GramY]
ASSUME \A n \in { k \in Names : Legs(Ops[k]) = 4 /\ k # "llphiphi" } : \E e \in GramV \cup GramS \cup GramH \cup GramX \cup GramB : e.x = n /\ e.num # 0

(* one behaviour that writes the tables out *)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
Out == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT,
  [ops |-> [n \in Names |-> [f |-> Ops[n].f, weight |-> Weight(Ops[n]), dim |-> MassDim(n), legs |-> Legs(Ops[n]), odd |-> <<Ops[n].w % 2, Ops[n].b % 2, Ops[n].g % 2>>,
                             dual |-> Ops[n].dual, iso |-> Iso(n)]],
   scalars |-> Scalars, scalardim |-> ScalarDim, gram |-> Gram])
=============================================================================
