-------------------------------- MODULE Flow --------------------------------
(* The renormalization group flow of the weak effective theories as an       *)
(* algebra.  Objects are points in coefficient space (with their scale); the *)
(* operations are running, linear combination, the symmetries of QCD and QED *)
(* (parity, CP, relabelling of flavours of equal charge), restriction to     *)
(* sectors, and changes of representation that mean nothing.  What an object *)
(* must be equal to is given by its normal form: a linear combination of     *)
(* atoms (coefficient dictionaries), each transformed first and run after.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Atoms,     \* [name -> [eft, scale]]
          NScales,   \* scales are numbers 1..NScales of a ladder
          Orders,    \* pairs <<qcd, qed>>
          Perms,     \* [eft -> set of relabellings], tuples for <<d, u, e, nu>>
          Sectors,   \* sets of sectors to restrict to, as names of the harness
          Isospin,   \* EFTs with as many up- as down-type quarks, if QED is off
          Regs

VARIABLES obj        \* [Regs -> object]
vars == obj

None == [eft |-> "none"]
Scales == 1..NScales

(* --- relabellings ------------------------------------------------------- *)
Id3 == <<1, 2, 3>>
Mul3(p, q) == [i \in 1..3 |-> p[q[i]]]
MulP(g, h) == [x \in 1..4 |-> Mul3(g[x], h[x])]
IdP == <<Id3, Id3, Id3, Id3>>

(* --- words ---------------------------------------------------------------*)
(* A letter is a run [from, to, qcd, qed] or a relabelling [g].             *)
Run(a, b, o) == [k |-> "run", from |-> a, to |-> b, qcd |-> o[1], qed |-> o[2]]
Lab(g) == [k |-> "lab", g |-> g]
Last(w) == w[Len(w)]
Front(w) == SubSeq(w, 1, Len(w) - 1)

(* Rules that hold for every operator: no distance, no running; without QCD *)
(* there is no running but that of the normalization, which composes;       *)
(* relabellings form a group.                                               *)
PushA(w, l) ==
  IF l.k = "run" /\ l.from = l.to THEN w
  ELSE IF l.k = "lab" /\ l.g = IdP THEN w
  ELSE IF w = <<>> THEN <<l>>
  ELSE LET m == Last(w) IN
       IF l.k = "lab" /\ m.k = "lab"
         THEN LET g == MulP(l.g, m.g) IN IF g = IdP THEN Front(w) ELSE Append(Front(w), Lab(g))
       ELSE IF l.k = "run" /\ m.k = "run" /\ l.qcd = 0 /\ m.qcd = 0 /\ m.to = l.from
         THEN IF m.from = l.to THEN Front(w) ELSE Append(Front(w), Run(m.from, l.to, <<0, l.qed>>))
       ELSE Append(w, l)

(* Rules that hold for four-fermion operators in addition: without QCD they  *)
(* do not run, in pure QCD the flow composes, and relabellings commute with  *)
(* the flow (dipoles are normalized with a fermion mass).                    *)
RECURSIVE PushB(_, _)
PushB(w, l) ==
  IF l.k = "run" /\ (l.from = l.to \/ l.qcd = 0) THEN w
  ELSE IF l.k = "lab" /\ l.g = IdP THEN w
  ELSE IF w = <<>> THEN <<l>>
  ELSE LET m == Last(w) IN
       IF l.k = "lab" THEN
         IF m.k = "lab" THEN LET g == MulP(l.g, m.g) IN IF g = IdP THEN Front(w) ELSE Append(Front(w), Lab(g))
         ELSE Append(PushB(Front(w), l), m)
       ELSE IF m.k = "run" /\ m.to = l.from /\ m.qed = 0 /\ l.qed = 0
         THEN IF m.from = l.to THEN Front(w) ELSE Append(Front(w), Run(m.from, l.to, <<1, 0>>))
       ELSE Append(w, l)

(* --- terms: functions from <<atom, parity, cp, word A, word B, isospin>> to Int *)
Single(a) == (<<a, FALSE, FALSE, <<>>, <<>>, FALSE>>) :> 1
Clean(t) == [x \in { y \in DOMAIN t : t[y] # 0 } |-> t[x]]
Get(t, x) == IF x \in DOMAIN t THEN t[x] ELSE 0
Add(s, a, t, b) == Clean([x \in DOMAIN s \cup DOMAIN t |-> a * Get(s, x) + b * Get(t, x)])
RECURSIVE SumOver(_, _)
SumOver(t, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN t[x] + SumOver(t, S \ {x})
Map(t, F(_)) == Clean([y \in { F(x) : x \in DOMAIN t } |-> SumOver(t, { x \in DOMAIN t : F(x) = y })])

PushT(x, l) == <<x[1], x[2], x[3], PushA(x[4], l), PushB(x[5], l), x[6]>>

(* --- transitions ----------------------------------------------------------*)
Live == { r \in Regs : obj[r] # None }
Set(r, o) == obj' = [obj EXCEPT ![r] = o]

New(r, a) == Set(r, [eft |-> Atoms[a].eft, sc |-> Atoms[a].scale, sec |-> "all", t |-> Single(a)])

DoRun(q, r, s, o) ==
  LET x == obj[q]
      F(y) == PushT(y, Run(x.sc, s, o))
  IN Set(r, [x EXCEPT !.sc = s, !.t = Map(x.t, F)])

Parity(q, r) ==
  LET x == obj[q]
      F(y) == [y EXCEPT ![2] = ~y[2]]
  IN x.sec = "all" /\ Set(r, [x EXCEPT !.t = Map(x.t, F)])

CP(q, r) ==
  LET x == obj[q]
      F(y) == [y EXCEPT ![3] = ~y[3]]
  IN x.sec = "all" /\ Set(r, [x EXCEPT !.t = Map(x.t, F)])

(* Without QED, up- and down-type quarks are the same.                      *)
Flip(w) == [i \in DOMAIN w |-> IF w[i].k = "lab" THEN Lab(<<w[i].g[2], w[i].g[1], w[i].g[3], w[i].g[4]>>) ELSE w[i]]
Iso(q, r) ==
  LET x == obj[q]
      F(y) == [y EXCEPT ![4] = Flip(y[4]), ![5] = Flip(y[5]), ![6] = ~y[6]]
  IN /\ x.sec = "all" /\ x.eft \in Isospin /\ \A o \in Orders : o[2] = 0
     /\ Set(r, [x EXCEPT !.t = Map(x.t, F)])

Relabel(q, r, g) ==
  LET x == obj[q]
      F(y) == PushT(y, Lab(g))
  IN x.sec = "all" /\ g \in Perms[x.eft] /\ Set(r, [x EXCEPT !.t = Map(x.t, F)])

Lin(p, q, r, a, b) ==
  /\ obj[p].eft = obj[q].eft /\ obj[p].sc = obj[q].sc /\ obj[p].sec = obj[q].sec
  /\ Set(r, [obj[p] EXCEPT !.t = Add(obj[p].t, a, obj[q].t, b)])

(* A run that is asked for some sectors only *)
RunSec(q, r, s, o, S) ==
  LET x == obj[q]
      F(y) == PushT(y, Run(x.sc, s, o))
  IN x.sec \in {"all", S} /\ Set(r, [x EXCEPT !.sc = s, !.sec = S, !.t = Map(x.t, F)])

(* order of the entries, explicit zeros, writing to a file and reading back *)
Repack(q, r) == Set(r, obj[q])

Coefs == {-2, -1, 1, 3}
Init == obj = [r \in Regs |-> None]
Next ==
  \/ \E r \in Regs, a \in DOMAIN Atoms : New(r, a)
  \/ \E q \in Live, r \in Regs, s \in Scales, o \in Orders : DoRun(q, r, s, o)
  \/ \E q \in Live, r \in Regs : Parity(q, r) \/ CP(q, r) \/ Iso(q, r) \/ Repack(q, r)
  \/ \E q \in Live, r \in Regs : \E g \in Perms[obj[q].eft] : Relabel(q, r, g)
  \/ \E p, q \in Live, r \in Regs, a, b \in Coefs : Lin(p, q, r, a, b)
  \/ \E q \in Live, r \in Regs, s \in Scales, o \in Orders, S \in Sectors : RunSec(q, r, s, o, S)
Spec == Init /\ [][Next]_vars

(* --- design properties ---------------------------------------------------*)
Typed == \A r \in Live : /\ obj[r].sc \in Scales
                         /\ \A x \in DOMAIN obj[r].t : x[1] \in DOMAIN Atoms /\ Atoms[x[1]].eft = obj[r].eft
(* words begin and end where the object does, and are reduced               *)
Ends(w, a, b) == LET R == { i \in DOMAIN w : w[i].k = "run" } IN
  R = {} \/ \A i \in R : /\ w[i].from # w[i].to
                         /\ (\A j \in R : j >= i) => w[i].from = a
                         /\ (\A j \in R : j <= i) => w[i].to = b
WordsA == \A r \in Live : \A x \in DOMAIN obj[r].t : Ends(x[4], Atoms[x[1]].scale, obj[r].sc)
RunsB == \A r \in Live : \A x \in DOMAIN obj[r].t : \A i \in DOMAIN x[5] :
            /\ x[5][i].k = "lab" => i = 1
            /\ x[5][i].k = "run" => x[5][i].qcd = 1
PureQcd == Orders = {<<1, 0>>} => \A r \in Live : \A x \in DOMAIN obj[r].t :
            Cardinality({ i \in DOMAIN x[5] : x[5][i].k = "run" }) <= 1
(* The normal form B decides: interpreted in a toy theory (two labels with   *)
(* charges, arithmetic modulo 7) words A and B have the same value.          *)
P7 == 7
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE (b * Pow(b, n - 1)) % P7
Unit(l) == IF l.qcd = 0 THEN 1
           ELSE LET d == (l.to - l.from + 12) % 6 IN
                (Pow(3, d) * (IF l.qed = 0 THEN 1 ELSE 1 + l.from * l.to)) % P7
Perm3(g, v) == [i \in 1..3 |-> v[CHOOSE j \in 1..3 : g[j] = i]]
ActV(l, v) == IF l.k = "run" THEN [t \in 1..2 |-> [i \in 1..3 |-> (Unit(l) * v[t][i]) % P7]]
              ELSE [t \in 1..2 |-> Perm3(l.g[t], v[t])]
Start == <<<<1, 3, 5>>, <<2, 6, 4>>>>
RECURSIVE Val(_, _)
Val(w, v) == IF w = <<>> THEN v ELSE Val(Tail(w), ActV(Head(w), v))
SameValue == \A r \in Live : \A x \in DOMAIN obj[r].t : 
               Val(x[4], Start) = Val(x[5], Start)
=============================================================================
