------------------------------ MODULE SmeftFlow ------------------------------
(* The renormalization group flow of the Standard Model Effective Field      *)
(* Theory in the unbroken phase.  A point is a set of Standard Model         *)
(* couplings with a set of coefficients.  Operations: running (integrated,   *)
(* leading logarithm, with or without the running of coefficients), linear   *)
(* combination of coefficients, and the symmetries of the equations: flavour *)
(* rotations, CP, reflections of gauge couplings, a rescaling of the         *)
(* counting parameter of loops and of the units of mass.                     *)
(* Normal form: a linear combination of atoms, run along a word, transformed *)
(* once.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS SMs,       \* [name -> is the Higgs mass parameter zero?]
          Atoms,     \* names of coefficient sets
          Lengths,   \* lengths of runs
          Rots,      \* sample of rotations [perm |-> 5 permutations, ph |-> 5 phases]
          MaxLen, Regs
VARIABLES obj
vars == obj
None == [sm |-> ""]
P == 7                \* phases are multiples of 2 pi / 7
Id3 == <<1, 2, 3>>
Mul3(p, q) == [i \in 1..3 |-> p[q[i]]]
IdRot == [perm |-> [s \in 1..5 |-> Id3], ph |-> [s \in 1..5 |-> 0]]
(* h after g *)
MulRot(h, g) == [perm |-> [s \in 1..5 |-> Mul3(h.perm[s], g.perm[s])], ph |-> [s \in 1..5 |-> (h.ph[s] + g.ph[s]) % P]]
ConjRot(g) == [g EXCEPT !.ph = [s \in 1..5 |-> (P - g.ph[s]) % P]]
(* a symmetry: CP first, then the rotation, signs, powers                    *)
IdSym == [cp |-> FALSE, rot |-> IdRot, refl |-> <<FALSE, FALSE, FALSE>>, loop |-> 0, mass |-> 0]

Last(w) == w[Len(w)]
Front(w) == SubSeq(w, 1, Len(w) - 1)
Kinds == {"int", "ll", "sm"}
Push(w, k, n) ==
  IF n = 0 THEN w
  ELSE IF w # <<>> /\ k # "ll" /\ Last(w).k = k
    THEN IF Last(w).n + n = 0 THEN Front(w) ELSE Append(Front(w), [k |-> k, n |-> Last(w).n + n])
    ELSE Append(w, [k |-> k, n |-> n])

Clean(t) == [x \in { y \in DOMAIN t : t[y] # 0 } |-> t[x]]
Get(t, x) == IF x \in DOMAIN t THEN t[x] ELSE 0
Add(s, a, t, b) == Clean([x \in DOMAIN s \cup DOMAIN t |-> a * Get(s, x) + b * Get(t, x)])

Live == { r \in Regs : obj[r] # None }
Set(r, o) == obj' = [obj EXCEPT ![r] = o]
New(r, s, a) == Set(r, [sm |-> s, t |-> a :> 1, sym |-> IdSym, w |-> <<>>])
Four(k) == CASE k = 0 -> 1 [] k = 1 -> 4 [] k = 2 -> 16
Run(q, r, k, n) == Set(r, [obj[q] EXCEPT !.w = Push(@, k, n * Four(obj[q].sym.loop))])
Rotate(q, r, h) == Set(r, [obj[q] EXCEPT !.sym.rot = MulRot(h, @)])
CP(q, r) == Set(r, [obj[q] EXCEPT !.sym.cp = ~@, !.sym.rot = ConjRot(@)])
Reflect(q, r, i) == Set(r, [obj[q] EXCEPT !.sym.refl[i] = ~@])
Loop(q, r, d) == obj[q].sym.loop + d \in 0..1 /\ Set(r, [obj[q] EXCEPT !.sym.loop = @ + d])
Mass(q, r, d) == obj[q].sym.mass + d \in -1..1 /\ Set(r, [obj[q] EXCEPT !.sym.mass = @ + d])
Lin(p, q, r, a, b) ==
  /\ obj[p].sm = obj[q].sm /\ SMs[obj[p].sm] /\ obj[p].sym = obj[q].sym /\ obj[p].w = obj[q].w
  /\ Set(r, [obj[p] EXCEPT !.t = Add(obj[p].t, a, obj[q].t, b)])
Repack(q, r) == Set(r, obj[q])
Coefs == {-2, -1, 1, 3}

RECURSIVE Length(_)
Abs(n) == IF n < 0 THEN -n ELSE n
Length(w) == IF w = <<>> THEN 0 ELSE Abs(Head(w).n) + Length(Tail(w))
Init == obj = [r \in Regs |-> None]
Next ==
  \/ \E r \in Regs, s \in DOMAIN SMs, a \in Atoms : New(r, s, a)
  \/ \E q \in Live, r \in Regs, k \in Kinds, n \in Lengths : Run(q, r, k, n) /\ Length(obj'[r].w) <= MaxLen
  \/ \E q \in Live, r \in Regs, h \in Rots : Rotate(q, r, h)
  \/ \E q \in Live, r \in Regs : CP(q, r) \/ Repack(q, r)
  \/ \E q \in Live, r \in Regs, i \in 1..3 : Reflect(q, r, i)
  \/ \E q \in Live, r \in Regs, d \in {-1, 1} : Loop(q, r, d) \/ Mass(q, r, d)
  \/ \E p, q \in Live, r \in Regs, a, b \in Coefs : Lin(p, q, r, a, b)
Spec == Init /\ [][Next]_vars

(* --- design properties ---------------------------------------------------*)
Reduced == \A r \in Live : \A i \in DOMAIN obj[r].w :
   /\ obj[r].w[i].n # 0
   /\ (i > 1 /\ obj[r].w[i].k # "ll") => obj[r].w[i - 1].k # obj[r].w[i].k
(* symmetry operations commute with running, up to the change of length that *)
(* goes with the counting parameter: running first and last gives the same   *)
RunAll(x, k, n) == [x EXCEPT !.w = Push(@, k, n * Four(x.sym.loop))]
Commute == \A r \in Live : \A n \in Lengths : \A h \in Rots : LET x == obj[r] IN
   /\ RunAll([x EXCEPT !.sym.rot = MulRot(h, @)], "int", n) = [RunAll(x, "int", n) EXCEPT !.sym.rot = MulRot(h, @)]
   /\ x.sym.loop = 0 => RunAll([x EXCEPT !.sym.loop = 1], "int", n).w = RunAll(x, "int", 4 * n).w
   /\ RunAll(RunAll(x, "int", n), "int", -n) = x \/ (x.w # <<>> /\ Last(x.w).k = "int" /\ Last(x.w).n = -n * Four(x.sym.loop))
(* the symmetries form a group: CP is an involution, and conjugates phases   *)
Involution == \A r \in Live : \A h \in Rots : LET g == obj[r].sym.rot IN
   /\ ConjRot(ConjRot(g)) = g
   /\ ConjRot(MulRot(h, g)) = MulRot(ConjRot(h), ConjRot(g))
   /\ \A k \in Rots : MulRot(k, MulRot(h, g)) = MulRot(MulRot(k, h), g)
=============================================================================
