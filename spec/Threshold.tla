------------------------------ MODULE Threshold ------------------------------
(* What remains of the operators of the JMS basis when the heaviest flavours *)
(* are removed: the entries that only involve lighter ones, unchanged.       *)
EXTENDS WetSym, Bases
(* number of flavours of each kind in each theory                            *)
Flavours(e) == CASE e = "WET" -> [u |-> 2, d |-> 3, e |-> 3, n |-> 3]
                 [] e = "WET-4" -> [u |-> 2, d |-> 2, e |-> 3, n |-> 3]
                 [] e = "WET-3" -> [u |-> 1, d |-> 2, e |-> 2, n |-> 3]
                 [] e = "WET-2" -> [u |-> 1, d |-> 1, e |-> 1, n |-> 3]
Tower == <<"WET", "WET-4", "WET-3", "WET-2">>
Entries(f) == [DOMAIN f -> 1..3]
Exists(e, f, x) == \A i \in DOMAIN f : x[i] <= Flavours(e)[f[i]]
Of(e, f) == { x \in Entries(f) : Exists(e, f, x) }
RECURSIVE Num(_, _)
Num(x, n) == IF n = 0 THEN 0 ELSE 10 * Num(x, n - 1) + x[n]
(* the sum over a few operators suffices: the field contents                 *)
Contents == { Fields[o] : o \in DOMAIN Fields }
ASSUME \A f \in Contents : \A i \in 1..3 : Of(Tower[i + 1], f) \subseteq Of(Tower[i], f)
(* one flavour more is needed for every operator that goes                   *)
Cross(e, to, f, S) == { x \in S : Exists(to, f, x) }
ASSUME \A f \in Contents : LET S == Of("WET", f) IN
   /\ Cross("WET-4", "WET-3", f, Cross("WET", "WET-4", f, S)) = Cross("WET", "WET-3", f, S)
   /\ \A x \in S : x \notin Cross("WET", "WET-4", f, S) <=> \E i \in DOMAIN f : f[i] = "d" /\ x[i] = 3
   /\ \A x \in Of("WET-4", f) : x \notin Of("WET-3", f) <=> \E i \in DOMAIN f : (f[i] = "u" /\ x[i] = 2) \/ (f[i] = "e" /\ x[i] = 3)
(* what remains is closed under relabelling of the remaining flavours and    *)
(* under the exchange of equal fields, hence under the symmetries of the     *)
(* operators and under running                                               *)
SwapAt(x, i, j) == [x EXCEPT ![i] = x[j], ![j] = x[i]]
ASSUME \A f \in Contents : \A k \in 1..4 : \A x \in Of(Tower[k], f) : \A i, j \in DOMAIN f : f[i] = f[j] => SwapAt(x, i, j) \in Of(Tower[k], f)
Table == [k \in 1..4 |-> [o \in DOMAIN Fields |-> { Num(x, Len(x)) : x \in Of(Tower[k], Fields[o]) }]]
Write == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [left |-> Table, tower |-> Tower])
=============================================================================
