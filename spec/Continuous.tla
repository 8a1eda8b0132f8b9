----------------------------- MODULE Continuous -----------------------------
(* Continuous solutions of the RG equations.  Scales are points 1..K of a    *)
(* grid; the state of a theory is the value of its input after running from  *)
(* the input scale to another one, <<input, from, to>>.  A solution is a     *)
(* function on an interval; plot data are its values on a partition.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, Steps, Keys
None == "none"
VARIABLES in, sol, last
vars == <<in, sol, last>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Init == in \in 1..K /\ sol = <<>> /\ last = [op |-> "start", in |-> in]
Value(s, x) == <<"input", s.in, x>>
Make(b) == /\ b # in
           /\ sol' = Append(sol, [in |-> in, lo |-> Min(in, b), hi |-> Max(in, b)])
           /\ in' = in
           /\ last' = [op |-> "make", to |-> b, lo |-> Min(in, b), hi |-> Max(in, b)]
Same == UNCHANGED <<in, sol>> /\ last' = [op |-> "same", to |-> in]
(* point x of the grid inside the interval, alone or with others             *)
Eval(i, xs, scalar) == /\ \A j \in DOMAIN xs : sol[i].lo <= xs[j] /\ xs[j] <= sol[i].hi
                       /\ UNCHANGED <<in, sol>>
                       /\ last' = [op |-> "eval", sol |-> i, at |-> xs, scalar |-> scalar,
                                   want |-> [j \in DOMAIN xs |-> Value(sol[i], xs[j])]]
(* n points, the k-th at a fraction of the interval on the chosen axis;      *)
(* a single point is the lower end                                           *)
Fraction(n, k) == IF n = 1 THEN <<0, 1>> ELSE <<k - 1, n - 1>>
Plot(i, key, part, axis, n) == /\ UNCHANGED <<in, sol>>
                               /\ last' = [op |-> "plot", sol |-> i, key |-> key, part |-> part, axis |-> axis, n |-> n,
                                           lo |-> sol[i].lo, hi |-> sol[i].hi, at |-> [k \in 1..n |-> Fraction(n, k)]]
Run(b) == UNCHANGED <<in, sol>> /\ last' = [op |-> "run", to |-> b, want |-> <<"input", in, b>>]
Next == \/ \E b \in 1..K : Make(b) \/ Run(b)
        \/ Same
        \/ \E i \in DOMAIN sol : \E x, y \in 1..K : Eval(i, <<x, y>>, FALSE) \/ (x = y /\ Eval(i, <<x>>, TRUE))
        \/ \E i \in DOMAIN sol, k \in Keys, p \in {"re", "im"}, a \in {"log", "linear"}, n \in Steps : Plot(i, k, p, a, n)
Spec == Init /\ [][Next]_vars
Bound == Len(sol) <= 2

(* the interval is the one between input and requested scale                 *)
Interval == \A i \in DOMAIN sol : sol[i].lo < sol[i].hi /\ sol[i].in \in {sol[i].lo, sol[i].hi}
(* a solution and pointwise running agree; at the input scale it is the input*)
Agree == last.op = "eval" => \A j \in DOMAIN last.at : last.want[j] = <<"input", in, last.at[j]>>
(* plots begin and end at the ends of the interval and are increasing        *)
Axis == last.op = "plot" /\ last.n > 1 =>
          /\ last.at[1][1] = 0 /\ last.at[last.n][1] = last.at[last.n][2]
          /\ \A k \in 1..(last.n - 1) : last.at[k + 1][1] - last.at[k][1] = 1
=============================================================================
