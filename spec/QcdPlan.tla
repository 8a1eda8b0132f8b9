------------------------------ MODULE QcdPlan -------------------------------
(* Running coupling and masses: the scheme as a plan of elementary steps     *)
(* (run at fixed flavour number, cross a threshold, take the coupling from   *)
(* its own plan), and the memoizing functions that evaluate it.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Quantities,   \* subset of {"alpha_s", "m_b", "m_c", "m_s"}
          Flavours,     \* numbers and strings of invalid ones
          Scales,       \* tokens; those in BadScales are not positive
          BadScales, Inits, Loops, MaxMemo

(* decoupling scale between nf and nf + 1 *)
Thr(nf) == CASE nf = 3 -> "1.3" [] nf = 4 -> "4.8" [] nf = 5 -> "170"
StartNf(q) == CASE q = "alpha_s" -> 5 [] q = "m_b" -> 5 [] q = "m_c" -> 4 [] q = "m_s" -> 3
(* the scale at which the input value is given ("self": m(m)) *)
StartScale(q) == CASE q = "alpha_s" -> "91.1876" [] q \in {"m_b", "m_c"} -> "self" [] q = "m_s" -> "2"
MaxNf(q) == IF q \in {"alpha_s", "m_b"} THEN 6 ELSE 5

Run(nf, to) == [op |-> "run", nf |-> nf, to |-> to]
Cross(nf, d) == [op |-> "cross", nf |-> nf, dir |-> d, at |-> Thr(nf)]   \* between nf and nf + 1
Couple(nf, at) == [op |-> "couple", nf |-> nf, at |-> at]
(* from flavour number a to b; the coupling that accompanies a mass is taken *)
(* anew from its own plan at the charm threshold of the four-flavour theory  *)
(* if the path goes on from there                                            *)
RECURSIVE Path(_, _, _, _)
Path(q, a, b, first) ==
  IF a = b THEN <<>>
  ELSE LET up == a < b
           t == IF up THEN a ELSE a - 1
           inner == q # "alpha_s" /\ ~first /\ ~up /\ a = 4
       IN <<Run(a, Thr(t))>> \o (IF inner THEN <<Couple(4, Thr(3))>> ELSE <<>>)
          \o <<Cross(t, IF up THEN "up" ELSE "down")>>
          \o (IF q # "alpha_s" /\ up /\ a = 3 /\ b > 4 THEN <<Couple(4, Thr(3))>> ELSE <<>>)
          \o Path(q, IF up THEN a + 1 ELSE a - 1, b, FALSE)
Plan(q, nf, scale) ==
  (IF q = "alpha_s" THEN <<>> ELSE <<Couple(StartNf(q), StartScale(q))>>)
  \o Path(q, StartNf(q), nf, TRUE) \o <<Run(nf, scale)>>

(* a request and what it must give *)
Valid(r) == r.scale \notin BadScales /\ r.f \in 3..MaxNf(r.q)
Answer(r) == IF r.f = StartNf(r.q) /\ r.scale = (IF StartScale(r.q) = "self" THEN r.init ELSE StartScale(r.q))
             THEN [kind |-> "input", steps |-> <<>>]
             ELSE IF Valid(r) THEN [kind |-> "plan", steps |-> Plan(r.q, r.f, r.scale)]
             ELSE [kind |-> "ValueError", steps |-> <<>>]

(* sanity of the plans *)
Nfs(p) == [i \in 1..Len(p) |-> p[i].nf]
RECURSIVE EndNf(_, _)
EndNf(p, nf) == IF p = <<>> THEN nf
  ELSE LET h == Head(p) IN
    CASE h.op = "cross" -> (IF h.dir = "up" /\ h.nf = nf THEN EndNf(Tail(p), nf + 1)
                            ELSE IF h.dir = "down" /\ h.nf = nf - 1 THEN EndNf(Tail(p), nf - 1) ELSE 0)
      [] OTHER -> IF h.nf = nf THEN EndNf(Tail(p), nf) ELSE 0
Consistent == \A q \in Quantities : \A nf \in 3..MaxNf(q) :
   EndNf(Plan(q, nf, "s"), StartNf(q)) = nf
CrossOnce == \A q \in Quantities : \A nf \in 3..MaxNf(q) :
   LET p == Plan(q, nf, "s") IN \A i, j \in 1..Len(p) :
     i # j /\ p[i].op = "cross" /\ p[j].op = "cross" => p[i].nf # p[j].nf
AtThreshold == \A q \in Quantities : \A nf \in 3..MaxNf(q) :   \* one crosses where one is
   LET p == Plan(q, nf, "s") IN \A i \in 2..Len(p) : p[i].op = "cross" =>
     \E j \in 1..(i - 1) : p[j].op = "run" /\ p[j].to = p[i].at
        /\ \A k \in (j + 1)..(i - 1) : p[k].op = "couple"
ASSUME Consistent /\ CrossOnce /\ AtThreshold

(* the functions with their memory of the latest answers *)
Requests == [q : Quantities, f : Flavours, scale : Scales, init : Inits, loop : Loops, amz : Inits]
VARIABLES memo, resp
vars == <<memo, resp>>
Init == memo = <<>> /\ resp = [kind |-> "init"]
Call(r) ==
  /\ IF \E i \in 1..Len(memo) : memo[i].r = r
     THEN LET i == CHOOSE i \in 1..Len(memo) : memo[i].r = r IN
          resp' = [kind |-> "answer", r |-> r, a |-> memo[i].a] /\ memo' = memo
     ELSE /\ resp' = [kind |-> "answer", r |-> r, a |-> Answer(r)]
          /\ memo' = IF Answer(r).kind = "ValueError" THEN memo
                     ELSE LET m == Append(memo, [r |-> r, a |-> Answer(r)]) IN
                          IF Len(m) > MaxMemo THEN Tail(m) ELSE m
Next == \E r \in Requests : Call(r)
Spec == Init /\ [][Next]_vars
HistoryFree == resp.kind = "answer" => resp.a = Answer(resp.r)
=============================================================================
