----------------------------- MODULE WilsonPlan -----------------------------
(* Tabulates the plan of every (input, option setting, request).             *)
EXTENDS Wilson, Json, IOUtils, SequencesExt
CONSTANT OptSets      \* sequence of option records
Shape(p) == [n \in 1..Len(p.steps) |-> p.steps[n].op]
Table ==
  LET S == SetToSeq(WCs \X (1..Len(OptSets)) \X Targets)
  IN [n \in 1..Len(S) |->
        LET p == Plan(S[n][1], OptSets[S[n][2]], S[n][3])
        IN [wc |-> S[n][1].name, o |-> S[n][2], t |-> S[n][3], ok |-> p.ok,
            steps |-> p.steps, shape |-> Shape(p)]]
VARIABLE done
PInit == Init /\ done = FALSE
PNext == /\ ~done /\ done' = TRUE /\ UNCHANGED vars
         /\ JsonSerialize(IOEnv.OUT, Table)
PSpec == PInit /\ [][PNext]_<<vars, done>>
=============================================================================
