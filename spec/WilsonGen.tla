----------------------------- MODULE WilsonGen ------------------------------
(* Generates histories of the Wilson state machine together with the plan    *)
(* each match_run request stands for; printed as JSON for replay.  Requests  *)
(* are often repeated, in particular after a change of an option.            *)
EXTENDS Wilson, Json
CONSTANT Depth
VARIABLE hist

Add(e) == hist' = Append(hist, e)
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Alive == { i \in Ids : inst[i].wc # NoWC }
Asked(i) == { n \in 1..Len(hist) : hist[n].a = "run" /\ hist[n].id = i }
(* instances with a change of options after the latest request *)
Touched == { n \in 1..Len(hist) : hist[n].a = "set" /\ Asked(hist[n].id) # {}
               /\ \A m \in Asked(hist[n].id) : m < n }
Acts == (IF Alive # Ids THEN {<<"new", 1>>} ELSE {})
        \cup (IF Alive = {} THEN {} ELSE {<<"set", 1>>, <<"set", 2>>, <<"run", 1>>, <<"run", 2>>, <<"run", 3>>})
        \cup (IF Alive # {} /\ Len(hist) % 5 = 0 THEN {<<"clear", 1>>} ELSE {})
        \cup (IF UseDefaults THEN {<<"default", 1>>} ELSE {})
        \cup (IF \E i \in Ids : Asked(i) # {} THEN {<<"again", 1>>} ELSE {})
        \cup (IF Touched # {} THEN {<<"after", n>> : n \in 1..5} ELSE {})
Run(i, t) == /\ MatchRun(i, t)
             /\ LET p == Plan(inst[i].wc, inst[i].opts, t)
                IN Add([a |-> "run", id |-> i, t |-> t, ok |-> p.ok,
                        steps |-> Norm(p.steps, inst[i].wc.scale)])
Do(a) ==
  CASE a = "new" -> \E i \in R(Ids \ Alive), wc \in R(WCs) :
          New(i, wc) /\ Add([a |-> "new", id |-> i, wc |-> wc.name, opts |-> defs])
    [] a = "set" -> \E i \in R(Alive), k \in R(Opts) :
          \E v \in R(IF Cardinality(OptVals[k]) > 1 THEN OptVals[k] \ {inst[i].opts[k]} ELSE OptVals[k]) :
          SetOption(i, k, v) /\ \E via \in R(IF k = "parameters" THEN {"value", "got", "own"} ELSE {"value"}) :
            Add([a |-> "set", id |-> i, k |-> k, v |-> v, via |-> via])
    [] a = "default" -> \E k \in R(Opts) : \E v \in R(OptVals[k]) :
          SetDefault(k, v) /\ Add([a |-> "default", k |-> k, v |-> v])
    [] a = "clear" -> \E i \in R(Alive) : ClearCache(i) /\ Add([a |-> "clear", id |-> i])
    [] a = "run" -> \E i \in R(Alive), t \in R(Targets) : Run(i, t)
    [] a = "again" -> \E n \in R({ m \in 1..Len(hist) : hist[m].a = "run" }) : Run(hist[n].id, hist[n].t)
    [] a = "after" -> \E n \in R(Touched) : \E m \in R(Asked(hist[n].id)) : Run(hist[n].id, hist[m].t)
GInit == Init /\ hist = <<>>
GStep == Len(hist) < Depth /\ \E a \in R(Acts) : Do(a[1])
(* one last step, so that exactly one line is printed per behaviour *)
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [a |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
