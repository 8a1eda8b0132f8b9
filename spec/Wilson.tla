------------------------------- MODULE Wilson -------------------------------
(* The Wilson class: options, instances, the result cache, and match_run.    *)
(*                                                                           *)
(* Values of coefficients are symbolic.  What match_run must return is the   *)
(* *plan*: the sequence of public operations (translate, SMEFT run, match,   *)
(* WET run) to be applied to the input, a function of the input, the current *)
(* options and the request only (operator Plan below).  What the class does  *)
(* is the state machine with the cache (action MatchRun).  The invariant     *)
(* Transparent says that the two agree, for every history.                   *)
EXTENDS Bases, Integers, FiniteSets, TLC

CONSTANTS Ids,         \* instance names
          OptVals,     \* option name -> set of (valid) values, all strings
          Defaults0,   \* option name -> value
          WCs,         \* possible inputs, records [name, eft, basis, scale]
          Targets,     \* possible requests, records [eft, basis, scale, sectors]
          UseDefaults  \* whether set_default_option occurs

Opts == DOMAIN Defaults0

VARIABLES defs,   \* current class defaults
          inst,   \* Id -> [wc, opts], or [wc |-> NoWC, ...] if not created
          cache,  \* Id -> (key -> steps)
          resp    \* the latest answer
vars == <<defs, inst, cache, resp>>

NoWC == [name |-> "-", eft |-> "-", basis |-> "-", scale |-> "-"]

-----------------------------------------------------------------------------
(* Specification of match_run *)
Fail == [ok |-> FALSE, steps |-> <<>>]
Ok(s) == [ok |-> TRUE, steps |-> s]
Then(p, q) == IF p.ok /\ q.ok THEN Ok(p.steps \o q.steps) ELSE Fail

Tr(eft, from, to, sec, o) ==
  IF from = to THEN Ok(<<>>)
  ELSE IF <<eft, from, to>> \in Translators
       THEN Ok(<< [op |-> "translate", to |-> to, par |-> o.parameters,
                   sectors |-> IF eft = "SMEFT" THEN "all" ELSE sec] >>)  \* sectors restrict WET only
       ELSE Fail
(* what is left of coefficients that are not run: all other sectors discarded *)
Restr(eft, sec) ==
  IF sec = "all" \/ eft = "SMEFT" THEN Ok(<<>>) ELSE Ok(<< [op |-> "restrict", sectors |-> sec] >>)
Ma(eft, from, eft2, to, o) ==
  IF <<eft, from, eft2, to>> \in Matchers
  THEN Ok(<< [op |-> "match", eft |-> eft2, to |-> to, par |-> o.parameters,
              loop |-> o.smeft_matching_order] >>)
  ELSE Fail
Sm(scale, o) == Ok(<< [op |-> "smeft", scale |-> scale, acc |-> o.smeft_accuracy] >>)
Wr(scale, sec, o) == Ok(<< [op |-> "wetrun", scale |-> scale, sectors |-> sec,
                            qed |-> o.qed_order, qcd |-> o.qcd_order, par |-> o.parameters] >>)

(* SMEFT input at the matching scale, as WET coefficients in the JMS basis *)
ToWET(wc, o) ==
  Then(Tr("SMEFT", wc.basis, "Warsaw", "all", o),
       Then(IF wc.scale = o.smeft_matchingscale THEN Ok(<<>>) ELSE Sm(o.smeft_matchingscale, o),
            Ma("SMEFT", "Warsaw", "WET", "JMS", o)))

(* from JMS coefficients of theory e1, run and cross thresholds down to e2 *)
RECURSIVE Down(_, _, _, _)
Down(e1, e2, t, o) ==
  IF e1 = e2 THEN Then(Wr(t.scale, t.sectors, o), Tr(e2, "JMS", t.basis, t.sectors, o))
  ELSE IF e1 = "WET" THEN Then(Wr(o.mb_matchingscale, t.sectors, o),
                               Then(Ma("WET", "JMS", "WET-4", "JMS", o), Down("WET-4", e2, t, o)))
  ELSE Then(Wr(o.mc_matchingscale, t.sectors, o),
            Then(Ma("WET-4", "JMS", "WET-3", "JMS", o), Down("WET-3", e2, t, o)))

Plan(wc, o, t) ==
  IF wc.eft = t.eft /\ wc.scale = t.scale
  THEN Then(Tr(wc.eft, wc.basis, t.basis, t.sectors, o), Restr(t.eft, t.sectors))
  ELSE IF Rank(t.eft) > 3 \/ Rank(wc.eft) > 3 \/ Rank(wc.eft) > Rank(t.eft) THEN Fail
  ELSE IF t.eft = "SMEFT"
  THEN Then(Tr("SMEFT", wc.basis, "Warsaw", t.sectors, o),
            Then(Sm(t.scale, o), Tr("SMEFT", "Warsaw", t.basis, "all", o)))
  ELSE IF wc.eft = "SMEFT" THEN Then(ToWET(wc, o), Down("WET", t.eft, t, o))
  ELSE Then(Tr(wc.eft, wc.basis, "JMS", t.sectors, o), Down(wc.eft, t.eft, t, o))

(* Two plans mean the same if they differ by runs of zero length only. *)
RECURSIVE Norm(_, _)
Norm(s, sc) ==   \* sc: current scale
  IF s = <<>> THEN <<>>
  ELSE LET h == Head(s) IN
       IF h.op = "wetrun" /\ h.scale = sc /\ h.sectors = "all" THEN Norm(Tail(s), sc)
       ELSE <<h>> \o Norm(Tail(s), IF h.op \in {"wetrun", "smeft"} THEN h.scale ELSE sc)

-----------------------------------------------------------------------------
(* The state machine, structured like the implementation *)
Key(t) == <<t.eft, t.scale, t.basis, t.sectors>>
Get(c, k) == IF k \in DOMAIN c THEN Ok(c[k]) ELSE Fail
Put(c, k, s) == (k :> s) @@ c

Init == /\ defs = Defaults0
        /\ inst = [i \in Ids |-> [wc |-> NoWC, opts |-> Defaults0]]
        /\ cache = [i \in Ids |-> <<>>]
        /\ resp = [kind |-> "init"]

New(i, wc) ==
  /\ inst[i].wc = NoWC
  /\ inst' = [inst EXCEPT ![i] = [wc |-> wc, opts |-> defs]]
  /\ cache' = [cache EXCEPT ![i] = <<>>]
  /\ resp' = [kind |-> "new", id |-> i]
  /\ UNCHANGED defs

(* whether v is a value of its own, the changed dictionary returned by        *)
(* get_option, or one set before and changed since, makes no difference       *)
SetOption(i, k, v) ==
  /\ inst[i].wc # NoWC
  /\ inst' = [inst EXCEPT ![i].opts[k] = v]
  /\ cache' = [cache EXCEPT ![i] = <<>>]
  /\ resp' = [kind |-> "set", id |-> i]
  /\ UNCHANGED defs

SetDefault(k, v) ==
  /\ defs' = [defs EXCEPT ![k] = v]
  /\ resp' = [kind |-> "default"]
  /\ UNCHANGED <<inst, cache>>

ClearCache(i) ==
  /\ inst[i].wc # NoWC
  /\ cache' = [cache EXCEPT ![i] = <<>>]
  /\ resp' = [kind |-> "clear", id |-> i]
  /\ UNCHANGED <<defs, inst>>

Answer(i, t, r, c) ==
  /\ resp' = [kind |-> "result", id |-> i, t |-> t, ok |-> r.ok, steps |-> r.steps]
  /\ cache' = [cache EXCEPT ![i] = c]
  /\ UNCHANGED <<defs, inst>>

MatchRun(i, t) ==
  LET wc == inst[i].wc
      o == inst[i].opts
      c == cache[i]
      hit == Get(c, Key(t))
      ewkey == <<"WET", o.smeft_matchingscale, "JMS", "all">>
  IN
  /\ wc # NoWC
  /\ IF hit.ok THEN Answer(i, t, hit, c)
     ELSE IF wc.eft = t.eft /\ wc.scale = t.scale /\ wc.basis = t.basis /\ t.sectors = "all"
     THEN Answer(i, t, Ok(<<>>), c)
     ELSE IF wc.eft = t.eft /\ wc.scale = t.scale
     THEN LET r == Then(Tr(wc.eft, wc.basis, t.basis, t.sectors, o), Restr(t.eft, t.sectors)) IN
          Answer(i, t, r, IF r.ok THEN Put(c, Key(t), r.steps) ELSE c)
     ELSE IF wc.eft = "SMEFT" /\ t.eft = "SMEFT"
     THEN LET r == Plan(wc, o, t) IN
          Answer(i, t, r, IF r.ok THEN Put(c, <<t.eft, t.scale, t.basis, "all">>, r.steps) ELSE c)
     ELSE IF wc.eft = "SMEFT"
     THEN LET ew == IF Get(c, ewkey).ok THEN Get(c, ewkey) ELSE ToWET(wc, o)
              c1 == IF ew.ok THEN Put(c, ewkey, ew.steps) ELSE c
              r == IF Rank(t.eft) \in 1..3 THEN Then(ew, Down("WET", t.eft, t, o)) ELSE Fail
          IN Answer(i, t, r, IF r.ok THEN Put(c1, Key(t), r.steps) ELSE c1)
     ELSE LET r == Plan(wc, o, t) IN
          Answer(i, t, r, IF r.ok THEN Put(c, Key(t), r.steps) ELSE c)

Next == \/ \E i \in Ids, wc \in WCs : New(i, wc)
        \/ \E i \in Ids, k \in Opts : \E v \in OptVals[k] : SetOption(i, k, v)
        \/ UseDefaults /\ \E k \in Opts : \E v \in OptVals[k] : SetDefault(k, v)
        \/ \E i \in Ids : ClearCache(i)
        \/ \E i \in Ids, t \in Targets : MatchRun(i, t)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Properties *)
Same(wc, a, b) == Norm(a, wc.scale) = Norm(b, wc.scale)

Transparent ==   \* C01: every answer is what a fresh instance would give
  resp.kind = "result" =>
    LET p == Plan(inst[resp.id].wc, inst[resp.id].opts, resp.t) IN
      /\ resp.ok = p.ok
      /\ resp.ok => Same(inst[resp.id].wc, resp.steps, p.steps)

CacheCoherent ==  \* the inductive reason for it
  \A i \in Ids : \A k \in DOMAIN cache[i] :
    LET t == [eft |-> k[1], scale |-> k[2], basis |-> k[3], sectors |-> k[4]]
        p == Plan(inst[i].wc, inst[i].opts, t)
    IN p.ok /\ Same(inst[i].wc, cache[i][k], p.steps)

(* C03: an action on one instance changes neither the others nor the defaults *)
Isolated == [][/\ \A i \in Ids : inst'[i] # inst[i] => resp'.kind \in {"new", "set"} /\ resp'.id = i
               /\ defs' # defs => resp'.kind = "default"
               /\ resp'.kind = "result" => UNCHANGED <<inst, defs>>]_vars
(* C03: a new instance starts from the defaults of that moment *)
FreshDefaults == [][\A i \in Ids : inst[i].wc = NoWC /\ inst'[i].wc # NoWC => inst'[i].opts = defs]_vars
(* the plan is well typed: it starts from the input and ends at the target *)
RECURSIVE EndOf(_, _)
EndOf(s, x) ==
  IF s = <<>> THEN x
  ELSE LET h == Head(s) IN
       EndOf(Tail(s),
         CASE h.op = "restrict" -> x
           [] h.op = "translate" -> [x EXCEPT !.basis = h.to]
           [] h.op = "smeft" -> [x EXCEPT !.scale = h.scale]
           [] h.op = "wetrun" -> [x EXCEPT !.scale = h.scale]
           [] h.op = "match" -> [x EXCEPT !.basis = h.to, !.eft = h.eft])
PlanTyped ==
  \A wc \in WCs, t \in Targets :
    LET p == Plan(wc, defs, t)
        e == EndOf(p.steps, [eft |-> wc.eft, basis |-> wc.basis, scale |-> wc.scale])
    IN p.ok => e.eft = t.eft /\ e.basis = t.basis /\ e.scale = t.scale
=============================================================================
