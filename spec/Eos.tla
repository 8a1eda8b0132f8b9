-------------------------------- MODULE Eos ---------------------------------
(* EOS parameter names and the coefficients they take their new-physics part *)
(* from.  A parameter name is [part, lep, q]: part "Re", "Im" or "plain",    *)
(* lep "lnu" for lepton-universal charged currents, q the rest of the name.  *)
(* A coefficient name is [lep, q] with lep "none", "enue" or "munumu".       *)
(* Values are pairs of tokens; an absent coefficient is "absent".            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Values      \* set of pairs <<re, im>>, <<"0", "0">> among them
Zero == <<"0", "0">>
Absent == <<"absent">>
V == Values \cup {Absent}

Fail == [ok |-> FALSE, v |-> "-"]
Ok(t) == [ok |-> TRUE, v |-> t]
Num(v) == IF v = Absent THEN Zero ELSE v
Pick(part, v) == IF part = "Im" THEN Num(v)[2] ELSE Num(v)[1]
(* own: coefficient with the parameter's own name; e, m: electron and muon   *)
NP(part, lep, own, e, m) ==
  IF lep = "none" THEN Ok(Pick(part, own))
  ELSE IF e = Absent /\ m = Absent THEN Ok("0")
  ELSE IF Num(e) # Num(m) THEN Fail
  ELSE Ok(Pick(part, e))

Cases == { [part |-> p, lep |-> l, own |-> o, e |-> e, m |-> m] :
             p \in {"Re", "Im", "plain"}, l \in {"none", "lnu"}, o \in V, e \in V, m \in V }
InDomain(c) == /\ c.lep = "none" => c.e = Absent /\ c.m = Absent
               /\ c.lep = "lnu" => c.part # "plain" /\ c.own = Absent
Domain == { c \in Cases : InDomain(c) }
Result(c) == NP(c.part, c.lep, c.own, c.e, c.m)

(* properties of the definition *)
AbsentMeansZero == \A c \in Domain : c.own = Absent /\ c.e = Absent /\ c.m = Absent => Result(c) = Ok("0")
LikeZero == \A c \in Domain : Result(c) = NP(c.part, c.lep, Num(c.own), Num(c.e), Num(c.m))
Universal == \A c \in Domain : c.lep = "lnu" => (Result(c).ok <=> Num(c.e) = Num(c.m))
ASSUME AbsentMeansZero /\ LikeZero /\ Universal

(* which files count: name ends in .yaml and metadata says so *)
Files == { [ext |-> x, meta |-> m] : x \in {".yaml", ".yml", ".yaml~", ".txt"},
             m \in {"none", "true", "false", "noflag", "null"} }
Relevant(f) == f.ext = ".yaml" /\ f.meta = "true"

VARIABLE done
Init == done = FALSE
Table == [cases |-> [n \in 1..Cardinality(Domain) |->
                       LET c == SetToSeq(Domain)[n] IN [c |-> c, r |-> Result(c)]],
          files |-> [n \in 1..Cardinality(Files) |->
                       LET f == SetToSeq(Files)[n] IN [f |-> f, r |-> Relevant(f)]]]
Next == ~done /\ done' = TRUE /\ JsonSerialize(IOEnv.OUT, Table)
Spec == Init /\ [][Next]_done
=============================================================================
