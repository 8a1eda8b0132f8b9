------------------------------- MODULE Restrict ------------------------------
(* Calculations restricted to sectors.  Sectors are blocks: translation,     *)
(* running and the crossing of flavour thresholds act within each sector     *)
(* separately; only running of SMEFT and matching it onto WET connect them.  *)
(* So a restriction at any place of a calculation is one of its result.      *)
EXTENDS Bases, Integers, FiniteSets, TLC
CONSTANTS Atoms,       \* name -> [eft, basis]
          SectorsOf,   \* [eft -> set of sectors], with - left out of the names
          NScales      \* scales of each theory, numbered downwards
VARIABLES at,          \* the object: [eft, basis, scale]
          word,        \* the calculation without restrictions
          val          \* sector -> what has been done to it
Fld(e) == CASE e = "WET-4" -> "WET4" [] e = "WET-3" -> "WET3" [] OTHER -> e
Secs(e) == SectorsOf[Fld(e)]
All == {"all"}
In(s, S) == S = All \/ s \in S
Theory == {"SMEFT", "WET", "WET-4", "WET-3"}

(* a step that acts on every sector separately                               *)
Block(op, to, S) ==
  /\ at' = to
  /\ word' = Append(word, op)
  /\ val' = [s \in { x \in DOMAIN val : x \in Secs(to.eft) /\ In(x, S) } |-> Append(val[s], op)]
Translate(b, S) ==
  /\ <<at.eft, at.basis, b>> \in Translators
  /\ Block([k |-> "tr", b |-> b], [at EXCEPT !.basis = b], S)
(* running of SMEFT connects its sectors through the parameters of the SM    *)
Complete == \A s \in Secs("SMEFT") : s \in DOMAIN val
Runnable == at.basis = "JMS" \/ at.basis = "Warsaw"
Run(n, S) ==
  /\ Runnable /\ n \in 1..NScales /\ n # at.scale
  /\ at.eft = "SMEFT" => (S = All /\ Complete)
  /\ Block([k |-> "run", n |-> n], [at EXCEPT !.scale = n], S)
Down(e) ==
  /\ at.eft \in {"WET", "WET-4"} /\ <<at.eft, at.basis, e, at.basis>> \in Matchers
  \* the scales of two theories are different ladders: cross at the lowest
  /\ at.scale = NScales
  /\ Block([k |-> "down", e |-> e], [at EXCEPT !.eft = e, !.scale = 1], All)
(* SMEFT onto WET: all sectors of the result depend on all of the source     *)
Match(b) ==
  /\ at.eft = "SMEFT" /\ <<"SMEFT", at.basis, "WET", b>> \in Matchers /\ at.scale = NScales /\ Complete
  /\ at' = [eft |-> "WET", basis |-> b, scale |-> 1]
  /\ word' = Append(word, [k |-> "match", b |-> b])
  /\ val' = [s \in Secs("WET") |-> word']
(* a request to class Wilson: all of that at once                            *)
Request(e, b, n, S) ==
  /\ e \in Theory /\ Rank(e) >= Rank(at.eft) /\ b \in BasesOf(e) /\ n \in 1..NScales
  /\ <<e, "JMS", b>> \in Translators \/ <<e, "Warsaw", b>> \in Translators \/ b \in {"JMS", "Warsaw"}
  /\ (e = at.eft /\ n = at.scale) => (b = at.basis \/ <<e, at.basis, b>> \in Translators)
  /\ at.eft = "SMEFT" => (Complete /\ (e = "SMEFT" => S = All))
  /\ \/ <<at.eft, at.basis, "JMS">> \in Translators \/ <<at.eft, at.basis, "Warsaw">> \in Translators \/ at.basis \in {"JMS", "Warsaw"}
  /\ LET op == [k |-> "request", e |-> e, b |-> b, n |-> n]
         to == [eft |-> e, basis |-> b, scale |-> n]
     IN IF at.eft = "SMEFT" /\ e # "SMEFT"
        THEN /\ at' = to
             /\ word' = Append(word, op)
             /\ val' = [s \in { x \in Secs(e) : In(x, S) } |-> word']
        ELSE Block(op, to, S)
Init == /\ \E a \in DOMAIN Atoms : at = [eft |-> Atoms[a].eft, basis |-> Atoms[a].basis, scale |-> 1] /\ word = << [k |-> "new", a |-> a] >>
        /\ val = [s \in Secs(at.eft) |-> word]
Subsets(e) == ((SUBSET Secs(e)) \ {{}}) \cup {All}
Next == \/ \E b \in BasesOf(at.eft), S \in Subsets(at.eft) : Translate(b, S)
        \/ \E n \in 1..NScales, S \in Subsets(at.eft) : Run(n, S)
        \/ \E e \in Theory : Down(e)
        \/ \E b \in BasesOf("WET") : Match(b)
        \/ \E e \in Theory : \E b \in BasesOf(e), n \in 1..NScales, S \in Subsets(e) : Request(e, b, n, S)
Spec == Init /\ [][Next]_<<at, word, val>>

(* every sector still there has the value of the unrestricted calculation    *)
Exact == \A s \in DOMAIN val : val[s] = word
(* sectors only disappear, unless SMEFT has just been left                   *)
Shrinks == [][at'.eft = at.eft => DOMAIN val' \subseteq DOMAIN val]_<<at, word, val>>
Known == DOMAIN val \subseteq Secs(at.eft)
=============================================================================
