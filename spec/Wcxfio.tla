------------------------------- MODULE Wcxfio -------------------------------
(* Serialization of WCxf objects: artefacts are objects or texts, each       *)
(* derived from an original content by dumping, loading, converting; using   *)
(* an object has no effect on its content.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Contents,    \* identifiers of given contents
          Numbers,     \* those that are Wilson coefficients of a known basis
          MaxArt, MaxDerived
VARIABLES art, last
vars == <<art, last>>
Fmts == {"json", "yaml"}
Targets == {"string", "stream", "file"}
Sources == {"string", "stream", "file"}
Init == art = <<>> /\ last = [op |-> "init"]

(* A content is a sequence: a given one, and the calculations done with it. *)
Ops == {"run", "translate", "match"}
AddArt(x, l) == Len(art) < MaxArt /\ art' = Append(art, x) /\ last' = l
New(c) == AddArt([kind |-> "obj", c |-> <<c>>, fmt |-> "-"], [op |-> "new", c |-> c])
(* A calculation returns a new object and leaves its input as it is         *)
Calc(i, f) == art[i].kind = "obj" /\ art[i].c[1] \in Numbers /\ Len(art[i].c) <= MaxDerived /\
  AddArt([kind |-> "obj", c |-> Append(art[i].c, f), fmt |-> "-"], [op |-> "calc", i |-> i, f |-> f])
Dump(i, f, t) == art[i].kind = "obj" /\
  AddArt([kind |-> "text", c |-> art[i].c, fmt |-> f], [op |-> "dump", i |-> i, f |-> f, t |-> t])
Load(i, s) == art[i].kind = "text" /\
  AddArt([kind |-> "obj", c |-> art[i].c, fmt |-> "-"], [op |-> "load", i |-> i, s |-> s])
ToJson_(i) == art[i].kind = "text" /\ art[i].fmt = "yaml" /\
  AddArt([kind |-> "text", c |-> art[i].c, fmt |-> "json"], [op |-> "tojson", i |-> i])
ToYaml(i) == art[i].kind = "text" /\ art[i].fmt = "json" /\
  AddArt([kind |-> "text", c |-> art[i].c, fmt |-> "yaml"], [op |-> "toyaml", i |-> i])
(* requests that are refused *)
BadDump(i) == art[i].kind = "obj" /\ UNCHANGED art /\ last' = [op |-> "baddump", i |-> i]
BadYaml(i) == art[i].kind = "text" /\ art[i].fmt = "yaml" /\ UNCHANGED art /\ last' = [op |-> "badtoyaml", i |-> i]
Use(i) == art[i].kind = "obj" /\ UNCHANGED art /\ last' = [op |-> "use", i |-> i]
Next == \/ \E c \in Contents : New(c)
        \/ \E i \in 1..Len(art) :
             \/ \E f \in Fmts, t \in Targets : Dump(i, f, t)
             \/ \E s \in Sources : Load(i, s)
             \/ \E f \in Ops : Calc(i, f)
             \/ ToJson_(i) \/ ToYaml(i) \/ BadDump(i) \/ BadYaml(i) \/ Use(i)
Spec == Init /\ [][Next]_vars
Constant == [][\A i \in 1..Len(art) : art'[i] = art[i]]_vars
Derived == [][Len(art') > Len(art) /\ last'.op # "new" =>
              art'[Len(art')].c = IF last'.op = "calc" THEN Append(art[last'.i].c, last'.f) ELSE art[last'.i].c]_vars
Typed == \A i \in 1..Len(art) : art[i].c[1] \in Contents /\ Len(art[i].c) <= MaxDerived + 1 /\ (art[i].kind = "text" <=> art[i].fmt \in Fmts)
=============================================================================
