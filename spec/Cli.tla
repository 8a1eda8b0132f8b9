-------------------------------- MODULE Cli ---------------------------------
(* The command line tools.  The state is a growing list of files; a command  *)
(* reads one or more of them, by name or from standard input, and either     *)
(* reports success and makes one new file (its result, in a named file or on *)
(* standard output) or fails and makes none.  Which commands succeed, and    *)
(* what their result is (theory, basis, form), follows from the translators  *)
(* and matchers of module Bases and from the validity of the files.          *)
EXTENDS Bases, Integers, FiniteSets, TLC

CONSTANTS Contents,   \* files there may be at the beginning
          MaxFiles
VARIABLES file, last
vars == <<file, last>>

None == "none"
(* k: kind of file; flaw: what is wrong with it; form: JSON text (which is   *)
(* YAML text, too), YAML text only, or neither                               *)
F(k, e, b, flaw, form) == [k |-> k, eft |-> e, basis |-> b, flaw |-> flaw, form |-> form]
Text(form) == form \in {"json", "yaml"}

IsWC(f) == f.k = "wc" /\ f.flaw \in {None, "lfnu", "computed"}
(* TRUE, FALSE, or nothing said                                              *)
Valid(f, t) ==
  CASE t = "wc" -> IF IsWC(f) THEN "yes" ELSE "no"
    [] t = "basis" -> IF f.k = "basis" /\ f.flaw = None THEN "yes" ELSE "no"
    [] t = "eft" -> IF f.k = "eft" THEN "yes" ELSE IF f.k = "basis" THEN "unspecified" ELSE "no"
    [] OTHER -> "no"

Lower(fmt) == IF fmt \in {"json", "JSON", "Json"} THEN "json"
              ELSE IF fmt \in {"yaml", "YAML", "Yaml"} THEN "yaml" ELSE "unknown"
Fmts == {"json", "JSON", "Json", "yaml", "YAML", "Yaml", "xml"}

(* outcome of each command for a file: "yes" with a result, "no", or nothing *)
(* said (broken coefficient files)                                           *)
ConvertOk(f, fmt) ==
  CASE f.k = "dsix" -> "unspecified"
    [] Lower(fmt) = "json" -> IF Text(f.form) THEN "yes" ELSE "no"
    [] Lower(fmt) = "yaml" -> IF f.form = "json" THEN "yes" ELSE "no"
    [] OTHER -> "unspecified"
Loads(f) == IF f.k = "wc" /\ f.flaw \in {None, "lfnu", "computed"} THEN "yes"
            ELSE IF f.k = "wc" /\ f.flaw \notin {"noscale"} THEN "unspecified" ELSE "no"
TranslateOk(f, b, fmt) ==
  IF Loads(f) # "yes" THEN Loads(f)
  ELSE IF (b = f.basis \/ <<f.eft, f.basis, b>> \in Translators) /\ Lower(fmt) # "unknown" THEN "yes" ELSE "no"
MatchOk(f, e, b, fmt) ==
  IF Loads(f) # "yes" THEN Loads(f)
  ELSE IF ((f.eft = e /\ f.basis = b) \/ <<f.eft, f.basis, e, b>> \in Matchers) /\ Lower(fmt) # "unknown" THEN "yes" ELSE "no"
EosOk(f, place) ==
  IF place \in {"both", "nodir"} \/ ~IsWC(f) THEN "no"
  ELSE IF f.basis # "EOS" \/ f.flaw = "computed" THEN "unspecified"
  ELSE IF f.flaw = "lfnu" THEN "no" ELSE "yes"
DsixOk(f) == IF IsWC(f) /\ f.eft = "SMEFT" /\ f.basis = "Warsaw" THEN "yes" ELSE "no"
UndsixOk(f) == IF f.k = "dsix" THEN "yes" ELSE "no"

Inputs == {"path", "dash", "absent"}
Outputs == {"stdout", "dash", "file"}

Init == file = <<>> /\ last = [op |-> "start"]

New(c) == /\ Len(file) < MaxFiles
          /\ file' = Append(file, c) /\ last' = [op |-> "new", c |-> c]
(* a command on file i                                                       *)
Run(op, arg, i, ok, result, in, out) ==
  /\ ok # "unspecified"
  /\ ok = "yes" => Len(file) < MaxFiles
  /\ file' = IF ok = "yes" THEN Append(file, result) ELSE file
  /\ last' = [op |-> op, arg |-> arg, i |-> i, ok |-> ok, result |-> IF ok = "yes" THEN result ELSE [k |-> None],
              in |-> in, out |-> out]

Convert(i, fmt, in, out) ==
  Run("convert", <<fmt>>, i, ConvertOk(file[i], fmt), [file[i] EXCEPT !.form = Lower(fmt)], in, out)
(* the format may be left out: JSON                                          *)
Form(fmt) == IF fmt = "" THEN "json" ELSE fmt
(* coefficients as given, or computed                                        *)
Flaw(f, e, b) == IF f.eft = e /\ f.basis = b THEN f.flaw ELSE "computed"
Translate(i, b, fmt, in, out) ==
  Run("translate", <<b, fmt>>, i, TranslateOk(file[i], b, Form(fmt)),
      F("wc", file[i].eft, b, Flaw(file[i], file[i].eft, b), Lower(Form(fmt))), in, out)
Match(i, e, b, fmt, in, out) ==
  Run("match", <<e, b, fmt>>, i, MatchOk(file[i], e, b, Form(fmt)),
      F("wc", e, b, Flaw(file[i], e, b), Lower(Form(fmt))), in, out)
Eos(i, place, in, out) ==
  Run("eos", <<place>>, i, EosOk(file[i], place), F("eos", None, None, None, "yaml"), in,
      IF place \in {"home", "nodir"} THEN "stdout" ELSE IF place = "both" THEN "file" ELSE out)
Dsix(i, in, out) == Run("dsix", <<>>, i, DsixOk(file[i]), F("dsix", "SMEFT", "Warsaw", None, "text"), in, out)
Undsix(i, sm, in, out) ==
  Run("undsix", <<sm>>, i, IF sm = "nosm" THEN "no" ELSE UndsixOk(file[i]),
      F("wc", "SMEFT", "Warsaw", None, "yaml"), in, out)
(* validation makes no file; its report is the result                        *)
Validate(i, t, in) ==
  /\ Valid(file[i], t) # "unspecified"
  /\ file' = file
  /\ last' = [op |-> "validate", arg |-> <<t>>, i |-> i, ok |-> Valid(file[i], t), result |-> [k |-> None],
              in |-> in, out |-> "stdout"]
(* no command, or no such file                                               *)
Help == /\ file' = file
        /\ last' = [op |-> "help", arg |-> <<>>, i |-> 0, ok |-> "yes", result |-> [k |-> None], in |-> "absent", out |-> "stdout"]
Missing(cmd) == /\ file' = file
                /\ last' = [op |-> "missing", arg |-> <<cmd>>, i |-> 0, ok |-> "no", result |-> [k |-> None],
                            in |-> "path", out |-> "stdout"]

Cmds == {"convert", "translate", "match", "validate", "eos", "dsix", "undsix"}
Types == {"wc", "basis", "eft", "WCs", "coefficients"}
Places == {"plain", "home", "both", "nodir"}
Sms == {"sm", "split", "nosm"}
AllBases == UNION {BasesOf(e) : e \in EFTs} \cup {"nowhere"}
Ids == DOMAIN file

Next == \/ \E c \in Contents : New(c)
        \/ \E i \in Ids, in \in Inputs, out \in Outputs :
             \/ \E fmt \in Fmts : Convert(i, fmt, in, out)
             \/ \E b \in AllBases, fmt \in Fmts \cup {""} : Translate(i, b, fmt, in, out)
             \/ \E e \in EFTs, b \in AllBases, fmt \in Fmts \cup {""} : Match(i, e, b, fmt, in, out)
             \/ \E p \in Places : Eos(i, p, in, out)
             \/ Dsix(i, in, out)
             \/ \E s \in Sms : Undsix(i, s, in, out)
        \/ \E i \in Ids, t \in Types, in \in Inputs : Validate(i, t, in)
        \/ Help \/ \E c \in Cmds : Missing(c)
Spec == Init /\ [][Next]_vars

(* what holds of all this                                                    *)
OnlyGrows == [][/\ Len(file') \in {Len(file), Len(file) + 1}
                /\ SubSeq(file', 1, Len(file)) = file]_vars
FailureMakesNothing == [][last'.op \notin {"new"} /\ last'.ok = "no" => file' = file]_vars
(* every result of a calculation is a coefficient file that validates        *)
ResultsValid ==
  [][last'.op \in {"translate", "match", "undsix"} /\ last'.ok = "yes"
       => LET f == file'[Len(file')]
          IN Valid(f, "wc") = "yes" /\ f.basis \in BasesOf(f.eft) /\ f = last'.result]_vars
(* whatever validates can be converted both ways, and back                   *)
ConvertBack ==
  \A i \in Ids : \A t \in {"wc", "basis", "eft"} :
     Valid(file[i], t) = "yes"
       => /\ ConvertOk(file[i], "json") = "yes"
          /\ ConvertOk([file[i] EXCEPT !.form = "json"], "yaml") = "yes"
          /\ Valid([file[i] EXCEPT !.form = "yaml"], t) = "yes"
(* theories only go down, except that files from elsewhere are new           *)
Downwards == [][last'.op \in {"translate", "match"} /\ last'.ok = "yes"
                  => Rank(last'.result.eft) >= Rank(file[last'.i].eft)]_vars
View == file
=============================================================================
