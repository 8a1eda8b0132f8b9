------------------------------ MODULE Smeftsim ------------------------------
(* Conversion of SMEFT coefficients in the Warsaw mass basis to parameter    *)
(* cards of SMEFTsim: histories of conversions by the command (into files)   *)
(* and by the library (into card objects that may be filled again), and, for *)
(* a card as recorded from the code, which coefficient every entry of it has *)
(* to be and whether the card is complete.                                   *)
EXTENDS FlavourTheory, Json, IOUtils
CONSTANTS Contents,  \* [name, basis, flaw]
          Sets, Schemes, Cutoffs, Outputs, Cards, Answers
None == "none"
OK == "ok"

VARIABLES file,      \* output -> what the card in it was made from, or "old"
          card,      \* card object -> [set, made from], or None
          last
vars == <<file, card, last>>
Made(c, set, sch, cut) == [content |-> c.name, set |-> set, scheme |-> sch, cutoff |-> cut]
Init == file = [o \in Outputs |-> [content |-> "old"]] /\ card = [k \in Cards |-> [set |-> None]] /\ last = [op |-> "init"]

(* what the command does with an input and an answer to its question         *)
Asked(c) == c.flaw = None /\ c.basis # "Warsaw mass"
Outcome(c, ans) == CASE c.flaw # None -> "error"
                     [] ~Asked(c) -> "written"
                     [] ans \in {"i", "I"} -> "written"
                     [] ans = "eof" -> "error"
                     [] OTHER -> "refused"
Convert(c, set, sch, cut, o, ans) ==
  LET r == Outcome(c, ans) IN
  /\ file' = IF r = "written" THEN [file EXCEPT ![o] = Made(c, set, sch, cut)] ELSE file
  /\ card' = card
  /\ last' = [op |-> "convert", c |-> c, set |-> set, scheme |-> sch, cutoff |-> cut, o |-> o, ans |-> ans, r |-> r]
NewCard(k, set) == /\ card' = [card EXCEPT ![k] = [set |-> set]]
                   /\ file' = file
                   /\ last' = [op |-> "new", k |-> k, set |-> set]
Fill(k, c, sch, cut) ==
  /\ card[k].set # None /\ c.flaw = None /\ c.basis = "Warsaw mass"
  /\ card' = [card EXCEPT ![k] = Made(c, card[k].set, sch, cut)]
  /\ file' = file
  /\ last' = [op |-> "fill", k |-> k, c |-> c, scheme |-> sch, cutoff |-> cut]

Next == \/ \E c \in Contents, s \in Sets, h \in Schemes, u \in Cutoffs, o \in Outputs, a \in Answers : Convert(c, s, h, u, o, a)
        \/ \E k \in Cards, s \in Sets : NewCard(k, s)
        \/ \E k \in Cards, c \in Contents, h \in Schemes, u \in Cutoffs : Fill(k, c, h, u)
Spec == Init /\ [][Next]_vars
View == <<file, card>>
-----------------------------------------------------------------------------
OnlyTarget == [][\A o \in Outputs : file'[o] # file[o] => last'.op = "convert" /\ last'.o = o /\ last'.r = "written"]_vars
FromValidInput == \A o \in Outputs : file[o].content # "old" => \E c \in Contents : c.name = file[o].content /\ c.flaw = None
NoHistory == [][last'.op = "convert" /\ last'.r = "written" =>
                  file'[last'.o] = Made(last'.c, last'.set, last'.scheme, last'.cutoff)]_vars
-----------------------------------------------------------------------------
(* Recorded cards.  REC: [set |-> sequence of [op, kind, idx]] for the flavoured *)
(* entries; kind is "Abs" or "Ph".                                           *)
Rec == JsonDeserialize(IOEnv.REC)
ClassOf == [op \in UNION { SMEFT[c] : c \in DOMAIN SMEFT } |->
              LET c == CHOOSE c \in DOMAIN SMEFT : op \in SMEFT[c]
              IN IF c = "c41" THEN "41" ELSE SubSeq(c, 2, Len(c))]
Flavoured == { op \in DOMAIN ClassOf : ClassOf[op] \in Classes }
(* operators that SMEFTsim has: no violation of baryon or lepton number      *)
Represented == { op \in Flavoured : op \notin {"duql", "duue", "qque", "llphiphi"} }
Tab == [c \in Classes |-> LET t == Table(c) IN [i \in {e.idx : e \in t} |-> CHOOSE e \in t : e.idx = i]]
Reps(c) == { i \in DOMAIN Tab[c] : Tab[c][i].rep = i /\ ~Tab[c][i].zero }
(* what an entry of a card is                                                *)
Rule(x) == LET e == Tab[ClassOf[x.op]][x.idx]
           IN [op |-> x.op, kind |-> x.kind, idx |-> x.idx, rep |-> e.rep, conj |-> e.conj, sign |-> e.sign, mult |-> e.mult,
               real |-> e.real]
Check(s) ==
  LET E == { Rec[s][i] : i \in DOMAIN Rec[s] }
      U == { x \in E : x.op \notin Represented \/ x.idx \notin DOMAIN Tab[ClassOf[x.op]] }
      rules == { Rule(x) : x \in E \ U }
      Of(op) == { r \in rules : r.op = op }
      (* one modulus; one phase, at the same index, if the coefficient is complex *)
      Complete(R, r, real) ==
        LET A == { x.idx : x \in { y \in R : y.rep = r /\ y.kind = "Abs" } }
            P == { x.idx : x \in { y \in R : y.rep = r /\ y.kind = "Ph" } }
        IN Cardinality(A) = 1 /\ P = (IF real THEN {} ELSE A)
      Incomplete(op) == LET R == Of(op) IN { <<op, r>> : r \in { q \in Reps(ClassOf[op]) : ~Complete(R, q, Tab[ClassOf[op]][q].real) } }
  IN [rules |-> rules, unknown |-> U, incomplete |-> UNION { Incomplete(op) : op \in Represented },
      repeated |-> Len(Rec[s]) - Cardinality(E), n |-> Len(Rec[s])]
(* 2499 - 558 = 1941 parameters of dimension six conserve B; without Higgs   *)
(* and gauge operators they are in the flavoured ones                        *)
Number == Sum([op \in Represented |-> Params(ClassOf[op])], Represented)
ASSUME Number + 15 = 2499
Out == JsonSerialize(IOEnv.OUT, [s \in DOMAIN Rec |-> Check(s)]) /\ TLCGet("distinct") > 0
=============================================================================
