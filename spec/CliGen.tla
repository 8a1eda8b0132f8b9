------------------------------- MODULE CliGen -------------------------------
EXTENDS Cli, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
(* mostly the latest file, so that results are used again                    *)
Pick(x) == IF Ids = {} THEN {} ELSE IF RandomElement(1..2) = 1 THEN {Len(file)} ELSE {RandomElement(Ids)}
In(x) == {RandomElement(Inputs)}
Outp(x) == {RandomElement(Outputs)}
Fm(x) == {RandomElement({"json", "yaml", "json", "yaml", "JSON", "YAML", "Json", "Yaml", "xml"})}
Fm0(x) == {RandomElement({"", "json", "yaml", "YAML", "JSON", "xml"})}
(* bases and theories that can be reached, or any                            *)
Bs(i) == LET S == {t[3] : t \in {u \in Translators : u[1] = file[i].eft /\ u[2] = file[i].basis}} \cup {file[i].basis}
         IN IF RandomElement(1..5) = 1 THEN {RandomElement(AllBases)} ELSE {RandomElement(S)}
Ms(i) == LET S == {<<t[3], t[4]>> : t \in {u \in Matchers : u[1] = file[i].eft /\ u[2] = file[i].basis}}
         IN IF S = {} \/ RandomElement(1..5) = 1 THEN {<<RandomElement(EFTs), RandomElement(AllBases)>>} ELSE {RandomElement(S)}
GStep ==
  /\ Len(hist) < Depth
  /\ \/ \E c \in {RandomElement(Contents)} : New(c)
     \/ \E c \in {RandomElement({x \in Contents : x.k = "wc" /\ x.flaw = None})} : New(c)
     \/ \E c \in One({x \in Contents : x.basis = "Warsaw" /\ x.flaw = None /\ RandomElement(1..2) = 1}) : New(c)
     \/ \E c \in One({x \in Contents : x.basis = "EOS" /\ RandomElement(1..3) = 1}) : New(c)
     \/ \E i \in Pick(last), in \in In(last), out \in Outp(last), fmt \in Fm(last) : Convert(i, fmt, in, out)
     \/ \E i \in Pick(last), in \in In(last), out \in Outp(last), fmt \in Fm0(last) : \E b \in Bs(i) : Translate(i, b, fmt, in, out)
     \/ \E i \in Pick(last), in \in In(last), out \in Outp(last), fmt \in Fm0(last) : \E b \in Bs(i) : Translate(i, b, fmt, in, out)
     \/ \E i \in Pick(last), in \in In(last), out \in Outp(last), fmt \in Fm0(last) : \E m \in Ms(i) : Match(i, m[1], m[2], fmt, in, out)
     \/ \E i \in Pick(last), in \in In(last), out \in Outp(last), fmt \in Fm0(last) : \E m \in Ms(i) : Match(i, m[1], m[2], fmt, in, out)
     \/ \E i \in One({j \in Ids : file[j].basis = "EOS" \/ RandomElement(1..5) = 1}) :
          \E in \in In(last), out \in Outp(last), p \in {RandomElement(Places)} : Eos(i, p, in, out)
     \/ \E i \in One({j \in Ids : file[j].basis = "Warsaw" \/ RandomElement(1..5) = 1}) :
          \E in \in In(last), out \in Outp(last) : Dsix(i, in, out)
     \/ \E i \in One({j \in Ids : file[j].basis = "Warsaw"}) :
          \E in \in In(last), out \in Outp(last) : Dsix(i, in, out)
     \/ \E i \in One({j \in Ids : file[j].k = "dsix"}) :
          \E in \in In(last), out \in Outp(last), s \in {RandomElement(Sms)} : Undsix(i, s, in, out)
     \/ \E i \in One({j \in Ids : file[j].k = "dsix" \/ RandomElement(1..5) = 1}) :
          \E in \in In(last), out \in Outp(last), s \in {RandomElement(Sms)} : Undsix(i, s, in, out)
     \/ \E i \in Pick(last), in \in In(last) : \E t \in {IF RandomElement(1..3) = 1 \/ file[i].k \notin {"wc", "basis", "eft"}
                                                 THEN RandomElement(Types) ELSE file[i].k} : Validate(i, t, in)
     \/ \E i \in Pick(last), in \in In(last) : \E t \in {IF RandomElement(1..3) = 1 \/ file[i].k \notin {"wc", "basis", "eft"}
                                                 THEN RandomElement(Types) ELSE file[i].k} : Validate(i, t, in)
     \/ RandomElement(1..4) = 1 /\ Help
     \/ \E c \in {RandomElement(Cmds)} : RandomElement(1..3) = 1 /\ Missing(c)
  /\ hist' = Append(hist, last')
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [op |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
