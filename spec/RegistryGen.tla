---------------------------- MODULE RegistryGen -----------------------------
(* Histories of the registries with the complete observation after each step *)
EXTENDS Registry, Json
CONSTANTS Depth, Focus   \* Focus: "maps" or "bases"
VARIABLE hist
ObsMaps == [maps |-> [k \in Kinds |-> [i \in 1..Len(reg[k]) |-> reg[k][i]]],
            bases |-> [e \in EftNames |-> KnownBases(e)],
            trans |-> [e \in EftNames |-> KnownTranslators(e)],
            ft |-> { <<e, b, TrFrom(e, b), TrTo(e, b)>> : e \in EftNames, b \in BasisNames }]
ObsBases == { [id |-> n, data |-> obj[n].data, all |-> AllWCs(obj[n].data), valid |-> Valid(obj[n])] :
                n \in { m \in 1..Len(obj) : obj[m].kind = "Basis" } }
Add(e) == hist' = Append(hist, [act |-> e, resp |-> resp',
                                maps |-> ObsMaps', bases |-> IF Focus = "bases" THEN ObsBases' ELSE {}])
GInit == Init /\ hist = <<>>
Pick(S) == RandomElement(S)      \* one random choice: keeps the generator cheap
Some(S) == IF S = {} THEN {} ELSE {Pick(S)}
Bound(k) == { reg[k][i].name : i \in 1..Len(reg[k]) }
GStep ==
  /\ Len(hist) < Depth
  /\ \/ \E e \in Some(EftNames), s \in Some(EftSectors) :
           CreateEFT(e, s) /\ Add([a |-> "EFT", n |-> <<e>>, s |-> s])
     \/ \E e \in Some(EftNames), b \in Some(BasisNames), p \in Some(BasisNames \cup {"-"}), l \in Some(Layouts) :
           CreateBasis(e, b, p, l) /\ Add([a |-> "Basis", n |-> <<e, b>>, p |-> p, l |-> l])
     \/ \E x \in Some(Bound("Basis") \ {<<"WET", "JMS">>}), b \in Some(BasisNames), l \in Some(Layouts) :
           CreateBasis(x[1], b, x[2], l) /\ Add([a |-> "Basis", n |-> <<x[1], b>>, p |-> x[2], l |-> l])
     \/ Focus = "maps" /\ \E n \in Some(Names("Translator")) : CreateTranslator(n) /\ Add([a |-> "Translator", n |-> n])
     \/ Focus = "maps" /\ \E n \in Some(Names("Matcher")) : CreateMatcher(n) /\ Add([a |-> "Matcher", n |-> n])
     \/ \E k \in Some({"EFT", "Basis", "Translator", "Matcher"}) : (Focus = "maps" \/ k \in {"EFT", "Basis"}) /\
           \E n \in Some(Bound(k)) : Del(k, n) /\ Add([a |-> "del", k |-> k, n |-> n])
     \/ Focus = "maps" /\ \E k \in Some(Kinds) : \E n \in Some(Names(k)) : ~Has(k, n) /\ Del(k, n) /\ Add([a |-> "del", k |-> k, n |-> n])
     \/ Focus = "maps" /\ Len(hist) % 4 = 3 /\ \E k \in Some(Kinds) : Clear(k) /\ Add([a |-> "clear", k |-> k])
(* one last step, so that exactly one line is printed per behaviour *)
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [a |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
