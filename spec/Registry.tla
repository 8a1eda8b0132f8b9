------------------------------ MODULE Registry ------------------------------
(* Registries of named objects: EFTs, bases, translators, matchers.          *)
(* Each kind has its own ordered map from names to objects; basis objects    *)
(* inherit the sectors of a parent at the moment of their creation.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS EftNames,     \* names of theories
          BasisNames,   \* names of bases
          Layouts,      \* sequences of [s |-> sector, w |-> sequence of coefficients]
          EftSectors,   \* sets of sectors an EFT may define
          Active,       \* kinds of objects created and deleted
          MaxObj,       \* bound on the number of objects ever created
          Pre           \* kind -> sequence of names present from the start

Kinds == {"EFT", "Basis", "Translator", "Matcher"}
Names(k) ==
  CASE k = "EFT" -> { <<e>> : e \in EftNames }
    [] k = "Basis" -> EftNames \X BasisNames
    [] k = "Translator" -> EftNames \X BasisNames \X BasisNames
    [] OTHER -> EftNames \X BasisNames \X EftNames \X BasisNames

VARIABLES reg,    \* kind -> sequence of [name, id]
          obj,    \* sequence of objects [kind, name, data], the id is the index
          resp    \* latest answer
vars == <<reg, obj, resp>>

Init == /\ reg = [k \in Kinds |-> [i \in 1..Len(Pre[k]) |-> [name |-> Pre[k][i], id |-> 0]]]
        /\ obj = <<>>
        /\ resp = "init"

Index(k, n) == { i \in 1..Len(reg[k]) : reg[k][i].name = n }
Has(k, n) == Index(k, n) # {}
Find(k, n) == reg[k][CHOOSE i \in Index(k, n) : TRUE].id

Register(k, n, id) ==
  reg' = [reg EXCEPT ![k] =
    IF Has(k, n) THEN [@ EXCEPT ![CHOOSE i \in Index(k, n) : TRUE] = [name |-> n, id |-> id]]
    ELSE Append(@, [name |-> n, id |-> id])]

Make(k, n, data, own, par) ==     \* own, par: ghosts, used in Inherits only
  /\ Len(obj) < MaxObj
  /\ obj' = Append(obj, [kind |-> k, name |-> n, data |-> data, own |-> own, par |-> par])
  /\ Register(k, n, Len(obj) + 1)
  /\ resp' = "ok"

(* sectors of the child: the parent's, replaced in place, then the new ones *)
InLayout(l, s) == \E i \in 1..Len(l) : l[i].s = s
At(l, s) == l[CHOOSE i \in 1..Len(l) : l[i].s = s]
RECURSIVE Extra(_, _)
Extra(p, c) == IF c = <<>> THEN <<>>
               ELSE (IF InLayout(p, Head(c).s) THEN <<>> ELSE <<Head(c)>>) \o Extra(p, Tail(c))
Merge(p, c) == [i \in 1..Len(p) |-> IF InLayout(c, p[i].s) THEN At(c, p[i].s) ELSE p[i]] \o Extra(p, c)

CreateEFT(e, secs) == Make("EFT", <<e>>, secs, <<>>, 0)
CreateTranslator(n) == Make("Translator", n, {}, <<>>, 0)
CreateMatcher(n) == Make("Matcher", n, {}, <<>>, 0)
CreateBasis(e, b, parent, layout) ==
  IF parent = "-" THEN Make("Basis", <<e, b>>, layout, layout, 0)
  ELSE IF Has("Basis", <<e, parent>>)
  THEN Make("Basis", <<e, b>>, Merge(obj[Find("Basis", <<e, parent>>)].data, layout),
            layout, Find("Basis", <<e, parent>>))
  ELSE resp' = "ValueError" /\ UNCHANGED <<reg, obj>>

Del(k, n) ==
  IF Has(k, n)
  THEN /\ reg' = [reg EXCEPT ![k] = SelectSeq(@, LAMBDA r : r.name # n)]
       /\ resp' = "ok" /\ UNCHANGED obj
  ELSE resp' = "KeyError" /\ UNCHANGED <<reg, obj>>
Clear(k) == reg' = [reg EXCEPT ![k] = <<>>] /\ resp' = "ok" /\ UNCHANGED obj

Next == \/ "EFT" \in Active /\ \E e \in EftNames, s \in EftSectors : CreateEFT(e, s)
        \/ \E e \in EftNames, b \in BasisNames, p \in BasisNames \cup {"-"}, l \in Layouts : CreateBasis(e, b, p, l)
        \/ "Translator" \in Active /\ \E n \in Names("Translator") : CreateTranslator(n)
        \/ "Matcher" \in Active /\ \E n \in Names("Matcher") : CreateMatcher(n)
        \/ \E k \in Active : \E n \in Names(k) : Del(k, n)
        \/ \E k \in Active : Clear(k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* What can be observed *)
Lookup(k, n) == IF Has(k, n) THEN Find(k, n) ELSE -1
KnownBases(e) == [i \in 1..Len(SelectSeq(reg["Basis"], LAMBDA r : r.name[1] = e)) |->
                    SelectSeq(reg["Basis"], LAMBDA r : r.name[1] = e)[i].name[2]]
KnownTranslators(e) == [i \in 1..Len(SelectSeq(reg["Translator"], LAMBDA r : r.name[1] = e)) |->
                    SelectSeq(reg["Translator"], LAMBDA r : r.name[1] = e)[i].name]
TrFrom(e, b) == SelectSeq(KnownTranslators(e), LAMBDA n : n[2] = b)
TrTo(e, b) == SelectSeq(KnownTranslators(e), LAMBDA n : n[3] = b)

RECURSIVE AllWCs(_)
AllWCs(l) == IF l = <<>> THEN <<>> ELSE Head(l).w \o AllWCs(Tail(l))
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Valid(o) ==      \* basis object
  IF ~Has("EFT", <<o.name[1]>>) THEN "ValueError"
  ELSE LET id == Find("EFT", <<o.name[1]>>) IN
    IF \E i \in 1..Len(o.data) : o.data[i].s \notin obj[id].data THEN "ValueError"
    ELSE IF ~Distinct(AllWCs(o.data)) THEN "ValueError" ELSE "ok"
-----------------------------------------------------------------------------
(* Properties *)
Unique == \A k \in Kinds : \A i, j \in 1..Len(reg[k]) : i # j => reg[k][i].name # reg[k][j].name
Typed == \A k \in Kinds : \A i \in 1..Len(reg[k]) : reg[k][i].id # 0 =>
           obj[reg[k][i].id].kind = k /\ obj[reg[k][i].id].name = reg[k][i].name
(* a child has every sector of its parent and its own win; all sectors once *)
SectorsOnce == \A n \in 1..Len(obj) : obj[n].kind = "Basis" =>
                 Distinct([i \in 1..Len(obj[n].data) |-> obj[n].data[i].s])
(* objects never change; one registry at a time is touched *)
ObjectsConstant == [][\A n \in 1..Len(obj) : obj'[n] = obj[n]]_vars
OneKind == [][Cardinality({k \in Kinds : reg'[k] # reg[k]}) <= 1]_vars
LatestWins == [][Len(obj') > Len(obj) =>
   LET o == obj'[Len(obj')] IN
   \E i \in 1..Len(reg'[o.kind]) : reg'[o.kind][i] = [name |-> o.name, id |-> Len(obj')]]_vars
(* inheritance: own sectors as given, all others exactly the parent's *)
Inherits == \A n \in 1..Len(obj) : obj[n].kind = "Basis" =>
   LET d == obj[n].data
       l == obj[n].own
       pd == IF obj[n].par = 0 THEN <<>> ELSE obj[obj[n].par].data IN
     /\ \A i \in 1..Len(l) : At(d, l[i].s) = l[i]
     /\ \A i \in 1..Len(pd) : ~InLayout(l, pd[i].s) => At(d, pd[i].s) = pd[i]
     /\ \A i \in 1..Len(d) : InLayout(l, d[i].s) \/ InLayout(pd, d[i].s)
=============================================================================
