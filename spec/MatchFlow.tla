------------------------------ MODULE MatchFlow -------------------------------
(* From the theory with the full gauge symmetry to the one below the         *)
(* electroweak scale.  An object is a combination of atoms, each matched at  *)
(* a loop order or not yet, in one of several worlds: worlds are related by  *)
(* CP and by exchanging the names of electron and muon.  Its value does not  *)
(* depend on the basis matching started from, on whether it arrived in its   *)
(* basis directly, or on when it was carried to another world.  Matching is  *)
(* linear to first order, and values here are first orders.                  *)
EXTENDS Bases, Integers, FiniteSets, TLC
CONSTANTS Atoms,     \* [name -> SMEFT basis]
          Regs, MaxWord, Orders
VARIABLES obj
None == [eft |-> "none"]
Complete == {"JMS", "Warsaw", "Warsaw up"}
Live == { r \in Regs : obj[r] # None }
Put(r, o) == obj' = [obj EXCEPT ![r] = o]
Push(w, b) == IF b \in Complete \/ (w # <<>> /\ w[Len(w)] = b) THEN w ELSE Append(w, b)
Get(t, x) == IF x \in DOMAIN t THEN t[x] ELSE 0
Add(s, a, t, b) == [x \in DOMAIN s \cup DOMAIN t |-> a * Get(s, x) + b * Get(t, x)]
RECURSIVE SumOver(_, _)
SumOver(t, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN t[x] + SumOver(t, S \ {x})
Map(t, F(_)) == [y \in { F(x) : x \in DOMAIN t } |-> SumOver(t, { x \in DOMAIN t : F(x) = y })]

(* a term: atom, loop order of the matching (-1: not matched), bases with    *)
(* less content it has been through                                          *)
New(r, a) == Put(r, [eft |-> "SMEFT", basis |-> Atoms[a], cp |-> FALSE, lab |-> FALSE, t |-> (<<a, -1, <<>>>>) :> 1])
Translate(q, r, b) ==
  LET x == obj[q]
      F(y) == <<y[1], y[2], Push(y[3], b)>>
  IN /\ <<x.eft, x.basis, b>> \in Translators \/ b = x.basis
     /\ x.eft = "SMEFT" => b \in Complete
     /\ Put(r, [x EXCEPT !.basis = b, !.t = Map(x.t, F)])
Match(q, r, b, o) ==
  LET x == obj[q]
      F(y) == <<y[1], o, Push(<<>>, b)>>
  IN /\ <<x.eft, x.basis, "WET", b>> \in Matchers
     /\ Put(r, [x EXCEPT !.eft = "WET", !.basis = b, !.t = Map(x.t, F)])
(* known for complete bases                                                  *)
CP(q, r) == obj[q].basis \in Complete /\ Put(r, [obj[q] EXCEPT !.cp = ~@])
Lab(q, r) == obj[q].basis \in Complete /\ Put(r, [obj[q] EXCEPT !.lab = ~@])
Lin(p, q, r, a, b) ==
  /\ obj[p].eft = obj[q].eft /\ obj[p].basis = obj[q].basis /\ obj[p].cp = obj[q].cp /\ obj[p].lab = obj[q].lab
  /\ Put(r, [obj[p] EXCEPT !.t = Add(obj[p].t, a, obj[q].t, b)])
Repack(q, r) == Put(r, obj[q])
Coefs == {-2, -1, 1, 3}
Init == obj = [r \in Regs |-> None]
Next ==
  \/ \E r \in Regs, a \in DOMAIN Atoms : New(r, a)
  \/ \E q \in Live, r \in Regs :
       \/ \E b \in BasesOf(obj[q].eft) : Translate(q, r, b)
       \/ \E b \in BasesOf("WET"), o \in Orders : Match(q, r, b, o)
       \/ CP(q, r) \/ Lab(q, r) \/ Repack(q, r)
  \/ \E p, q \in Live, r \in Regs, a, b \in Coefs : Lin(p, q, r, a, b)
Spec == Init /\ [][Next]_obj

(* --- design --------------------------------------------------------------*)
Typed == \A r \in Live : LET x == obj[r] IN
   /\ x.basis \in BasesOf(x.eft)
   /\ \A y \in DOMAIN x.t : /\ y[2] \in Orders \cup {-1}
                            /\ (y[2] = -1) <=> (x.eft = "SMEFT")
                            /\ x.basis \notin Complete => y[3] # <<>> /\ y[3][Len(y[3])] = x.basis
(* what is done to one object commutes with what relates the worlds          *)
StepOn(x, k, b, o) ==
  CASE k = "tr" -> IF <<x.eft, x.basis, b>> \in Translators /\ (x.eft = "SMEFT" => b \in Complete)
                   THEN LET F(y) == <<y[1], y[2], Push(y[3], b)>> IN [x EXCEPT !.basis = b, !.t = Map(x.t, F)] ELSE x
    [] k = "m" -> IF <<x.eft, x.basis, "WET", b>> \in Matchers
                  THEN LET F(y) == <<y[1], o, Push(<<>>, b)>> IN [x EXCEPT !.eft = "WET", !.basis = b, !.t = Map(x.t, F)] ELSE x
Commute == \A r \in Live : \A b \in {"Warsaw", "Warsaw up", "JMS", "flavio", "Bern", "EOS"}, o \in Orders, k \in {"tr", "m"} :
   LET x == obj[r] IN
   /\ StepOn([x EXCEPT !.cp = ~@], k, b, o) = [StepOn(x, k, b, o) EXCEPT !.cp = ~@]
   /\ StepOn([x EXCEPT !.lab = ~@], k, b, o) = [StepOn(x, k, b, o) EXCEPT !.lab = ~@]
(* matching to a basis is matching to JMS and translating                    *)
Direct == \A r \in Live : \A b \in {"Warsaw", "Warsaw up", "JMS", "flavio", "Bern", "EOS"} \ {"JMS"}, o \in Orders :
   LET x == obj[r] IN
   <<x.eft, x.basis, "WET", b>> \in Matchers /\ <<"WET", "JMS", b>> \in Translators
     => StepOn(StepOn(x, "m", "JMS", o), "tr", b, o) = StepOn(x, "m", b, o)
(* and it does not matter from where                                         *)
Origin == \A r \in Live : \A b \in {"Warsaw", "Warsaw up", "JMS", "flavio", "Bern", "EOS"}, c \in Complete, o \in Orders :
   LET x == obj[r] IN
   x.eft = "SMEFT" /\ <<x.eft, x.basis, c>> \in Translators /\ <<x.eft, c, "WET", b>> \in Matchers /\ <<x.eft, x.basis, "WET", b>> \in Matchers
     => StepOn(StepOn(x, "tr", c, o), "m", b, o) = StepOn(x, "m", b, o)
=============================================================================
