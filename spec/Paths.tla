-------------------------------- MODULE Paths --------------------------------
(* Sequences of basis translations and threshold matchings as paths through  *)
(* one graph.  Every basis describes a part of what the most general basis   *)
(* of its theory (the hub) describes; passing through a basis projects on    *)
(* that part.  An object's value is therefore given by where it started, the *)
(* parts it has been projected on, in order, and where it is now: not by the *)
(* edges it used.  Restriction to sectors and removal of heavy flavours are  *)
(* projections that commute with everything.                                 *)
EXTENDS Bases, Integers, FiniteSets, TLC
CONSTANTS Atoms,     \* [name -> [eft, basis]]
          SecSets,   \* [name -> set of sectors], for restrictions
          Regs, MaxWord
VARIABLES obj
None == [eft |-> "none"]
Hub(e) == IF e = "SMEFT" THEN "Warsaw" ELSE "JMS"
(* bases with the same content as the hub                                   *)
Complete == {"JMS", "Warsaw", "Warsaw up", "Higgs-Warsaw up"}
Lower(e) == CASE e = "WET" -> "WET-4" [] e = "WET-4" -> "WET-3" [] e = "WET-3" -> "WET-2" [] OTHER -> "none"

Last(w) == w[Len(w)]
Push(w, b) == IF b \in Complete \/ (w # <<>> /\ Last(w) = b) THEN w ELSE Append(w, b)
Get(t, x) == IF x \in DOMAIN t THEN t[x] ELSE 0
(* terms that cancel stay, with coefficient 0                               *)
Add(s, a, t, b) == [x \in DOMAIN s \cup DOMAIN t |-> a * Get(s, x) + b * Get(t, x)]
RECURSIVE SumOver(_, _)
SumOver(t, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN t[x] + SumOver(t, S \ {x})
Map(t, F(_)) == [y \in { F(x) : x \in DOMAIN t } |-> SumOver(t, { x \in DOMAIN t : F(x) = y })]

(* all \in sec: nothing has been left out                                   *)
Cut(s, S) == IF s = {"all"} THEN S ELSE s \cap S
Live == { r \in Regs : obj[r] # None }
Set(r, o) == obj' = [obj EXCEPT ![r] = o]
New(r, a) == LET x == Atoms[a] IN Set(r, [eft |-> x.eft, basis |-> x.basis, sec |-> {"all"}, cp |-> FALSE, t |-> (<<a, Push(<<>>, x.basis)>>) :> 1])
Translate(q, r, b) ==
  LET x == obj[q]
      F(y) == <<y[1], Push(y[2], b)>>
  IN /\ <<x.eft, x.basis, b>> \in Translators \/ b = x.basis
     /\ Set(r, [x EXCEPT !.basis = b, !.t = Map(x.t, F)])
TranslateSec(q, r, b, S) ==
  LET x == obj[q]
      F(y) == <<y[1], Push(y[2], b)>>
  IN /\ <<x.eft, x.basis, b>> \in Translators
     /\ Set(r, [x EXCEPT !.basis = b, !.t = Map(x.t, F), !.sec = Cut(@, SecSets[S])])
Down(q, r) ==
  LET x == obj[q] IN
  /\ <<x.eft, x.basis, Lower(x.eft), x.basis>> \in Matchers
  /\ Set(r, [x EXCEPT !.eft = Lower(@)])
(* complex conjugate coefficients, and CKM matrix from now on                *)
CP(q, r) == obj[q].basis # "EOS" /\ Set(r, [obj[q] EXCEPT !.cp = ~@])
Lin(p, q, r, a, b) ==
  /\ obj[p].eft = obj[q].eft /\ obj[p].basis = obj[q].basis /\ obj[p].cp = obj[q].cp /\ obj[p].sec = obj[q].sec
  /\ Set(r, [obj[p] EXCEPT !.t = Add(obj[p].t, a, obj[q].t, b)])
Repack(q, r) == Set(r, obj[q])
Coefs == {-2, -1, 1, 3}
Init == obj = [r \in Regs |-> None]
Targets(e) == { b \in BasesOf(e) : TRUE }
Next ==
  \/ \E r \in Regs, a \in DOMAIN Atoms : New(r, a)
  \/ \E q \in Live, r \in Regs : \E b \in Targets(obj[q].eft) : Translate(q, r, b) \/ \E S \in DOMAIN SecSets : TranslateSec(q, r, b, S)
  \/ \E q \in Live, r \in Regs : Down(q, r) \/ CP(q, r) \/ Repack(q, r)
  \/ \E p, q \in Live, r \in Regs, a, b \in Coefs : Lin(p, q, r, a, b)
Spec == Init /\ [][Next]_obj

(* --- design properties ---------------------------------------------------*)
Typed == \A r \in Live : LET x == obj[r] IN
   /\ x.basis \in BasesOf(x.eft)
   /\ \A y \in DOMAIN x.t : /\ Rank(Atoms[y[1]].eft) <= Rank(x.eft)
                            /\ \A i \in DOMAIN y[2] : y[2][i] \notin Complete /\ (i > 1 => y[2][i - 1] # y[2][i])
                            \* an object of an incomplete basis has been projected on it
                            /\ x.basis \notin Complete => y[2] # <<>> /\ Last(y[2]) = x.basis
                            \* bases with no way out end a word
                            /\ \A i \in DOMAIN y[2] : y[2][i] \in {"EOS", "formflavor", "Warsaw mass"} => i = Len(y[2]) /\ x.basis = y[2][i]
(* the graph: from every basis there is an edge to the hub and one back,     *)
(* except that some bases can only be reached; so normal forms can be        *)
(* evaluated                                                                 *)
ASSUME \A e \in EFTs \ {"WET-2"} : \A b \in BasesOf(e) \ {Hub(e)} : <<e, Hub(e), b>> \in Translators
ASSUME \A e \in EFTs \ {"WET-2"} : \A b \in BasesOf(e) \ {Hub(e), "EOS", "formflavor", "Warsaw mass"} : <<e, b, Hub(e)>> \in Translators
(* going to a basis and back by any way at all that stays within bases of    *)
(* the same content changes nothing: two paths with the same end and the     *)
(* same projections have the same value (by definition of the normal form);  *)
(* going round a loop of complete bases is the identity                      *)
Loops == \A r \in Live : \A y \in DOMAIN obj[r].t :
   (obj[r].basis \in Complete /\ y[2] = <<>>) => Atoms[y[1]].basis \in Complete
(* removing flavours never adds terms and translation never changes the theory *)
Bounded == \A r \in Live : obj[r].sec = {"all"} \/ \E S \in DOMAIN SecSets : obj[r].sec \subseteq SecSets[S]
=============================================================================
