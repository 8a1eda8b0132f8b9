------------------------------ MODULE WCValues ------------------------------
(* Wilson coefficient files: the forms in which a value may be given, the    *)
(* number every form stands for, and the views of an object.                 *)
(* Numbers are pairs of decimal tokens <<re, im>>.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Parts,      \* decimal tokens, "0" among them
          IntParts,   \* those that are integers
          KnownKeys, UnknownKeys,
          KnownEfts, Efts,         \* Efts \ KnownEfts is not registered
          KnownBases, Bases,       \* pairs <<eft, basis>>
          MaxObj
Keys == KnownKeys \cup UnknownKeys

Forms == { [f |-> "float", re |-> p, im |-> "0"] : p \in Parts }
    \cup { [f |-> "int", re |-> p, im |-> "0"] : p \in IntParts }
    \cup { [f |-> "str", re |-> p, im |-> "0"] : p \in Parts }
    \cup { [f |-> "Re", re |-> p, im |-> "-"] : p \in Parts }
    \cup { [f |-> "Im", re |-> "-", im |-> p] : p \in Parts }
    \cup { [f |-> "ReIm", re |-> p, im |-> q] : p \in Parts, q \in Parts }
    \cup { [f |-> "ReImStr", re |-> p, im |-> q] : p \in Parts, q \in Parts }
    \cup { [f |-> "ImRe", re |-> p, im |-> q] : p \in Parts, q \in IntParts }
    \cup { [f |-> "empty", re |-> "-", im |-> "-"] }

Part(t) == IF t = "-" THEN "0" ELSE t
Number(v) == <<Part(v.re), Part(v.im)>>
(* the form numbers are turned into *)
Canon(n) == IF n[2] = "0" THEN [f |-> "float", re |-> n[1], im |-> "0"]
            ELSE [f |-> "ReIm", re |-> n[1], im |-> n[2]]
CanonIsIdentity == \A v \in Forms : Number(Canon(Number(v))) = Number(v)
FormsTotal == \A p, q \in Parts : \E v \in Forms : Number(v) = <<p, q>>
ASSUME CanonIsIdentity /\ FormsTotal

VARIABLES objs, answer
vars == <<objs, answer>>
Init == objs = <<>> /\ answer = [op |-> "none"]

(* an object: eft, basis, and a sequence of [k, v] with distinct keys *)
Number_of(o, k) == IF \E i \in 1..Len(o.vals) : o.vals[i].k = k
                   THEN Number(o.vals[CHOOSE i \in 1..Len(o.vals) : o.vals[i].k = k].v)
                   ELSE <<"0", "0">>
Numbers(o) == [i \in 1..Len(o.vals) |-> [k |-> o.vals[i].k, n |-> Number(o.vals[i].v)]]
Valid(o) == /\ o.eft \in KnownEfts
            /\ <<o.eft, o.basis>> \in KnownBases
            /\ \A i \in 1..Len(o.vals) : o.vals[i].k \in KnownKeys

New(o) == /\ Len(objs) < MaxObj
          /\ objs' = Append(objs, o)
          /\ answer' = [op |-> "new"]
(* numbers to values and back *)
Renumber(i) == /\ Len(objs) < MaxObj
               /\ objs' = Append(objs, [objs[i] EXCEPT !.vals =
                     [j \in 1..Len(@) |-> [k |-> @[j].k, v |-> Canon(Number(@[j].v))]]])
               /\ answer' = [op |-> "renumber"]
Read(i, what) == /\ UNCHANGED objs
                 /\ answer' = [op |-> what, i |-> i, ns |-> Numbers(objs[i])]
Item(i, k) == UNCHANGED objs /\ answer' = [op |-> "item", i |-> i, k |-> k, n |-> Number_of(objs[i], k)]
Validate(i) == UNCHANGED objs /\ answer' = [op |-> "validate", i |-> i, ok |-> Valid(objs[i])]

Views == {"dict", "df", "values", "str", "html"}
NumbersStable == [][\A i \in 1..Len(objs) : Numbers(objs'[i]) = Numbers(objs[i])]_vars
ItemsAgree == \A i \in 1..Len(objs) : \A j \in 1..Len(objs[i].vals) :
                Number_of(objs[i], objs[i].vals[j].k) = Numbers(objs[i])[j].n
RenumberSame == answer.op = "renumber" =>
                  \E i \in 1..(Len(objs) - 1) : Numbers(objs[i]) = Numbers(objs[Len(objs)])

SmallObjs == { [eft |-> b[1], basis |-> b[2], vals |-> <<[k |-> k, v |-> v]>>] :
                 b \in Bases, k \in Keys, v \in Forms }
Next == \/ \E o \in SmallObjs : New(o)
        \/ \E i \in 1..Len(objs) : \/ Renumber(i) \/ Validate(i)
                                   \/ \E v \in Views : Read(i, v)
                                   \/ \E k \in Keys : Item(i, k)
Spec == Init /\ [][Next]_vars
=============================================================================
