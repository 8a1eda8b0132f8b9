------------------------------ MODULE Dispatch ------------------------------
(* Translating and matching coefficient objects: which function is called,   *)
(* with what, and what comes back.  Objects carry a content identifier; a    *)
(* function with identifier f turns content c into the content Out(f, c).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Efts, Bases, Pars, Secs, MaxObj, MaxFun
VARIABLES tr,      \* <<eft, from, to>> -> function
          ma,      \* <<eft, from, eft2, to>> -> function
          nf,      \* number of functions so far
          objs,    \* sequence of [eft, basis, scale, c]
          resp
vars == <<tr, ma, nf, objs, resp>>
None == "None"
Init == tr = <<>> /\ ma = <<>> /\ nf = 0 /\ objs = <<>> /\ resp = [kind |-> "init"]
Out(f, c) == <<f, c>>

NewObj(e, b, s) == /\ Len(objs) < MaxObj
                   /\ objs' = Append(objs, [eft |-> e, basis |-> b, scale |-> s, c |-> <<0, Len(objs) + 1>>])
                   /\ resp' = [kind |-> "new"] /\ UNCHANGED <<tr, ma, nf>>
AddTr(n) == /\ nf < MaxFun /\ nf' = nf + 1 /\ tr' = (n :> (nf + 1)) @@ tr
            /\ resp' = [kind |-> "reg"] /\ UNCHANGED <<ma, objs>>
AddMa(n) == /\ nf < MaxFun /\ nf' = nf + 1 /\ ma' = (n :> (nf + 1)) @@ ma
            /\ resp' = [kind |-> "reg"] /\ UNCHANGED <<tr, objs>>
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
DelTr(n) == n \in DOMAIN tr /\ tr' = Without(tr, n) /\ resp' = [kind |-> "del"] /\ UNCHANGED <<ma, nf, objs>>
DelMa(n) == n \in DOMAIN ma /\ ma' = Without(ma, n) /\ resp' = [kind |-> "del"] /\ UNCHANGED <<tr, nf, objs>>

Call(f, i, e, b, p, s) ==
  /\ Len(objs) < MaxObj
  /\ objs' = Append(objs, [eft |-> e, basis |-> b, scale |-> objs[i].scale, c |-> Out(f, objs[i].c)])
  /\ resp' = [kind |-> "call", f |-> f, i |-> i, par |-> p, sec |-> s, eft |-> e, basis |-> b]
Translate(i, to, p, s) ==
  LET o == objs[i]
      n == <<o.eft, o.basis, to>> IN
  /\ UNCHANGED <<tr, ma, nf>>
  /\ IF to = o.basis THEN resp' = [kind |-> "self", i |-> i] /\ UNCHANGED objs
     ELSE IF n \in DOMAIN tr THEN Call(tr[n], i, o.eft, to, p, s)
     ELSE resp' = [kind |-> "ValueError"] /\ UNCHANGED objs
Match(i, e, to, p) ==
  LET o == objs[i]
      n == <<o.eft, o.basis, e, to>> IN
  /\ UNCHANGED <<tr, ma, nf>>
  /\ IF to = o.basis /\ e = o.eft THEN resp' = [kind |-> "self", i |-> i] /\ UNCHANGED objs
     ELSE IF n \in DOMAIN ma THEN Call(ma[n], i, e, to, p, None)
     ELSE resp' = [kind |-> "ValueError"] /\ UNCHANGED objs
TrNames == Efts \X Bases \X Bases
MaNames == Efts \X Bases \X Efts \X Bases
Next == \/ \E e \in Efts, b \in Bases : NewObj(e, b, "1")
        \/ \E n \in TrNames : AddTr(n) \/ DelTr(n)
        \/ \E n \in MaNames : AddMa(n) \/ DelMa(n)
        \/ \E i \in 1..Len(objs), b \in Bases : \/ \E p \in Pars, s \in Secs : Translate(i, b, p, s)
                                                \/ \E p \in Pars, e \in Efts : Match(i, e, b, p)
Spec == Init /\ [][Next]_vars
(* the input object is never changed; a new object has the requested type   *)
InputsConstant == [][\A i \in 1..Len(objs) : objs'[i] = objs[i]]_vars
RightType == [][resp'.kind = "call" => LET o == objs'[Len(objs')] IN
   /\ o.eft = resp'.eft /\ o.basis = resp'.basis /\ o.scale = objs[resp'.i].scale
   /\ \/ <<o.eft, objs[resp'.i].basis, o.basis>> \in DOMAIN tr
      \/ <<objs[resp'.i].eft, objs[resp'.i].basis, o.eft, o.basis>> \in DOMAIN ma]_vars
=============================================================================
