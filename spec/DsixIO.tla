------------------------------- MODULE DsixIO -------------------------------
(* DsixTools files.  An object holds coefficients in units of powers of its  *)
(* high scale, a scale at which they are given and, possibly, SM parameters; *)
(* a file holds the same numbers with the high scale.  Coefficients are      *)
(* abstract (their identity), `unit' is the scale whose powers were          *)
(* multiplied in: the value meant by an object or file is the content iff    *)
(* the unit equals the high scale it is read with.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Ids, Scales, Sms
None == "none"
VARIABLES obj, file, last
vars == <<obj, file, last>>

Fresh == [id |-> None, unit |-> None, in |-> None, high |-> None, sm |-> None]
NoFile == [id |-> None, unit |-> None, high |-> None, low |-> None, full |-> FALSE, sm |-> None]
Init == obj = Fresh /\ file = NoFile /\ last = [op |-> "start"]

New == /\ obj' = Fresh /\ file' = file /\ last' = [op |-> "new"]
(* from WCxf: the high scale is the given one, else the previous one, else   *)
(* the scale of the coefficients; SM parameters stay                         *)
High(s, h) == IF h # None THEN h ELSE IF obj.high # None THEN obj.high ELSE s
Set(i, s, h, via) ==
  /\ (via = "load" => h = None)
  /\ obj' = [id |-> i, unit |-> High(s, h), in |-> s, high |-> High(s, h), sm |-> obj.sm]
  /\ file' = file
  /\ last' = [op |-> "set", id |-> i, scale |-> s, high |-> h, via |-> via]
(* writing a file, with or without redundant entries                         *)
Dump(low, full, fmt) ==
  /\ obj.id # None
  /\ file' = [id |-> obj.id, unit |-> obj.unit, high |-> obj.high, low |-> low, full |-> full, sm |-> None]
  /\ obj' = obj
  /\ last' = [op |-> "dump", low |-> low, full |-> full, fmt |-> fmt, want |-> file']
(* a file from elsewhere                                                     *)
Write(i, s, full) ==
  /\ file' = [id |-> i, unit |-> s, high |-> s, low |-> None, full |-> full, sm |-> None]
  /\ obj' = obj
  /\ last' = [op |-> "write", want |-> file']
Convert(i, s) ==
  /\ file' = [id |-> i, unit |-> s, high |-> s, low |-> None, full |-> FALSE, sm |-> None]
  /\ obj' = obj
  /\ last' = [op |-> "wcxf2dsixtools", id |-> i, scale |-> s, want |-> file']
(* reading: coefficients, options and SM parameters from one or more files   *)
Load(m, parts) ==
  /\ file.id # None
  /\ obj' = [id |-> file.id, unit |-> file.unit, in |-> file.high, high |-> file.high, sm |-> m]
  /\ file' = file
  /\ last' = [op |-> "load", sm |-> m, parts |-> parts, file |-> file]
(* reading without SM parameters or scale fails and changes nothing          *)
Bad(what) == /\ file.id # None /\ UNCHANGED <<obj, file>>
             /\ last' = [op |-> "bad", what |-> what, file |-> file]
Export(s, fmt) == /\ obj.id # None /\ UNCHANGED <<obj, file>>
                  /\ last' = [op |-> "export", scale |-> s, fmt |-> fmt, id |-> obj.id]
Back(m, parts) == /\ file.id # None /\ UNCHANGED <<obj, file>>
                  /\ last' = [op |-> "dsixtools2wcxf", sm |-> m, parts |-> parts, file |-> file,
                              id |-> file.id, scale |-> file.high]
Fmts == {"yaml", "json"}
Next == \/ New
        \/ \E i \in Ids, s \in Scales, h \in Scales \cup {None}, v \in {"object", "load"} : Set(i, s, h, v)
        \/ \E l \in Scales \cup {None}, f \in BOOLEAN, t \in {"lha", "json", "yaml"} : Dump(l, f, t)
        \/ \E i \in Ids, s \in Scales, f \in BOOLEAN : Write(i, s, f)
        \/ \E i \in Ids, s \in Scales : Convert(i, s)
        \/ \E m \in Sms, p \in 1..3 : Load(m, p) \/ Back(m, p)
        \/ \E w \in {"sm", "scale"} : Bad(w)
        \/ \E s \in Scales, t \in Fmts : Export(s, t)
Spec == Init /\ [][Next]_vars

(* nothing is lost or rescaled: whatever is exported means the content       *)
Units == (obj.id # None => obj.unit = obj.high) /\ (file.id # None => file.unit = file.high)
RoundTrip == [][ last'.op = "dsixtools2wcxf" => /\ last'.id = file.id /\ last'.scale = file.unit ]_vars

(* The lines of a file: operators without fermions are numbered entries of   *)
(* four blocks; all others have a block of their own with the index of the   *)
(* entry, and another one for imaginary parts.                               *)
Zero == [ WC1 |-> <<"G", "Gtilde", "W", "Wtilde">>, WC2 |-> <<"phi">>, WC3 |-> <<"phiBox", "phiD">>,
          WC4 |-> <<"phiG", "phiB", "phiW", "phiWB", "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB">> ]
Sm == [ GAUGE |-> <<"g", "gp", "gs">>, SCALAR |-> <<"Lambda", "m2">>, THETA |-> <<"Theta", "Thetap", "Thetas">> ]
Yuk == {"Gu", "Gd", "Ge"}
ASSUME \A b, c \in DOMAIN Zero : \A i \in DOMAIN Zero[b], j \in DOMAIN Zero[c] :
          Zero[b][i] = Zero[c][j] => b = c /\ i = j
Out == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [zero |-> Zero, sm |-> Sm, yuk |-> Yuk])
=============================================================================
