------------------------------ MODULE Options -------------------------------
(* Options of configurable classes: the abstract state (what every option of *)
(* every instance is, and what new instances start with) next to the heap of *)
(* dictionaries that implements it.  `Matches` says that no dictionary is    *)
(* shared in a way that could be noticed.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids,       \* instances
          Raw,       \* option -> (raw value -> canonical value, or "bad"); without parameters
          Default,   \* option -> canonical value, without parameters
          PCanon,    \* content of a parameter dictionary -> canonical content, or "bad"
          P0,        \* the empty content (canonical)
          ND,        \* number of dictionaries owned by the caller
          BadNames,  \* names of options that do not exist
          WCs,       \* coefficient sets
          MaxHeap
Plain == DOMAIN Default
Contents == DOMAIN PCanon
Dicts == 1..ND

VARIABLES adefs, ainst,     \* abstract: options; instance -> [wc, o]
          heap,             \* cells, each the content of one parameters dictionary;
                            \* cells 1..ND are the caller's, ND + 1 the class default
          dref, iref,       \* cell of the class default, cells of the instances
          last
vars == <<adefs, ainst, heap, dref, iref, last>>

O(plain, p) == [plain |-> plain, par |-> p]
None == [wc |-> "-", o |-> O(Default, P0)]
Live(i) == ainst[i].wc # "-"
Fresh == Len(heap) + 1

Init == /\ adefs = O(Default, P0)
        /\ ainst = [i \in Ids |-> None]
        /\ heap = [n \in 1..(ND + 1) |-> P0]
        /\ dref = ND + 1
        /\ iref = [i \in Ids |-> 0]
        /\ last = [a |-> "init", ok |-> TRUE]

New(i, wc) ==
  /\ ~Live(i)
  /\ ainst' = [ainst EXCEPT ![i] = [wc |-> wc, o |-> adefs]]
  /\ heap' = Append(heap, heap[dref])            \* a copy of its own
  /\ iref' = [iref EXCEPT ![i] = Fresh]
  /\ last' = [a |-> "new", i |-> i, wc |-> wc, ok |-> TRUE]
  /\ UNCHANGED <<adefs, dref>>

(* the caller changes one of its own dictionaries *)
Mutate(d, c) ==
  /\ heap' = [heap EXCEPT ![d] = c]
  /\ last' = [a |-> "mutate", d |-> d, c |-> c, ok |-> TRUE]
  /\ UNCHANGED <<adefs, ainst, dref, iref>>

Set(i, k, r) ==
  /\ Live(i) /\ k \in Plain
  /\ LET v == Raw[k][r] IN
     /\ ainst' = IF v = "bad" THEN ainst ELSE [ainst EXCEPT ![i].o.plain[k] = v]
     /\ last' = [a |-> "set", i |-> i, k |-> k, r |-> r, ok |-> v # "bad"]
  /\ UNCHANGED <<adefs, heap, dref, iref>>
SetDefault(k, r) ==
  /\ k \in Plain
  /\ LET v == Raw[k][r] IN
     /\ adefs' = IF v = "bad" THEN adefs ELSE [adefs EXCEPT !.plain[k] = v]
     /\ last' = [a |-> "default", k |-> k, r |-> r, ok |-> v # "bad"]
  /\ UNCHANGED <<ainst, heap, dref, iref>>
SetPar(i, d) ==
  /\ Live(i)
  /\ LET v == PCanon[heap[d]] IN
     /\ IF v = "bad" THEN UNCHANGED <<ainst, heap, iref>>
        ELSE /\ ainst' = [ainst EXCEPT ![i].o.par = v]
             /\ heap' = Append(heap, v)
             /\ iref' = [iref EXCEPT ![i] = Fresh]
     /\ last' = [a |-> "set", i |-> i, k |-> "parameters", d |-> d, ok |-> v # "bad"]
  /\ UNCHANGED <<adefs, dref>>
SetDefaultPar(d) ==
  /\ LET v == PCanon[heap[d]] IN
     /\ IF v = "bad" THEN UNCHANGED <<adefs, heap, dref>>
        ELSE /\ adefs' = [adefs EXCEPT !.par = v]
             /\ heap' = Append(heap, v)
             /\ dref' = Fresh
     /\ last' = [a |-> "default", k |-> "parameters", d |-> d, ok |-> v # "bad"]
  /\ UNCHANGED <<ainst, iref>>
(* an option that does not exist, and values of the wrong kind altogether *)
BadSet(i, n) ==
  /\ Live(i)
  /\ last' = [a |-> "badset", i |-> i, k |-> n, ok |-> FALSE]
  /\ UNCHANGED <<adefs, ainst, heap, dref, iref>>
BadDefault(n) ==
  /\ last' = [a |-> "baddefault", k |-> n, ok |-> FALSE]
  /\ UNCHANGED <<adefs, ainst, heap, dref, iref>>
(* reading options, running, translating, clearing the cache *)
Use(i, how) ==
  /\ Live(i)
  /\ last' = [a |-> "use", i |-> i, how |-> how, ok |-> TRUE]
  /\ UNCHANGED <<adefs, ainst, heap, dref, iref>>
(* the caller changes the dictionary that an instance returned: what this does *)
(* to the instance itself is left open ("?"), nothing else may change         *)
Touch(i, c) ==
  /\ Live(i)
  /\ heap' = [heap EXCEPT ![iref[i]] = c]
  /\ ainst' = [ainst EXCEPT ![i].o.par = "?"]
  /\ last' = [a |-> "touch", i |-> i, c |-> c, ok |-> TRUE]
  /\ UNCHANGED <<adefs, dref, iref>>
Uses == {"translate", "run", "fail", "read", "clear"}

Room == Len(heap) < MaxHeap
Next == \/ \E i \in Ids, wc \in WCs : Room /\ New(i, wc)
        \/ \E d \in Dicts, c \in Contents : Mutate(d, c)
        \/ \E i \in Ids, k \in Plain : \E r \in DOMAIN Raw[k] : Set(i, k, r)
        \/ \E k \in Plain : \E r \in DOMAIN Raw[k] : SetDefault(k, r)
        \/ \E i \in Ids, d \in Dicts : Room /\ SetPar(i, d)
        \/ \E d \in Dicts : Room /\ SetDefaultPar(d)
        \/ \E i \in Ids, n \in BadNames : BadSet(i, n)
        \/ \E n \in BadNames : BadDefault(n)
        \/ \E i \in Ids, h \in Uses : Use(i, h)
        \/ \E i \in Ids, c \in Contents : PCanon[c] = c /\ Touch(i, c)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Matches == /\ heap[dref] = adefs.par
           /\ \A i \in Ids : Live(i) => ainst[i].o.par \in {heap[iref[i]], "?"}
Canonical == adefs.par \in {PCanon[c] : c \in Contents} /\ adefs.par # "bad"
             /\ (\A k \in Plain : adefs.plain[k] \in {Raw[k][r] : r \in DOMAIN Raw[k]} \cup {Default[k]})
             /\ \A k \in Plain : adefs.plain[k] # "bad"
(* C03 *)
RejectedChangesNothing == [][~last'.ok => UNCHANGED <<adefs, ainst, heap, dref, iref>>]_vars
OneOption == [][\A i \in Ids : Live(i) /\ ainst'[i] # ainst[i] =>
                   last'.a \in {"set", "touch"} /\ last'.i = i /\ adefs' = adefs
                   /\ \A k \in Plain : (last'.a = "set" /\ last'.k = k) \/ ainst'[i].o.plain[k] = ainst[i].o.plain[k]]_vars
CallerKept == [][\A d \in Dicts : heap'[d] # heap[d] => last'.a = "mutate"]_vars
FreshStart == [][\A i \in Ids : ~Live(i) /\ ainst'[i].wc # "-" => ainst'[i].o = adefs]_vars
(* C04: the hash is a function of exactly this *)
HashKey(i) == <<ainst[i].wc, ainst[i].o>>
HashStable == [][\A n \in Ids : Live(n) /\ last'.a \in {"use", "mutate", "default", "new", "badset", "baddefault"}
                   => <<ainst'[n].wc, ainst'[n].o>> = HashKey(n)]_vars
=============================================================================
