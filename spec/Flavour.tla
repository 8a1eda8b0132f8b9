------------------------------ MODULE Flavour -------------------------------
(* Paths between representations of coefficients, for operators with the     *)
(* flavour symmetries of module FlavourTheory.                               *)
EXTENDS FlavourTheory, Json, IOUtils

(* Representations of a set of coefficients and the functions between them.  *)
(* D: dictionary; A: arrays with just these entries; S: arrays with the      *)
(* symmetry of the operators, A averaged (s: without operators that do not   *)
(* occur); Y: the same without symmetry factors; F: dictionary of all        *)
(* entries of S; V: flat vector; PA, PS: padded; J: Y for all operators;     *)
(* R: dictionary with redundant names                                        *)
Fun == [smeft |-> { <<"D", "wcxf2arrays", "A">>, <<"D", "wcxf2arrays_symmetrized", "S">>, <<"A", "symmetrize_nonred", "s">>,
          <<"A", "symmetrize", "Y">>, <<"Y", "symmetrize", "Y">>, <<"S", "symmetrize", "S">>, <<"s", "symmetrize", "s">>,
          <<"s", "add_missing", "S">>, <<"S", "arrays2wcxf_nonred", "D">>, <<"s", "arrays2wcxf_nonred", "D">>,
          <<"s", "unscale_dict", "U">>, <<"U", "arrays2wcxf", "UF">>, <<"A", "pad_C", "PA">>, <<"PA", "unpad_C", "A">>,
          <<"S", "pad_C", "PS">>, <<"PS", "unpad_C", "S">>, <<"S", "C_dict2array", "V">>, <<"V", "C_array2dict", "S">>,
          <<"S", "arrays2wcxf", "F">>, <<"F", "wcxf2arrays", "S">>, <<"PS", "arrays2wcxf_nonred", "D">> },
        jms |-> { <<"R", "symmetrize_JMS_dict", "D">>, <<"D", "symmetrize_JMS_dict", "D">>, <<"D", "rename", "R">>,
          <<"D", "JMS_to_array", "J">>, <<"J", "scale_dict_wet", "K">>, <<"K", "unscale_dict_wet", "J">>,
          <<"J", "rename", "R">>, <<"K", "extract", "D">> }]
(* what the function names stand for is deterministic on representations *)
ASSUME \A l \in DOMAIN Fun : \A f, g \in Fun[l] : f[1] = g[1] /\ f[2] = g[2] => f[3] = g[3]

CONSTANTS Lib, Depth
VARIABLE path
Init == path = <<"D">>
Step == \E f \in Fun[Lib] : f[1] = path[Len(path)] /\ path' = path \o <<f[2], f[3]>>
Next == (Len(path) < 2 * Depth + 1 /\ Step) \/ (Len(path) = 2 * Depth + 1 /\ path' = Append(path, "end"))
Spec == Init /\ [][Next]_path
Emit == Len(path) <= 2 * Depth + 1 \/ PrintT("BEH" \o ToJson(SubSeq(path, 1, 2 * Depth + 1)))
TypeOK == \A i \in 1..((Len(path) - 1) \div 2) : <<path[2 * i - 1], path[2 * i], path[2 * i + 1]>> \in Fun[Lib]
Out == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [tables |-> [c \in Classes |-> Table(c)], table8 |-> Table8, SMEFT |-> SMEFT, WET |-> WET])
=============================================================================
