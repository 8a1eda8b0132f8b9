------------------------------- MODULE Bases -------------------------------
(* The static structure every other module refers to: effective theories,   *)
(* their bases, and the translators and matchers the library provides.      *)
EXTENDS Sequences, Naturals

EFTs == {"SMEFT", "WET", "WET-4", "WET-3", "WET-2"}

BasesOf(eft) ==
  CASE eft = "SMEFT" -> {"Warsaw", "Warsaw up", "Warsaw mass", "Higgs-Warsaw up"}
    [] eft = "WET"   -> {"JMS", "flavio", "Bern", "EOS", "formflavor", "FlavorKit"}
    [] eft = "WET-4" -> {"JMS", "flavio", "Bern"}
    [] eft = "WET-3" -> {"JMS", "flavio", "Bern"}
    [] eft = "WET-2" -> {"JMS"}
    [] OTHER -> {}

Translators ==
  { <<"SMEFT", "Warsaw", "Warsaw up">>, <<"SMEFT", "Warsaw up", "Warsaw">>,
    <<"SMEFT", "Warsaw", "Warsaw mass">>,
    <<"SMEFT", "Higgs-Warsaw up", "Warsaw up">>, <<"SMEFT", "Warsaw up", "Higgs-Warsaw up">>,
    <<"SMEFT", "Higgs-Warsaw up", "Warsaw">>, <<"SMEFT", "Warsaw", "Higgs-Warsaw up">>,
    <<"WET", "JMS", "EOS">>, <<"WET", "JMS", "formflavor">>,
    <<"WET", "JMS", "FlavorKit">>, <<"WET", "FlavorKit", "JMS">>,
    <<"WET", "FlavorKit", "flavio">> }
  \cup { <<e, p[1], p[2]>> : e \in {"WET", "WET-4", "WET-3"},
           p \in { <<"JMS", "flavio">>, <<"flavio", "JMS">>, <<"JMS", "Bern">>,
                   <<"Bern", "JMS">>, <<"flavio", "Bern">>, <<"Bern", "flavio">> } }

Matchers ==
  { <<"SMEFT", "Warsaw up", "WET", "JMS">>, <<"SMEFT", "Warsaw", "WET", "JMS">>,
    <<"SMEFT", "Warsaw", "WET", "flavio">>, <<"SMEFT", "Warsaw up", "WET", "flavio">>,
    <<"SMEFT", "Warsaw", "WET", "EOS">>, <<"SMEFT", "Warsaw", "WET", "Bern">>,
    <<"WET-3", "JMS", "WET-2", "JMS">> }
  \cup { <<p[1], b, p[2], b>> : p \in { <<"WET", "WET-4">>, <<"WET-4", "WET-3">> },
                                b \in {"flavio", "Bern", "JMS"} }

(* position in the tower of theories; running goes to larger numbers only *)
Rank(eft) == CASE eft = "SMEFT" -> 0 [] eft = "WET" -> 1 [] eft = "WET-4" -> 2
               [] eft = "WET-3" -> 3 [] OTHER -> 9
=============================================================================
