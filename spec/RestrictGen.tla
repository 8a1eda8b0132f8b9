----------------------------- MODULE RestrictGen -----------------------------
(* Random calculations of module Restrict.                                   *)
EXTENDS Restrict, Json
CONSTANTS Depth, Weights
VARIABLES hist
R(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* few sectors, one, or all
Here(e) == LET X == DOMAIN val \cap Secs(e) IN IF X = {} THEN Secs(e) ELSE X
RSet(e, x) == LET k == RandomElement(1..5) IN
  IF k = 1 THEN All
  ELSE IF k = 5 THEN { s \in Secs(e) : RandomElement(1..3) = 1 } \cup {RandomElement(Here(e))}
  ELSE { RandomElement(IF k = 4 THEN Secs(e) ELSE Here(e)) : i \in 1..k }
KindsOf == UNION { { <<k, i>> : i \in 1..Weights[k] } : k \in DOMAIN Weights }
Rec(S) == hist' = Append(hist, [op |-> word'[Len(word')], S |-> S, at |-> at', secs |-> DOMAIN val'])
Ok == DOMAIN val' # {}
GStep == Len(hist) < Depth /\ \E k \in R(KindsOf) :
  \/ k[1] = "tr" /\ \E b \in R({ t[3] : t \in { u \in Translators : u[1] = at.eft /\ u[2] = at.basis } }) : \E S \in {RSet(at.eft, b)} : Translate(b, S) /\ Ok /\ Rec(S)
  \/ k[1] = "run" /\ \E n \in R((1..NScales) \ {at.scale}) : \E S \in {RSet(at.eft, n)} : Run(n, IF at.eft = "SMEFT" THEN All ELSE S) /\ Ok /\ Rec(IF at.eft = "SMEFT" THEN All ELSE S)
  \/ k[1] = "down" /\ \E e \in R({ x \in Theory : <<at.eft, at.basis, x, at.basis>> \in Matchers }) : Down(e) /\ Ok /\ Rec(All)
  \/ k[1] = "match" /\ \E b \in R({ m[4] : m \in { x \in Matchers : x[1] = at.eft /\ x[2] = at.basis } }) : Match(b) /\ Rec(All)
  \/ k[1] = "request" /\ \E e \in R({ x \in Theory : Rank(x) >= Rank(at.eft) }) : \E b \in R(BasesOf(e)) : \E n \in R(1..NScales) : \E S \in {RSet(e, b)} :
       Request(e, b, n, IF e = "SMEFT" THEN All ELSE S) /\ Ok /\ Rec(IF e = "SMEFT" THEN All ELSE S)
Skip == Len(hist) < Depth /\ UNCHANGED <<at, word, val, hist>>
GNext == IF Len(hist) < Depth THEN GStep \/ Skip
         ELSE Len(hist) = Depth /\ UNCHANGED <<at, word, val>> /\ hist' = Append(hist, [end |-> TRUE])
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_<<at, word, val, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson([new |-> word[1].a, steps |-> SubSeq(hist, 1, Depth)]))
=============================================================================
