----------------------------- MODULE QcdPlanGen -----------------------------
EXTENDS QcdPlan, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
R(S) == RandomElement(S)
(* the argument keeps TLC from evaluating the choice once and for all *)
Fresh(n) == [q |-> R(Quantities), f |-> R(Flavours), scale |-> R(Scales), init |-> R(Inits), loop |-> R(Loops), amz |-> R(Inits)]
Own(r) == [r EXCEPT !.scale = IF StartScale(r.q) = "self" THEN r.init ELSE StartScale(r.q)]
At(r) == [r EXCEPT !.f = StartNf(r.q)]
Old(i) == LET r == hist[i].r IN
   CASE R(1..6) = 1 -> r [] R(1..2) = 1 -> [r EXCEPT !.f = R(Flavours)] [] R(1..2) = 1 -> [r EXCEPT !.amz = R(Inits)]
     [] R(1..2) = 1 -> [r EXCEPT !.loop = R(Loops)] [] OTHER -> [r EXCEPT !.init = R(Inits)]
Add(r) == Call(r) /\ hist' = Append(hist, [r |-> r, a |-> Answer(r)])
GStep == /\ Len(hist) < Depth
         /\ \/ \E r \in {Fresh(Len(hist))} : Add(r)
            \/ \E r \in {Own(Fresh(Len(hist)))} : Add(r)
            \/ \E r \in {At(Own(Fresh(Len(hist))))} : Add(r)
            \/ hist # <<>> /\ \E r \in {Old(R(1..Len(hist)))} : Add(r)
            \/ hist # <<>> /\ \E r \in {Old(R(1..Len(hist)))} : Add(r)
GNext == GStep \/ (Len(hist) = Depth /\ UNCHANGED vars /\ hist' = Append(hist, [a |-> "end"]))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) <= Depth \/ PrintT("BEH" \o ToJson(SubSeq(hist, 1, Depth)))
=============================================================================
