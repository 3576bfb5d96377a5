------------------------------- MODULE MC_Profile -------------------------------
EXTENDS Profile, TLC, Json

CONSTANTS Types, Steps, Scales, Heights, Depth, Max, Rand, Early, Back
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES rows, h
vars == <<rows, h>>
Init == rows = <<>> /\ h = <<>>
Add == /\ Len(rows) < Max
       /\ \E t \in Pick(Types), d \in Pick(Steps) : \E b \in (IF Drawable(t) \/ rows = <<>> THEN {0} ELSE {x \in Pick(Back) : d - x + rows[Len(rows)].s >= 0}) :
            rows' = Append(rows, [type |-> t, s |-> (IF rows = <<>> THEN 0 ELSE rows[Len(rows)].s) + d - b])
       /\ UNCHANGED h
Draw == /\ rows # <<>> /\ (~Rand \/ Len(rows) = Max \/ (Early /\ RandomElement(1..4) = 1))
        \* a drift may lead back, but the line ends where it is longest
        /\ \A i \in 1..Len(rows) : rows[i].s <= rows[Len(rows)].s
        /\ \E c \in Pick(Scales), g \in Pick(Heights) : h' = Append(h, [op |-> "draw", rows |-> rows, scale |-> c, height |-> g]) /\ rows' = <<>>
Next == Len(h) < Depth /\ (Add \/ Draw)
Spec == Init /\ [][Next]_vars

\* rectangles come in order, do not overlap, and stay within the line
Ordered == LET r == Rects(rows, ROne, 1) IN
           /\ \A i \in 1..Len(r) : RLe(r[i].lo, r[i].hi) /\ RLe(RZero, r[i].lo) /\ RLe(r[i].hi, End(rows, ROne))
           /\ \A i \in 2..Len(r) : RLe(r[i - 1].hi, r[i].lo)
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=================================================================================
