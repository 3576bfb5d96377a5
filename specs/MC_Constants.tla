------------------------------- MODULE MC_Constants -------------------------------
EXTENDS Constants, TLC, Json

CONSTANTS Depth
VARIABLES s, h
vars == <<s, h>>
Init == s = Start /\ h = <<>>
Do(e) == s' = Apply(s, e) /\ h' = Append(h, e)
Next == Len(h) < Depth /\ IF s.at = <<>> THEN \E t \in Stored : Do([op |-> "take", kind |-> t[1], unit |-> t[2], name |-> t[3]])
                          ELSE \E x \in Steps : x.from = s.at[2] /\ Do([op |-> "convert", step |-> x])
Spec == Init /\ [][Next]_vars
\* whatever way leads to a unit, the value is the one stored for it
PathFree == s.at # <<>> => \A n \in Of(s.at[1], s.at[2]) : Abs(Table[n] - s.log) <= Tol
\* the vacuum: epsilon_0 mu_0 c^2 = 1
Vacuum == Abs(Eps + Mu + 2 * C) <= Tol
Circle == Table.RT_TWO_PI * 2 - Table.TWO_PI \in {-1, 0, 1} /\ Abs(2 * Table.RT_2_OVER_PI - (2 * Table.RT_2 - Pi)) <= 2
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=================================================================================
