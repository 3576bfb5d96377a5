------------------------------- MODULE MC_Symbol -------------------------------
EXTENDS Symbol, TLC, Json

CONSTANTS Chars, Max, Min, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES s, ts
vars == <<s, ts>>
Init == s = Start /\ ts = <<>>
Next == Len(ts) < Max /\ \E t \in Pick(Codes \cup Chars) \cup (IF Rand THEN Pick(Codes) ELSE {}) : ts' = Append(ts, t) /\ s' = Take(s, t)
Spec == Init /\ [][Next]_vars

\* the state machine and the function agree, the label is balanced however the input ends
Same == s = Read(Start, ts)
Even == Balanced(Label(ts))
\* no character is lost: text without codes is untouched, and every character leaves one token
Kept == LET n(S) == Len(SelectSeq(ts, LAMBDA t : t \in S)) IN Len(s.out) <= n(Chars) + 2 * n({"$a", "$b"}) + n({"$n"})
Plain == (\A i \in 1..Len(ts) : ts[i] \notin Codes) => Label(ts) = ts
Emit == Len(ts) >= Min => PrintT("@@" \o ToJson([ts |-> ts]))
================================================================================
