----------------------------- MODULE MC_PhaseSpace -----------------------------
EXTENDS PhaseSpace, TLC, Json

CONSTANTS Ns, Names, MaxC, Depth, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES st, h
vars == <<st, h>>
Init == st = Empty /\ h = <<>>
Do(e) == st' = Apply(st, e) /\ h' = Append(h, e)
I == 1..Len(st.c)
\* an array whose elements are all different
Arr(rows, n, s) == [i \in 1..rows |-> [k \in 1..n |-> 100 * s + 10 * i + k]]
Good(i) == ~st.c[i].bad
Next == Len(h) < Depth /\
    \/ Len(st.c) < MaxC /\ \E n \in Pick(Ns) : Do([op |-> "new", n |-> n])
    \/ st.c # <<>> /\ \E i \in Pick(I) :
       \/ \E n \in Pick(Ns) : Do([op |-> "setn", i |-> i, n |-> n])
       \/ \E n \in Pick(Ns), r \in Pick(IF Rand THEN {6, 6, 6, 6, 5, 7, 0} ELSE {6, 5}) : n >= 0 /\ Do([op |-> "set", i |-> i, arr |-> Arr(r, n, Len(h))])
       \/ \E f \in Pick(Names) : Do([op |-> "file", i |-> i, name |-> f])
       \/ Good(i) /\ \E r \in Pick(C6), k \in Pick(1..Len(st.c[i].arr[1])), v \in Pick({-5, 7}), via \in Pick({"array", "row"}) :
               (Rand \/ (r \in {2, 5} /\ v = 7)) /\ Do([op |-> "poke", i |-> i, r |-> r, k |-> k, v |-> v, via |-> via])
       \/ Good(i) /\ Do([op |-> "write", i |-> i])
       \/ Do([op |-> "read", i |-> i])
       \/ Good(i) /\ Do([op |-> "check", i |-> i])
Spec == Init /\ [][Next]_vars

Shaped == \A i \in I : Good(i) => WellFormed(st.c[i].arr)
OnDisk == \A i \in 1..Len(st.disk) : WellFormed(st.disk[i].arr) /\ st.disk[i].name # ""
\* reading back what was just written changes nothing
RoundTrip == \A i \in I : (Len(h) >= 1 /\ h[Len(h)].op = "write" /\ h[Len(h)].i = i) => Apply(st, [op |-> "read", i |-> i]) = st
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
