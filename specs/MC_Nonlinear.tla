----------------------------- MODULE MC_Nonlinear -----------------------------
EXTENDS Nonlinear, TLC, Json

CONSTANTS Ls, Tns, Ks, Ts, Cs, Ns, MaxIns, Depth, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES ins, h
vars == <<ins, h>>
Init == ins = New /\ h = <<>>
Do(e) == ins' = Apply(ins, e) /\ h' = Append(h, e)
I == 1..Len(ins)
Make == Len(ins) < MaxIns /\ \E l \in Pick(Ls), tn \in Pick(Tns), k \in Pick(Ks), t \in Pick(Ts), c \in Pick({x \in Cs : x[1] >= 0}), n \in Pick(Ns) :
            Do([op |-> "new", p |-> [l |-> l, tn |-> tn, k |-> k, t |-> t, c |-> c, n |-> n]])
Vals(k) == CASE k = "l" -> Ls [] k = "t" -> Ts [] k = "c" -> Cs [] k = "n" -> {<<n, 1>> : n \in Ns}
             [] k = "phase" -> {<<t[1], t[2], q>> : t \in Tns, q \in Ks}
Set == ins # <<>> /\ \E i \in Pick(I), k \in Pick({"l", "phase", "t", "c", "n"}) : \E v \in Pick(Vals(k)) :
            Do([op |-> "set", i |-> i, k |-> k, v |-> v])
Gen == ins # <<>> /\ \E i \in Pick(I) : Do([op |-> "gen", i |-> i])
Madx == ins # <<>> /\ \E i \in Pick(I) : ins[i].seq # <<>> /\ Do([op |-> "madx", i |-> i])
Next == Len(h) < Depth /\ (Make \/ Set \/ Gen \/ Madx \/ (Rand /\ h # <<>> /\ UNCHANGED vars))
Spec == Init /\ [][Next]_vars

\* symmetric about the centre, inside the insert, evenly spaced; knll beta and cnll^2 / beta are the same for all magnets
Shape == \A i \in I : ins[i].seq # <<>> =>
    LET m == ins[i].seq[1].mags
        N == Len(m)
    IN  /\ \A j \in 1..N : /\ m[j].beta = m[N + 1 - j].beta /\ m[j].knll = m[N + 1 - j].knll
                           /\ RLt(RZero, m[j].beta) /\ RLe(m[j].beta, ins[i].seq[1].beta0)
                           /\ RMul(m[j].knll, m[j].beta) = RMul(m[1].knll, m[1].beta)
        /\ \A j \in 1..(N - 1) : RSub(m[j + 1].s, m[j].s) = RMul(RInt(2), m[1].s)
\* what is generated depends on the parameters in force only
Fresh == \A i \in I : (h # <<>> /\ h[Len(h)].op = "gen" /\ h[Len(h)].i = i) => ins[i].seq = Generate(ins[i].p)
NonNegative == \A i \in I : ins[i].p.c[1] >= 0
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
