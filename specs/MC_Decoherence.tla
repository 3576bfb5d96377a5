----------------------------- MODULE MC_Decoherence -----------------------------
EXTENDS Decoherence, TLC, Json

\* Mode "pool": every schedule of the workers; "values": single evaluations
CONSTANTS Far, Turns, Sizes, Workers, Js, Ms, Zs, Depth, Mode, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES n, size, next, busy, done, h
vars == <<n, size, next, busy, done, h>>
Value(t) == 100 + t      \* what the integration of turn t gives
Init == /\ n \in IF Mode = "pool" THEN Turns ELSE {0}
        /\ size \in IF Mode = "pool" THEN Sizes ELSE {1}
        /\ next = 1 /\ busy = [w \in Workers |-> 0] /\ done = <<>> /\ h = <<>>
Take(w) == /\ busy[w] = 0 /\ next <= Len(Chunks(n, size))
           /\ busy' = [busy EXCEPT ![w] = next] /\ next' = next + 1 /\ UNCHANGED <<n, size, done, h>>
\* workers are alike: the lowest idle one takes the next chunk
Lowest(w) == \A v \in Workers : v < w => busy[v] # 0
Finish(w) == /\ busy[w] # 0 /\ done' = Append(done, busy[w]) /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED <<n, size, next, h>>
Pool == \E w \in Workers : (Lowest(w) /\ Take(w)) \/ Finish(w)
\* results by turn, whatever the order of completion
Result == [t \in 0..(n - 1) |-> IF \E i \in 1..Len(done) : t \in Chunks(n, size)[done[i]] THEN Value(t) ELSE 0]
Finished == Mode = "pool" /\ Len(done) = Len(Chunks(n, size))

MPick == IF Rand THEN LET k == RandomElement(0..6) IN {[i \in 1..k |-> RandomElement(Ms)]} ELSE UNION {[1..k -> Ms] : k \in 0..1}
New == \E t \in Pick(Turns), z \in Pick(Zs), j \in Pick(Js) : \E m \in MPick :
       n' = t /\ h' = Append(h, [op |-> "new", n |-> t, z |-> z, j |-> j, m |-> m])
Cur == h[1]
\* turns far beyond the ones simulated, as long as the cells resolve the oscillations
RECURSIVE Swing(_, _)
Swing(m, k) == IF k > Len(m) THEN 0 ELSE k * (IF m[k] < 0 THEN -m[k] ELSE m[k]) + Swing(m, k + 1)
Reach == (-1..n) \cup {t \in Far : t * Swing(Cur.m, 1) <= 320}
One == \E r \in Pick({"first", "second", "any"}), t \in Pick(Reach) : h' = Append(h, [op |-> "one", route |-> r, turn |-> t]) /\ UNCHANGED n
Values == Len(h) < Depth /\ (IF h = <<>> THEN New ELSE One) /\ UNCHANGED <<size, next, busy, done>>
Next == IF Mode = "pool" THEN Pool ELSE Values
Fair == IF Mode = "pool" THEN WF_vars(Pool) ELSE TRUE
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Pool)

InOrder == Finished => Result = [t \in 0..(n - 1) |-> Value(t)]
Once == \A i, k \in 1..Len(done) : done[i] = done[k] => i = k
Ends == <>Finished
\* the sum agrees with the closed form: in units of 1/10000
Agree == (Mode = "values" /\ h # <<>>) => \A t \in 1..n : Exact(t, Cur.j, Cur.m) =>
         LET P == PiAverage(t, Cur.j, Cur.m)
             A == Average(t, Cur.j, Cur.m)
             D == ((1000 * ((P[1] * 100000) \div P[2])) \div 31416) - (A \div 100)
         IN  D >= -20 /\ D <= 20
Bounded == (Mode = "values" /\ h # <<>>) => \A t \in 1..n : Average(t, Cur.j, Cur.m) \in -1000000..1000000
Emit == (Mode = "values" /\ Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h])))
        /\ (Finished => PrintT("@@" \o ToJson([n |-> n, size |-> size, done |-> done, workers |-> Cardinality(Workers)])))
=================================================================================
