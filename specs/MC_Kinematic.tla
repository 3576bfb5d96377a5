----------------------------- MODULE MC_Kinematic -----------------------------
(* All bounded histories of creating and calling converters.  MaxObj objects,
   at most MaxCalls calls in total, configurations from the constant grids.   *)
EXTENDS Kinematic, TLC, Json

CONSTANTS MaxObj, MaxCalls, Triples, Masses, Full

Grid == [t : Triples, m : Masses, q : QSet, iu : Units, mu : Units, ou : Units]
Cfg(g) == [a |-> g.t[1], b |-> g.t[2], c |-> g.t[3], mn |-> g.m[1], md |-> g.m[2],
           q |-> g.q, iu |-> g.iu, mu |-> g.mu, ou |-> g.ou]

VARIABLES obj, calls, h
vars == <<obj, calls, h>>
Init == obj = <<>> /\ calls = 0 /\ h = <<>>

\* with Full = FALSE later objects reuse a reduced grid so that histories stay enumerable
Create(g) == /\ Len(obj) < MaxObj /\ calls < MaxCalls
             /\ obj' = Append(obj, Cfg(g))
             /\ h' = Append(h, [op |-> "create", o |-> Len(obj) + 1, cfg |-> Cfg(g)])
             /\ UNCHANGED calls
Call(o) == /\ calls < MaxCalls
           /\ calls' = calls + 1
           /\ h' = Append(h, [op |-> "call", o |-> o])
           /\ UNCHANGED obj
SmallGrid == {g \in Grid : /\ g.q \in {"momentum", "kenergy", "gamma"} /\ g.mu = g.iu}
Next == \/ \E g \in (IF Full THEN Grid ELSE SmallGrid) : Create(g)
        \/ \E o \in 1..Len(obj) : Call(o)
Spec == Init /\ [][Next]_vars

ModelConsistent == \A i \in 1..Len(obj) : Consistent(obj[i])
\* started from any one of its own quantities, a configuration has one set of values
Unique == \A i, j \in 1..Len(obj) :
             (obj[i].mn = obj[j].mn /\ obj[i].md = obj[j].md
                /\ \E q \in QSet : Value(obj[i], q) = Value(obj[j], q))
             => \A q \in QSet : Value(obj[i], q) = Value(obj[j], q)
Done == calls = MaxCalls
Emit == Done => PrintT("@@" \o ToJson(h))
=============================================================================
