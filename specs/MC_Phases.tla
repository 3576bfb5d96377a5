------------------------------- MODULE MC_Phases -------------------------------
EXTENDS Phases, TLC, Json

CONSTANTS As, Bs, Zs, Rs, Ns, Depth, Mode, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES s, h
vars == <<s, h>>
Init == s = PhasesInit(0) /\ h = <<>>
Do(e) == s' = PhasesStep(s, e) /\ h' = Append(h, e)
Start == \E a \in Pick(As), b \in Pick(Bs), z \in Pick(Zs) : Do([op |-> "start", a |-> a, b |-> b, z |-> z])
Move1 == \E r \in Pick(Rs) : Do([op |-> "turn", r |-> r])
\* up to three lines, every one weaker than the one before
Lines(n) == LET j1 == RandomElement(1..(n - 1))
                j2 == RandomElement(0..(n - 1))
                j3 == RandomElement(0..(n - 1))
            IN  RandomElement({{[j |-> j1, a |-> 10]}, {[j |-> j1, a |-> 10], [j |-> j2, a |-> 4]}, {[j |-> j1, a |-> 10], [j |-> j2, a |-> 4], [j |-> j3, a |-> 3]}})
SetSeq(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x})
             IN F(S)
TuneOf == \E n \in Pick(Ns) :
          IF Rand THEN \E ls \in {Lines(n)} : Clear(ls, n) /\ Do([op |-> "tune", n |-> n, ls |-> SetSeq(ls)])
          ELSE \E j \in 1..(n - 1), k \in 0..(n - 1) : \E ls \in {{[j |-> j, a |-> 10], [j |-> k, a |-> 4]}} :
                    Clear(ls, n) /\ Do([op |-> "tune", n |-> n, ls |-> SetSeq(ls)])
Free == \E n \in Pick({x \in Ns : x >= 12 /\ x < 1000}) : \E k \in Pick(16..(4 * n - 16)) : Do([op |-> "free", n |-> n, k |-> k])
Next == Len(h) < Depth /\ IF Mode = "tune" THEN TuneOf \/ (Rand /\ Free) ELSE IF h = <<>> THEN Start ELSE Move1
Spec == Init /\ [][Next]_vars

\* the motion keeps the action and rotates the normalized coordinates by the phase advance
Conserved == Action(s.a, s.b, s.now) = Action(s.a, s.b, s.start)
Rotation == Normal(s.a, s.b, s.now) = Rotated(s.rot, Normal(s.a, s.b, s.start))
Unit == RAdd(RMul(s.rot[1], s.rot[1]), RMul(s.rot[2], s.rot[2])) = ROne
Half == Len(h) > 0 => LET e == h[Len(h)] IN e.op = "tune" => LET q == Tune({e.ls[i] : i \in 1..Len(e.ls)}, e.n) IN RLe(RZero, q) /\ RLe(q, R(1, 2))
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
================================================================================
