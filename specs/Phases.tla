-------------------------------- MODULE Phases --------------------------------
(* Phase advance and tune of single particles (rsbeams.rsptcls.phases).

   Linear motion: a particle at z = <<x, x'>> moves through sections whose matrix is
   cos I + sin J for a rotation <<cos, sin>> (rational), J = <<alpha, beta; -gamma, -alpha>>.
   start, now: first and present coordinates; turn: rotation from start to now, turn by turn;
   all rotations in the sense of the motion (clockwise in phase space).                    *)
EXTENDS Rat, Integers, Sequences

Gamma(a, b) == RDiv(RAdd(ROne, RMul(a, a)), b)
Matrix(a, b, r) == <<RAdd(r[1], RMul(a, r[2])), RMul(b, r[2]), RNeg(RMul(Gamma(a, b), r[2])), RSub(r[1], RMul(a, r[2]))>>
Move(a, b, r, z) == LET m == Matrix(a, b, r) IN <<RAdd(RMul(m[1], z[1]), RMul(m[2], z[2])), RAdd(RMul(m[3], z[1]), RMul(m[4], z[2]))>>
\* normalized coordinates, up to the common factor 1/sqrt(beta)
Normal(a, b, z) == <<z[1], RAdd(RMul(a, z[1]), RMul(b, z[2]))>>
Turn(r, q) == <<RSub(RMul(r[1], q[1]), RMul(r[2], q[2])), RAdd(RMul(r[1], q[2]), RMul(r[2], q[1]))>>
Back(r) == <<r[1], RNeg(r[2])>>
None == <<ROne, RZero>>
\* clockwise rotation of a normalized vector
Rotated(r, v) == <<RAdd(RMul(r[1], v[1]), RMul(r[2], v[2])), RSub(RMul(r[1], v[2]), RMul(r[2], v[1]))>>
Action(a, b, z) == RAdd(RMul(Gamma(a, b), RMul(z[1], z[1])), RAdd(RMul(RInt(2), RMul(a, RMul(z[1], z[2]))), RMul(b, RMul(z[2], z[2]))))

(* Signals: n samples of a sum of lines [j, a] (frequency j/n, amplitude a; j = 0 a constant);
   in the spectrum a line is worth its amplitude twice unless it is its own mirror image      *)
Fold(j, n) == IF 2 * j > n THEN n - j ELSE j
Worth(l, n) == IF l.j = 0 \/ 2 * l.j = n THEN 2 * l.a ELSE l.a
Strongest(ls, n) == CHOOSE l \in ls : \A k \in ls : Worth(k, n) <= Worth(l, n)
Tune(ls, n) == R(Fold(Strongest(ls, n).j, n), n)
\* the lines are apart, and one is clearly the strongest
Clear(ls, n) == /\ \A k, l \in ls : Fold(k.j, n) = Fold(l.j, n) => k = l
                /\ \A k \in ls : k # Strongest(ls, n) => 5 * Worth(k, n) <= 4 * Worth(Strongest(ls, n), n)
------------------------------------------------------------------------------
(* e: op "start" a, b, z
      op "turn"  r;  obs: step, total, back, ccw: <<cos, sin>> of the angles returned for consecutive turns, from the start,
                          for the vectors exchanged and exchanged counterclockwise; ranged: all within [0, 2 pi]
      op "tune"  n, ls;              obs: q
      op "free"  n, k (tune k / (8 n)); obs: q                                                              *)
PhasesInit(t) == [a |-> RZero, b |-> ROne, start |-> <<ROne, RZero>>, now |-> <<ROne, RZero>>, rot |-> None]
PhasesStep(s, e) ==
    CASE e.op = "start" -> [a |-> e.a, b |-> e.b, start |-> e.z, now |-> e.z, rot |-> None]
      [] e.op = "turn" -> [s EXCEPT !.now = Move(s.a, s.b, e.r, @), !.rot = Turn(@, e.r)]
      [] OTHER -> s
Is(obs, r) == RSame(obs[1], r[1]) /\ RSame(obs[2], r[2])
PhasesVerdict(s, e) ==
    CASE e.status # "ok" -> "refused"
      [] e.op = "start" -> "ok"
      [] e.op = "turn" ->
            (CASE e.ranged # 1 -> "range"
               [] ~Is(e.step, e.r) -> "step"
               [] ~Is(e.total, Turn(s.rot, e.r)) -> "total"
               [] ~Is(e.back, Back(e.r)) -> "exchange"
               [] ~Is(e.ccw, e.r) -> "counterclockwise"
               [] ~Is(e.other, Back(e.r)) -> "sense"
               [] e.kept # 1 -> "input-changed"
               [] OTHER -> "ok")
      [] e.op = "tune" -> IF RSame(e.q, Tune({e.ls[i] : i \in 1..Len(e.ls)}, e.n)) /\ e.kept = 1 THEN "ok" ELSE "tune"
      [] OTHER -> IF e.q[3] = 1 /\ RLt(RSub(<<e.q[1], e.q[2]>>, R(e.k, 8 * e.n)), R(1, e.n)) /\ RLt(RSub(R(e.k, 8 * e.n), <<e.q[1], e.q[2]>>), R(1, e.n))
                  THEN "ok" ELSE "resolution"
===============================================================================
