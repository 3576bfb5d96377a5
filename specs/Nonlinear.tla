------------------------------- MODULE Nonlinear -------------------------------
(* The nonlinear insert (rsbeams.rslattice.nonlinear).

   ins[i]  [p, seq]: the design parameters in force and the sequence generated last
   p       [l, tn, k, t, c, n]: length, tangent of the phase advance (phase =
           atan(tn)/pi + k), strength, aperture, number of slices
   seq     <<>> or <<[beta0, mags]>>, a magnet [s, beta, knll, c2]; the aperture
           parameter is given by its square; knll and c2 in units of 10^-4

   With S = sin^2 and D = |sin| of twice the phase advance the beta function at
   the position u (relative to the length) is l (1 - 4 u (1 - u) S) / D.          *)
EXTENDS Rat, Integers, Sequences

SinSq(p) == LET q == RMul(p.tn, p.tn) IN RDiv(q, RAdd(ROne, q))
SinTwo(p) == LET q == RMul(p.tn, p.tn) IN RDiv(RMul(RInt(2), R(RAbs(p.tn[1]), p.tn[2])), RAdd(ROne, q))
Beta(p, u) == RMul(p.l, RDiv(RSub(ROne, RMul(RInt(4), RMul(RMul(u, RSub(ROne, u)), SinSq(p)))), SinTwo(p)))
Pos(p, i) == R(2 * i - 1, 2 * p.n)
Magnet(p, i) == LET b == Beta(p, Pos(p, i))
                    cc == RMul(RMul(p.c, p.c), RInt(10000))
                IN  [s |-> RMul(Pos(p, i), p.l), beta |-> b, c2 |-> RMul(cc, b),
                     knll |-> RDiv(RMul(RMul(p.t, cc), R(p.l[1], p.l[2] * p.n)), b)]
Generate(p) == <<[beta0 |-> Beta(p, RZero), mags |-> [i \in 1..p.n |-> Magnet(p, i)]]>>

New == <<>>
Legal(e) == ~(e.op = "set" /\ e.k = "c" /\ e.v[1] < 0)
SetPar(p, k, v) == CASE k = "n" -> [p EXCEPT !.n = v[1]]
                     [] k = "phase" -> [p EXCEPT !.tn = <<v[1], v[2]>>, !.k = v[3]]
                     [] OTHER -> [p EXCEPT ![k] = v]
Apply(ins, e) ==
    CASE e.op = "new" -> Append(ins, [p |-> e.p, seq |-> <<>>])
      [] e.op = "set" -> IF Legal(e) THEN [ins EXCEPT ![e.i].p = SetPar(@, e.k, e.v)] ELSE ins
      [] e.op = "gen" -> [ins EXCEPT ![e.i].seq = Generate(ins[e.i].p)]
      [] OTHER -> ins

------------------------------------------------------------------------------
(* obs: for every insert [p, seq] as read from its attributes; the phase as given.
   madx: sequence of [knll, c2]                                                   *)
ParClause(o, p) ==
    CASE ~RSame(o.l, p.l) -> "length"
      [] ~RSame(o.t, p.t) -> "strength"
      [] ~RSame(o.c, p.c) -> "aperture"
      [] o.n # p.n -> "slices"
      [] ~(RSame(o.tn, p.tn) /\ o.k = p.k) -> "phase"
      [] OTHER -> "ok"
MagClause(o, m) ==
    CASE ~RSame(o.s, m.s) -> "position"
      [] ~RSame(o.beta, m.beta) -> "beta"
      [] ~RSame(o.knll, m.knll) -> "knll"
      [] ~RSame(o.c2, m.c2) -> "cnll"
      [] OTHER -> "ok"
SeqClause(o, w) ==
    CASE Len(o) # Len(w) -> "generated"
      [] w = <<>> -> "ok"
      [] Len(o[1].mags) # Len(w[1].mags) -> "magnet-count"
      [] ~RSame(o[1].beta0, w[1].beta0) -> "beta0"
      [] \E i \in 1..Len(w[1].mags) : MagClause(o[1].mags[i], w[1].mags[i]) # "ok" ->
            LET i == CHOOSE x \in 1..Len(w[1].mags) : MagClause(o[1].mags[x], w[1].mags[x]) # "ok" IN MagClause(o[1].mags[i], w[1].mags[i])
      [] OTHER -> "ok"
InsClause(o, w) == LET c == ParClause(o.p, w.p) IN IF c # "ok" THEN c ELSE SeqClause(o.seq, w.seq)

NonlinearInit(t) == New
NonlinearStep(ins, e) == Apply(ins, e)
NonlinearVerdict(ins, e) ==
    LET w == Apply(ins, e)
    IN  CASE ~Legal(e) /\ e.status = "ok" -> "negative-aperture-accepted"
          [] Legal(e) /\ e.status # "ok" -> e.op \o "-" \o e.status
          [] e.op = "madx" /\ Len(e.madx) # Len(ins[e.i].seq[1].mags) -> "madx-count"
          [] e.op = "madx" /\ \E i \in 1..Len(e.madx) : LET m == ins[e.i].seq[1].mags[i]
                                                          IN ~RSame(e.madx[i].knll, m.knll) \/ ~RSame(e.madx[i].c2, m.c2) -> "madx-value"
          [] Len(e.obs) # Len(w) -> "inserts"
          [] \E i \in 1..Len(w) : InsClause(e.obs[i], w[i]) # "ok" ->
                LET i == CHOOSE x \in 1..Len(w) : InsClause(e.obs[x], w[x]) # "ok" IN InsClause(e.obs[i], w[i])
          [] OTHER -> "ok"
=============================================================================
