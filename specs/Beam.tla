---------------------------------- MODULE Beam ----------------------------------
(* Moments of generated 6D beams (rsbeams.rsptcls: RsDistrib6D, RsPtclBeam6D, RsTwiss2D).

   st  [kind, n, mean, cov, fac, type, pm]
       kind "std": the beam has the means and covariances given (in units the driver scales);
            "raw": just sampled, only the shape of the distribution is known; "none"
       pm   momentum over mass of a RsPtclBeam6D, <<0, 1>> for a plain distribution
   A Twiss triple is [a, b, e]: alpha, beta, emittance.                             *)
EXTENDS Rat, Integers, Sequences
LOCAL INSTANCE TLC

C6 == 1..6
Types == {"uniform", "gaussian"}
Gamma(t) == RDiv(RAdd(ROne, RMul(t.a, t.a)), t.b)
RSq(v) == RMul(v, v)
RSgnSq(v) == IF v[1] < 0 THEN RNeg(RSq(v)) ELSE RSq(v)
Ident == [i \in C6 |-> [j \in C6 |-> IF i = j THEN ROne ELSE RZero]]
NoMean == [i \in C6 |-> RZero]
None == [kind |-> "none", n |-> 0, mean |-> NoMean, cov |-> Ident, fac |-> RZero, type |-> "", pm |-> RZero]
Plane(i) == (i + 1) \div 2

\* every plane is an upright circle: what a matching needs to be exact
Round(st) == st.kind = "std" /\ st.mean = NoMean
             /\ \A p \in 1..3 : /\ st.cov[2 * p - 1][2 * p - 1] = st.cov[2 * p][2 * p]
                                /\ st.cov[2 * p - 1][2 * p] = RZero
MatchedCov(cov, tw) == TLCEval([i \in C6 |-> [j \in C6 |->
    IF Plane(i) # Plane(j) THEN RZero
    ELSE LET t == tw[Plane(i)]
             s == RMul(cov[i][i], t.e)
         IN  IF i # j THEN RNeg(RMul(s, t.a)) ELSE IF i % 2 = 1 THEN RMul(s, t.b) ELSE RMul(s, Gamma(t))]])
Det(st, p) == RSub(RMul(st.cov[2 * p - 1][2 * p - 1], st.cov[2 * p][2 * p]), RSq(st.cov[2 * p - 1][2 * p]))
Alive(st) == \A p \in 1..3 : Det(st, p) # RZero

Legal(st, e) ==
    CASE e.op \in {"new", "beam"} -> e.type \in Types /\ e.n > 0 /\ RLt(RZero, e.fac)
      [] e.op \in {"offset", "mult"} -> e.i \in C6
      [] e.op = "calc" -> Alive(st)
      [] OTHER -> TRUE
Fresh(e) == [kind |-> "std", n |-> e.n, mean |-> NoMean, cov |-> Ident, fac |-> e.fac, type |-> e.type, pm |-> IF e.op = "beam" THEN e.pm ELSE RZero]
Apply(st, e) ==
    IF ~Legal(st, e) THEN st
    ELSE CASE e.op = "new" -> Fresh(e)
           [] e.op = "beam" -> [Fresh(e) EXCEPT !.cov = MatchedCov(Ident, e.tw)]
           [] e.op = "twiss" -> [st EXCEPT !.cov = MatchedCov(@, e.tw)]
           [] e.op = "offset" -> [st EXCEPT !.mean[e.i] = RAdd(@, e.v)]
           [] e.op = "mult" -> [st EXCEPT !.mean[e.i] = RMul(@, e.v),
                                          !.cov = TLCEval([i \in C6 |-> [j \in C6 |-> RMul(RMul(@[i][j], IF i = e.i THEN e.v ELSE ROne), IF j = e.i THEN e.v ELSE ROne)]])]
           [] e.op \in {"unif", "gauss"} -> [st EXCEPT !.kind = "raw", !.mean = NoMean, !.cov = Ident]
           [] e.op = "clean" -> [st EXCEPT !.kind = "std", !.mean = NoMean, !.cov = Ident]
           [] OTHER -> st

------------------------------------------------------------------------------
(* obs  [n, type, fac, mean, cov]  of the array and the getters
   "unif" / "gauss": inside = 1 when every triple is inside the unit ball (every
   value inside the truncation), distinct = 1 when no two particles agree
   "query": avg, rms (squared); "calc": per plane [a (signed square), b, e, g (squares)]
   "twiss" / "beam": tg, the gamma of the stored Twiss triples                       *)
BeamClause(st, o) ==
    CASE o.n # st.n -> "particle-count"
      [] o.type # st.type -> "type"
      [] ~RSame(o.fac, st.fac) -> "rms-factor"
      [] st.kind = "raw" -> "ok"
      [] \E i \in C6 : ~RSame(o.mean[i], st.mean[i]) -> "mean"
      [] \E i \in C6 : ~RSame(o.cov[i][i], st.cov[i][i]) -> "rms"
      [] \E i, j \in C6 : ~RSame(o.cov[i][j], st.cov[i][j]) -> "correlation"
      [] OTHER -> "ok"
CalcClause(st, e, p) ==
    LET d == Det(st, p)
        s(i, j) == st.cov[2 * p - 2 + i][2 * p - 2 + j]
        c == e.calc[p]
    IN  CASE ~RSame(c.e, d) -> "emittance"
          [] ~RSame(c.b, RDiv(RSq(s(1, 1)), d)) -> "beta"
          [] ~RSame(c.a, RDiv(RNeg(RSgnSq(s(1, 2))), d)) -> "alpha"
          [] ~RSame(c.g, RDiv(RSq(s(2, 2)), d)) -> "gamma"
          [] OTHER -> "ok"
\* gamma0^2 = 1 + pm^2
ResultClause(st, e) ==
    CASE e.op \in {"unif", "gauss"} /\ e.inside # 1 -> "outside"
      [] e.op \in {"unif", "gauss"} /\ e.distinct # 1 -> "repeated"
      [] e.op = "query" /\ \E i \in C6 : ~RSame(e.avg[i], st.mean[i]) -> "average"
      [] e.op = "query" /\ \E i \in C6 : ~RSame(e.rms[i], st.cov[i][i]) -> "rms"
      [] e.op = "calc" /\ \E p \in 1..3 : CalcClause(st, e, p) # "ok" -> CalcClause(st, e, CHOOSE p \in 1..3 : CalcClause(st, e, p) # "ok")
      [] e.op \in {"twiss", "beam"} /\ \E p \in 1..3 : ~RSame(e.tg[p], Gamma(e.tw[p])) -> "stored-gamma"
      [] e.op = "ref" /\ ~RSame(e.bg, st.pm) -> "beta-gamma"
      [] e.op = "ref" /\ ~RSame(e.g2, RAdd(ROne, RSq(st.pm))) -> "gamma0"
      [] e.op = "ref" /\ ~RSame(e.b2, RDiv(RSq(st.pm), RAdd(ROne, RSq(st.pm)))) -> "beta0"
      [] e.op = "ref" /\ ~RSame(e.i2, RDiv(RDiv(RSq(st.pm), RAdd(ROne, RSq(st.pm))), st.cov[5][5])) -> "peak-current"
      [] OTHER -> "ok"

BeamInit(t) == None
BeamStep(st, e) == Apply(st, e)
BeamVerdict(st, e) ==
    LET w == Apply(st, e)
    IN  CASE ~Legal(st, e) /\ e.status = "ok" -> e.op \o "-accepted"
          [] ~Legal(st, e) /\ e.op = "new" /\ e.n > 0 /\ RLt(RZero, e.fac) /\ ~e.named -> "refusal-does-not-name-the-type"
          [] Legal(st, e) /\ e.status # "ok" -> e.op \o "-" \o e.status
          [] w.kind = "none" -> "ok"
          [] BeamClause(w, e.obs) # "ok" -> e.op \o "-" \o BeamClause(w, e.obs)
          [] Legal(st, e) /\ ResultClause(w, e) # "ok" -> e.op \o "-" \o ResultClause(w, e)
          [] OTHER -> "ok"
=============================================================================
