--------------------------------- MODULE Bunch ---------------------------------
(* Bunch settings and generated particles (rsbeams.rsptcls.bunch).

   b  the settings: cls, dist, npart, quiet, emitx, emity, betax, alphax, betay,
      alphay, stdz, dpop (and t, c, cutoff of a nonlinear bunch), and
      tr/lo: the settings the transverse/longitudinal coordinates were generated with
   Rationals; emittances in units the driver scales. kw: sequence of [k, v].       *)
EXTENDS Rat, Integers, Sequences

Numeric == {"emitx", "emity", "betax", "alphax", "betay", "alphay", "stdz", "dpop"}
OfInsert == {"t", "c", "cutoff"}
Gamma(a, b) == RDiv(RAdd(ROne, RMul(a, a)), b)
NoCoord == [done |-> FALSE]
Default(cls) == [cls |-> cls, dist |-> IF cls = "nonlinear" THEN "KV" ELSE "Gaussian", npart |-> 0, quiet |-> FALSE,
                 emitx |-> ROne, emity |-> ROne, betax |-> ROne, alphax |-> RZero, betay |-> ROne, alphay |-> RZero,
                 stdz |-> ROne, dpop |-> RZero, t |-> R(1, 10), c |-> R(1, 100), cutoff |-> RInt(4), tr |-> NoCoord, lo |-> NoCoord]
None == Default("none")

\* the two beta functions of a nonlinear bunch are one
SetOne(b, k, v) == CASE k \in {"betax", "betay"} /\ b.cls = "nonlinear" -> [b EXCEPT !.betax = v, !.betay = v]
                     [] OTHER -> [b EXCEPT ![k] = v]
RECURSIVE SetAll(_, _)
SetAll(b, kw) == IF kw = <<>> THEN b ELSE SetAll(SetOne(b, kw[1].k, kw[1].v), Tail(kw))
Allowed(k, v) == CASE k \in {"betax", "betay"} -> RLt(RZero, v)
                   [] k \in OfInsert -> RLe(RZero, v)
                   [] OTHER -> TRUE
Coord(b) == [done |-> TRUE, dist |-> b.dist, quiet |-> b.quiet, emitx |-> b.emitx, emity |-> b.emity, betax |-> b.betax, alphax |-> b.alphax,
             betay |-> b.betay, alphay |-> b.alphay, t |-> b.t, c |-> b.c, cutoff |-> b.cutoff]
Length(b) == [done |-> TRUE, stdz |-> b.stdz, dpop |-> b.dpop]

\* what can be generated
Makable(b) == /\ b.dist = "KV" => b.emitx = b.emity
              /\ (b.quiet /\ ~(b.cls = "standard" /\ b.dist = "Gaussian")) => b.npart % 4 = 0
Target(b, e) == SetAll(b, e.kw)
Legal(b, e) == CASE e.op = "set" -> Allowed(e.kw[1].k, e.kw[1].v)
                 [] e.op = "transverse" -> Makable(Target(b, e))
                 [] OTHER -> TRUE
Apply(b, e) ==
    CASE e.op = "new" -> SetAll([Default(e.cls) EXCEPT !.npart = e.npart], e.kw)
      [] e.op = "set" -> IF Legal(b, e) THEN SetAll(b, e.kw) ELSE b
      [] e.op = "transverse" -> LET w == Target(b, e) IN IF Makable(w) THEN [w EXCEPT !.tr = Coord(w)] ELSE w
      [] e.op = "longitudinal" -> LET w == Target(b, e) IN [w EXCEPT !.lo = Length(w)]
      [] OTHER -> b

\* the total emittance of the generated distribution
Total(b, s) == CASE s.dist # "KV" -> RAdd(s.emitx, s.emity)
                 [] b.cls = "standard" -> RMul(RInt(4), s.emitx)
                 [] OTHER -> s.emitx

------------------------------------------------------------------------------
(* obs  get    the settings as read from the attributes
        twiss  [betax, betay, alphax, alphay, gammax, gammay] as printed
        shape  <<rows, columns>>; ids the identifiers, as runs of consecutive ones (first, last)
        same   1 when two bunches made with the same seed and calls agree
   after "transverse": other (the remaining columns unchanged) and
        scale  Gaussian: squared ratios of the columns to a bunch of unit settings made with the same random numbers
        form   coefficients of x^2, x x', x'^2, y^2, y y', y'^2 in the quadratic form which is one on every particle
        hmin, hmax, pos, small   H over the total emittance on the particles
        own    1 when the bunch's own Hamiltonian of every particle is that
        sum    the column sums
   after "longitudinal": other, scale (two values)                                  *)
Get(b, o) ==
    CASE \E k \in Numeric : ~RSame(o.get[k], b[k]) -> CHOOSE k \in Numeric : ~RSame(o.get[k], b[k])
      [] b.cls = "nonlinear" /\ \E k \in OfInsert : ~RSame(o.get[k], b[k]) -> CHOOSE k \in OfInsert : ~RSame(o.get[k], b[k])
      [] o.get.quiet # b.quiet -> "quiet"
      [] o.get.dist # b.dist -> "dist"
      [] \E k \in {"betax", "betay", "alphax", "alphay"} : ~RSame(o.twiss[k], b[k]) -> "printed-twiss"
      [] ~RSame(o.twiss.gammax, Gamma(b.alphax, b.betax)) -> "gammax"
      [] ~RSame(o.twiss.gammay, Gamma(b.alphay, b.betay)) -> "gammay"
      [] o.shape # <<b.npart, 7>> -> "particle-count"
      [] o.ids # <<<<0, b.npart - 1>>>> -> "identifiers"
      [] OTHER -> "ok"

GaussClause(s, e) ==
    CASE ~RSame(e.scale[1], RMul(s.emitx, s.betax)) -> "x-size"
      [] ~RSame(e.scale[2], RMul(s.emitx, Gamma(s.alphax, s.betax))) -> "xp-size"
      [] ~RSame(e.scale[3], RMul(s.emity, s.betay)) -> "y-size"
      [] ~RSame(e.scale[4], RMul(s.emity, Gamma(s.alphay, s.betay))) -> "yp-size"
      [] OTHER -> "ok"
Form(s, tot) == <<RDiv(Gamma(s.alphax, s.betax), RMul(RInt(2), tot)), RDiv(s.alphax, tot), RDiv(s.betax, RMul(RInt(2), tot)),
                  RDiv(Gamma(s.alphay, s.betay), RMul(RInt(2), tot)), RDiv(s.alphay, tot), RDiv(s.betay, RMul(RInt(2), tot))>>
Quadratic(b, s) == s.dist = "KV" /\ (b.cls = "standard" \/ s.t = RZero)
ShellClause(b, s, e) ==
    LET tot == Total(b, s)
        top == IF s.dist = "Gaussian" THEN s.cutoff ELSE ROne
    IN  CASE Quadratic(b, s) /\ e.fit /\ \E i \in 1..6 : ~RSame(e.form[i], Form(s, tot)[i]) -> "shell"
          [] s.dist = "KV" /\ ~(RSame(e.hmin, ROne) /\ RSame(e.hmax, ROne)) -> "invariant"
          [] s.dist # "KV" /\ e.pos # 1 -> "invariant-not-positive"
          [] s.dist # "KV" /\ ~RLe(<<e.hmax[1], e.hmax[2]>>, top) -> "beyond-the-edge"
          [] s.dist # "KV" /\ e.fit /\ ~RLe(RMul(R(1, 4), top), <<e.hmax[1], e.hmax[2]>>) -> "too-small"
          [] e.own # 1 -> "hamiltonian"
          [] ~RSame(e.total, tot) -> "total-emittance"
          [] s.quiet /\ \E i \in 1..4 : ~RSame(e.sum[i], RZero) -> "centroid"
          [] OTHER -> "ok"
MadeClause(b, e) ==
    CASE e.other # 1 -> "other-columns-changed"
      [] e.same # 1 -> "seed-ignored"
      [] e.op = "longitudinal" /\ ~RSame(e.scale[1], RMul(b.stdz, b.stdz)) -> "z-size"
      [] e.op = "longitudinal" /\ ~RSame(e.scale[2], RMul(b.dpop, b.dpop)) -> "dpop-size"
      [] e.op = "transverse" /\ b.cls = "standard" /\ b.dist = "Gaussian" -> GaussClause(b.tr, e)
      [] e.op = "transverse" -> ShellClause(b, b.tr, e)
      [] OTHER -> "ok"

BunchInit(t) == None
BunchStep(b, e) == Apply(b, e)
BunchVerdict(b, e) ==
    LET w == Apply(b, e)
    IN  CASE ~Legal(b, e) /\ e.status = "ok" -> e.op \o "-accepted"
          [] Legal(b, e) /\ e.status # "ok" -> e.op \o "-" \o e.status
          [] Get(w, e.obs) # "ok" -> e.op \o "-" \o Get(w, e.obs)
          [] Legal(b, e) /\ e.op \in {"transverse", "longitudinal"} /\ MadeClause(w, e) # "ok" -> e.op \o "-" \o MadeClause(w, e)
          [] OTHER -> "ok"
=============================================================================
