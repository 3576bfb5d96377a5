------------------------------- MODULE Sampling -------------------------------
(* Sampling a tabulated density by inversion (rsbeams.rsstats.sample).

   A density is given by its positive or zero integer weights w on the m equally spaced
   points a = x_1 < ... < x_m = b; a call may rotate the weights by one argument and
   repeat them (multiply) by another.  A variate is <<num, den>> in [0, 1).
   calls: number of calls answered so far (a call leaves nothing behind)            *)
EXTENDS Rat, Integers, Sequences, FiniteSets

RECURSIVE Sum(_, _)
Sum(w, k) == IF k = 0 THEN 0 ELSE w[k] + Sum(w, k - 1)
Total(w) == Sum(w, Len(w))
Rotate(w, s) == [k \in 1..Len(w) |-> w[((k - 1 + s) % Len(w)) + 1]]
\* arguments reach the density as given: none, one (rotation), two (rotation, second factor on the first weight)
Seen(w, args) == CASE Len(args) = 0 -> w
                   [] Len(args) = 1 -> Rotate(w, args[1])
                   [] OTHER -> [Rotate(w, args[1]) EXCEPT ![1] = @ * args[2]]
Cdf(w) == [k \in 1..Len(w) |-> <<Sum(w, k), Total(w)>>]
\* smallest k with y <= Sum(w, k) / Total(w)
Before(y, w, k) == y[1] * Total(w) <= Sum(w, k) * y[2]
Index(w, y) == CHOOSE k \in 1..Len(w) : Before(y, w, k) /\ \A j \in 1..(k - 1) : ~Before(y, w, j)
Grid(a, b, m, k) == R(a * (m - 1) + (b - a) * (k - 1), m - 1)
Numeric(a, b, w, y) == Grid(a, b, Len(w), Index(w, y))

Uniform(w) == w[1] > 0 /\ \A k \in 1..Len(w) : w[k] = w[1]
\* straight density, not steep: a smooth inverse
Smooth(w) == /\ w[1] > 0 /\ w[Len(w)] > 0 /\ \A k \in 2..(Len(w) - 1) : w[k + 1] - w[k] = w[k] - w[k - 1]
             /\ w[1] <= 3 * w[Len(w)] /\ w[Len(w)] <= 3 * w[1]
Nodes(w) == {k \in 1..Len(w) : TRUE}
\* the cubic interpolation needs four different values of the CDF
Invertible(w) == Len(w) >= 4 /\ \A k \in 2..Len(w) : w[k] > 0
IsNode(w, y) == \E k \in 1..Len(w) : y[1] * Total(w) = Sum(w, k) * y[2]
NodeOf(w, y) == CHOOSE k \in 1..Len(w) : y[1] * Total(w) = Sum(w, k) * y[2]

\* what is known of the value at y: exactly x (x[2] > 0), or between grid points lo and hi
Interpolated(a, b, w, y) ==
    LET m == Len(w)
        exact(x) == [x |-> x, lo |-> 1, hi |-> m]
        nothing == [x |-> <<0, 0>>, lo |-> 1, hi |-> m]
    IN  CASE y[1] * Total(w) <= w[1] * y[2] -> exact(RInt(a))
          [] Invertible(w) /\ IsNode(w, y) -> exact(Grid(a, b, m, NodeOf(w, y)))
          [] Uniform(w) -> exact(RAdd(RInt(a), R((b - a) * (m * y[1] - y[2]), y[2] * (m - 1))))
          [] Smooth(w) -> [nothing EXCEPT !.lo = Index(w, y) - 1, !.hi = Index(w, y)]
          [] OTHER -> nothing

Callable(e) == e.callable /\ e.method \in {"random", "halton"} /\ e.invert \in {"numeric", "interpolate"}
MayRefuse(e) == ~Callable(e) \/ (e.invert = "interpolate" /\ ~Invertible(Seen(e.w, e.args)))
MustRefuse(e) == ~Callable(e)

------------------------------------------------------------------------------
(* e: op "cdf"    w, args;                       obs: the values (rationals with flag)
   e: op "sample" w, args, a, b, method, invert, ys (method random), n, callable;
                 obs: status, shape, xs (rationals with flag), pos (1000 (x-a)(m-1)/(b-a), rounded down), inside (all in [a, b]),
                      counts (how often every grid point was returned),
                      above (numbers above a), distinct (different numbers above a)
   e: op "default" a uniform sample on many points (the default of 10000, or m): a, b, ys as multiples of 1/m;
                 obs: xs in grid steps from a
      long: so many times ys was handed out in one call;  obs: rep: the answers repeat with ys                               *)
SamplingInit(t) == [calls |-> 0]
SamplingStep(s, e) == [calls |-> s.calls + 1]
Slack == 3
OneNumeric(e, w, i) == RSame(e.xs[i], Numeric(e.a, e.b, w, e.ys[i]))
OneInterpolated(e, w, i) ==
    LET want == Interpolated(e.a, e.b, w, e.ys[i])
    IN  IF want.x[2] > 0 THEN RSame(e.xs[i], want.x)
        ELSE e.pos[i] >= 1000 * (want.lo - 1) - Slack /\ e.pos[i] <= 1000 * (want.hi - 1) + Slack
Ordered(e, w) == Smooth(w) => \A i, j \in 1..Len(e.ys) : e.ys[i][1] * e.ys[j][2] <= e.ys[j][1] * e.ys[i][2] => e.pos[i] <= e.pos[j] + 1
RECURSIVE IsPower(_)
IsPower(n) == n = 1 \/ (n % 2 = 0 /\ IsPower(n \div 2))
\* a stratified sequence of n points puts n w_k / total of them on point k; total divides n
Stratified(e, w) == e.invert = "numeric" /\ IsPower(Total(w)) /\ IsPower(e.n) /\ e.n % Total(w) = 0
SamplingVerdict(s, e) ==
    LET w == IF e.op = "default" THEN <<>> ELSE Seen(e.w, e.args) IN
    IF e.op = "cdf" THEN
        CASE e.status # "ok" -> "refused"
          [] Len(e.vals) # Len(w) -> "length"
          [] \E k \in 1..Len(w) : ~RSame(e.vals[k], R(Cdf(w)[k][1], Cdf(w)[k][2])) -> "cdf"
          [] e.last # 1 -> "last"
          [] OTHER -> "ok"
    ELSE IF e.op = "default" THEN
        CASE e.status # "ok" -> "refused"
          [] e.shape # <<Len(e.ys)>> -> "shape"
          [] \E i \in 1..Len(e.ys) : ~RSame(e.xs[i], IF e.ys[i] < 1 THEN RInt(0) ELSE RInt(e.ys[i] - 1)) -> "default-grid"
          [] OTHER -> "ok"
    ELSE
        CASE MustRefuse(e) /\ e.status = "ok" -> "accepted"
          [] e.status \notin {"ok"} -> IF MayRefuse(e) /\ e.status # "hang" THEN "ok" ELSE "refused"
          [] e.shape # <<e.n>> -> "shape"
          [] e.rep # 1 -> "repeats"
          [] e.inside # 1 -> "outside"
          [] e.method = "random" /\ e.invert = "numeric" /\ \E i \in 1..Len(e.ys) : ~OneNumeric(e, w, i) -> "inverse"
          [] e.method = "random" /\ e.invert = "interpolate" /\ \E i \in 1..Len(e.ys) : ~OneInterpolated(e, w, i) -> "interpolation"
          [] e.method = "random" /\ e.invert = "interpolate" /\ ~Ordered(e, w) -> "order"
          [] e.invert = "numeric" /\ Sum(e.counts, Len(e.counts)) # e.n -> "off-grid"
          [] e.invert = "numeric" /\ \E k \in 1..Len(w) : w[k] = 0 /\ e.counts[k] # 0 -> "zero-density"
          [] e.method = "halton" /\ Stratified(e, w) /\ \E k \in 1..Len(w) : e.counts[k] * Total(w) # e.n * w[k] -> "stratification"
          \* no point of a Halton sequence comes twice
          [] e.method = "halton" /\ e.invert = "interpolate" /\ Uniform(w) /\ Invertible(w) /\ e.distinct # e.above -> "repeated"
          [] OTHER -> "ok"
===============================================================================
