--------------------------------- MODULE Stats ---------------------------------
(* Statistics and normalisation of a 6D particle array (rsbeams.rsstats.stats6d).

   st.kind "exact"  the value of coordinate i of particle k is X[i][k] / sqrt(S[i])
           "rot"    the array is known up to a rotation of the six coordinates: G is
                    the matrix of inner products of the particles, no correlations
           "white"  as "rot", every coordinate has unit RMS                         *)
EXTENDS Rat, Integers, Sequences
LOCAL INSTANCE TLC

C6 == 1..6
RSum(n, f(_)) == LET RECURSIVE go(_, _)
                     go(i, acc) == IF i = 0 THEN acc ELSE LET v == f(i) IN go(i - 1, IF v = RZero THEN acc ELSE RAdd(acc, v))
                 IN  go(n, RZero)
RSq(v) == RMul(v, v)
RSgnSq(v) == IF v[1] < 0 THEN RNeg(RSq(v)) ELSE RSq(v)

Np(X) == Len(X[1])
ISum(r) == LET RECURSIVE go(_, _)
               go(k, acc) == IF k = 0 THEN acc ELSE go(k - 1, acc + r[k])
           IN  go(Len(r), 0)
Dot(a, b) == LET RECURSIVE go(_, _)
                 go(k, acc) == IF k = 0 THEN acc ELSE go(k - 1, acc + a[k] * b[k])
             IN  go(Len(a), 0)
Mean(r) == R(ISum(r), Len(r))
\* n^2 times the covariance
Cov2(a, b) == Len(a) * Dot(a, b) - ISum(a) * ISum(b)
Cov(a, b) == R(Cov2(a, b), Len(a) * Len(a))
Var(r) == Cov(r, r)
Least(r) == CHOOSE v \in {r[k] : k \in 1..Len(r)} : \A k \in 1..Len(r) : v <= r[k]
Greatest(r) == CHOOSE v \in {r[k] : k \in 1..Len(r)} : \A k \in 1..Len(r) : r[k] <= v
\* n times the deviations from the mean
Centred(r) == LET s == ISum(r)
                  n == Len(r)
              IN  TLCEval([k \in 1..n |-> n * r[k] - s])
\* inverse of a positive definite matrix (elimination on the augmented matrix)
Augment(A) == TLCEval([i \in C6 |-> [j \in 1..12 |-> IF j <= 6 THEN A[i][j] ELSE IF j - 6 = i THEN ROne ELSE RZero]])
Eliminate(M, p) == LET row == TLCEval([j \in 1..12 |-> IF M[p][j] = RZero THEN RZero ELSE RDiv(M[p][j], M[p][p])])
                   IN  TLCEval([i \in C6 |-> IF i = p THEN row ELSE IF M[i][p] = RZero THEN M[i]
                                             ELSE [j \in 1..12 |-> IF row[j] = RZero THEN M[i][j] ELSE RSub(M[i][j], RMul(M[i][p], row[j]))]])
Inverse(A) == LET M == Eliminate(Eliminate(Eliminate(Eliminate(Eliminate(Eliminate(Augment(A), 1), 2), 3), 4), 5), 6)
              IN  TLCEval([i \in C6 |-> [j \in C6 |-> M[i][j + 6]]])

CovOf(X) == TLCEval([i \in C6 |-> [j \in C6 |-> Cov(X[i], X[j])]])
\* sum over coordinates of X[i][k] W[i][j] X[j][l]
Bilinear(X, W) == LET Y == TLCEval([i \in C6 |-> [l \in 1..Np(X) |-> RSum(6, LAMBDA j : IF W[i][j] = RZero THEN RZero ELSE RMul(W[i][j], RInt(X[j][l])))]])
                  IN  TLCEval([k \in 1..Np(X) |-> [l \in 1..Np(X) |-> RSum(6, LAMBDA i : RMul(RInt(X[i][k]), Y[i][l]))]])
Gram(st) == Bilinear(st.X, [i \in C6 |-> [j \in C6 |-> IF i = j THEN RInv(st.S[i]) ELSE RZero]])
CentredGram(G) == LET n == Len(G)
                      row == TLCEval([k \in 1..n |-> RDiv(RSum(n, LAMBDA l : G[k][l]), RInt(n))])
                      all == RDiv(RSum(n, LAMBDA l : row[l]), RInt(n))
                  IN  TLCEval([k \in 1..n |-> [l \in 1..n |-> RAdd(RSub(RSub(G[k][l], row[k]), row[l]), all)]])

Load(arr) == [kind |-> "exact", X |-> arr, S |-> [i \in C6 |-> ROne], G |-> <<>>]
Empty == [kind |-> "none", X |-> <<>>, S |-> <<>>, G |-> <<>>]
CentreRows(st) == LET n == Np(st.X)
                  IN  [st EXCEPT !.X = TLCEval([i \in C6 |-> IF ISum(@[i]) = 0 THEN @[i] ELSE Centred(@[i])]),
                                 !.S = TLCEval([i \in C6 |-> IF ISum(st.X[i]) = 0 THEN @[i] ELSE RMul(@[i], RInt(n * n))])]
SubAvg(st) == CASE st.kind = "exact" -> CentreRows(st)
                [] OTHER -> [CentreRows(st) EXCEPT !.G = CentredGram(@)]
\* a rotation does not change what whitening makes of the particles
Norm(st) == CASE st.kind = "exact" -> [st EXCEPT !.S = TLCEval([i \in C6 |-> Var(st.X[i])])]
              [] st.kind = "rot" -> [st EXCEPT !.kind = "white", !.G = Bilinear(st.X, Inverse(CovOf(st.X)))]
              [] OTHER -> st
RmCorr(st) == IF st.kind = "exact" THEN [st EXCEPT !.kind = "rot", !.G = Gram(st)] ELSE st
CanNorm(st) == st.kind # "exact" \/ \A i \in C6 : Cov2(st.X[i], st.X[i]) # 0
Apply(st, e) ==
    CASE e.op = "new" -> Load(e.arr)
      [] e.op = "sub" -> SubAvg(st)
      [] e.op = "norm" -> Norm(st)
      [] e.op = "rm" -> RmCorr(st)
      [] OTHER -> st

------------------------------------------------------------------------------
(* obs: arr (6 x n, signed squares of the values), gram (n x n), cov (6 x 6) of
   the array after the call; for a query also avg, var, rms (squared), cor, min, max
   (avg, min, max and off-diagonal cor as signed squares)                        *)
Val(st, i, v) == RDiv(RSgnSq(v), st.S[i])
Same2(o, n, m, w(_, _)) == /\ Len(o) = n
                           /\ \A i \in 1..n : Len(o[i]) = m /\ \A j \in 1..m : RSame(o[i][j], w(i, j))
ArrClause(st, o) ==
    IF st.kind = "exact"
    THEN IF Same2(o.arr, 6, Np(st.X), LAMBDA i, k : Val(st, i, RInt(st.X[i][k]))) THEN "ok" ELSE "array"
    ELSE CASE ~Same2(o.gram, Len(st.G), Len(st.G), LAMBDA k, l : st.G[k][l]) -> "particles"
           [] \E i, j \in C6 : i # j /\ ~RSame(o.cov[i][j], RZero) -> "correlated"
           [] st.kind = "white" /\ \E i \in C6 : ~RSame(o.cov[i][i], ROne) -> "rms-not-one"
           [] OTHER -> "ok"
CorWant(st, i, j) == IF i = j THEN RDiv(Var(st.X[i]), st.S[i])
                              ELSE RDiv(RSgnSq(Cov(st.X[i], st.X[j])), RMul(st.S[i], st.S[j]))
QueryClause(st, e) ==
    CASE \E i \in C6 : ~RSame(e.avg[i], Val(st, i, Mean(st.X[i]))) -> "average"
      [] \E i \in C6 : ~RSame(e.var[i], RDiv(Var(st.X[i]), st.S[i])) -> "variance"
      [] \E i \in C6 : ~RSame(e.rms[i], RDiv(Var(st.X[i]), st.S[i])) -> "rms"
      [] \E i, j \in C6 : ~RSame(e.cor[i][j], CorWant(st, i, j)) -> "correlations"
      [] \E i \in C6 : ~RSame(e.min[i], Val(st, i, RInt(Least(st.X[i])))) -> "minimum"
      [] \E i \in C6 : ~RSame(e.max[i], Val(st, i, RInt(Greatest(st.X[i])))) -> "maximum"
      [] OTHER -> "ok"

\* rounding v = num * 10^ex (num an integer) to n significant figures: [num, ex] of the result
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
Tie(num, n) == LET d == Digits(RAbs(num)) - n IN d > 0 /\ 2 * (RAbs(num) % Pow10(d)) = Pow10(d)
Rounded(num, n) == LET a == RAbs(num)
                       d == Digits(a) - n
                       p == Pow10(d)
                       r == IF 2 * (a % p) > p THEN (a \div p + 1) * p ELSE (a \div p) * p
                   IN  IF d <= 0 THEN num ELSE IF num < 0 THEN -r ELSE r

StatsInit(t) == Empty
StatsStep(st, e) == Apply(st, e)
StatsVerdict(st, e) ==
    LET w == Apply(st, e)
    IN  CASE e.status # "ok" -> e.op \o "-" \o e.status
          [] e.op = "sig" -> IF e.got = Rounded(e.num, e.n) THEN "ok" ELSE "significant-figures"
          [] OTHER -> LET a == ArrClause(w, e.obs)
                      IN  IF a # "ok" THEN (IF e.op = "query" THEN "query-changed-" \o a ELSE e.op \o "-" \o a)
                          ELSE IF e.op = "query" /\ w.kind = "exact" THEN QueryClause(w, e) ELSE "ok"
=============================================================================
