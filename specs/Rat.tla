-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<num, den>>, den > 0, always in lowest terms.            *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RAbs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a = 0 THEN 1 ELSE a) ELSE Gcd(b, a % b)

R(n, d) == LET g == Gcd(RAbs(n), RAbs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN  <<s * (n \div g), s * (d \div g)>>
\* n \div g rounds down, but g divides n exactly
RInt(n) == <<n, 1>>
RAdd(x, y) == LET g == Gcd(x[2], y[2])
              IN  R(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == LET g == Gcd(RAbs(x[1]), y[2])
                  h == Gcd(RAbs(y[1]), x[2])
              IN  <<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g)>>
RInv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
RDiv(x, y) == RMul(x, RInv(y))
RLt(x, y) == x[1] * y[2] < y[1] * x[2]
RLe(x, y) == x[1] * y[2] <= y[1] * x[2]
RZero == <<0, 1>>
ROne == <<1, 1>>
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RMax(x, y) == IF RLe(x, y) THEN y ELSE x

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))

(* an observed value is <<num, den, ok>>; ok = 0 when the float was near no
   rational of the domain *)
RSame(obs, want) == obs[3] = 1 /\ obs[1] = want[1] /\ obs[2] = want[2]
=============================================================================
