------------------------------ MODULE MC_Sampling ------------------------------
EXTENDS Sampling, TLC, Json

\* Mode "small": every density of up to MaxM points; "random": longer random calls
CONSTANTS Ws, Ms, Ends, Depth, Mode, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES c, h
vars == <<c, h>>
Init == c = [w |-> <<1>>] /\ h = <<>>
Args(m) == {<<>>} \cup {<<s>> : s \in 0..(m - 1)} \cup {<<s, f>> : s \in 0..(m - 1), f \in 1..2}
RandW(m) == LET k == RandomElement(1..6) IN
    CASE k = 1 -> LET v == RandomElement(1..3) IN [i \in 1..m |-> v]
      [] k = 2 -> LET p == RandomElement(1..2) IN [i \in 1..m |-> p * (m + i)]
      [] k = 3 -> [i \in 1..m |-> RandomElement(0..2)]
      [] OTHER -> [i \in 1..m |-> RandomElement(Ws)]
Densities(m) == IF Rand THEN {RandW(m)} ELSE [1..m -> Ws]
Call(e) == c' = [w |-> IF e.op = "default" THEN <<1>> ELSE Seen(e.w, e.args)] /\ h' = Append(h, e)
Cdfs == \E m \in Pick(Ms) : \E w \in {x \in Densities(m) : Total(x) > 0}, g \in Pick(Args(m)) :
        Total(Seen(w, g)) > 0 /\ Call([op |-> "cdf", w |-> w, args |-> g])
Samples == \E m \in Pick(Ms) : \E w \in {x \in Densities(m) : Total(x) > 0}, g \in Pick(Args(m)), r \in Pick(Ends),
        me \in Pick({"random", "halton", "random", "sobol"}), iv \in Pick({"numeric", "interpolate", "linear"}) :
        Total(Seen(w, g)) > 0 /\ Call([op |-> "sample", w |-> w, args |-> g, a |-> r[1], b |-> r[2], method |-> me, invert |-> iv,
              callable |-> IF Rand THEN RandomElement(1..12) # 1 ELSE TRUE,
              long |-> IF Rand THEN RandomElement({1, 1, 1, 1, 1, 2, 3, 700, 1500, 20000}) ELSE 1])
Defaults == \E r \in Pick(Ends), iv \in Pick({"numeric", "interpolate"}), m \in Pick({10000, 10001, 32769, 65537, 100003, 150000}) :
            Call([op |-> "default", a |-> r[1], b |-> r[2], m |-> m, invert |-> iv])
Next == Len(h) < Depth /\ (Samples \/ (Mode = "random" /\ (Samples \/ Samples \/ Cdfs)) \/ (Mode = "default" /\ Defaults))
Spec == Init /\ [][Next]_vars

T == Total(c.w)
Ys == {<<n, 2 * T>> : n \in 1..(2 * T - 1)}
Rising == \A k \in 2..Len(c.w) : Cdf(c.w)[k][1] >= Cdf(c.w)[k - 1][1]
Ends1 == Len(h) > 0 => Cdf(c.w)[Len(c.w)][1] = T
\* the inverse never lands on a point without density, and it is monotone
Supported == Len(h) > 0 => \A y \in Ys : c.w[Index(c.w, y)] > 0
Monotone == Len(h) > 0 => \A n \in 2..(2 * T - 1) : Index(c.w, <<n - 1, 2 * T>>) <= Index(c.w, <<n, 2 * T>>)
\* every point is hit in proportion to its weight (the whole of the stratification property)
Share == Len(h) > 0 => \A k \in 1..Len(c.w) : Cardinality({n \in 0..(T - 1) : Index(c.w, <<2 * n + 1, 2 * T>>) = k}) = c.w[k]
\* interpolation agrees with numeric inversion at the nodes and stays in its bracket elsewhere
Agree == (Len(h) > 0 /\ Invertible(c.w)) => \A y \in Ys :
    LET i == Interpolated(0, Len(c.w) - 1, c.w, y) IN
    /\ (IsNode(c.w, y) => i.x = RInt(Index(c.w, y) - 1))
    /\ (i.x[2] > 0 => RLe(i.x, RInt(Index(c.w, y) - 1)) /\ RLe(RInt(Index(c.w, y) - 2), i.x) )
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
================================================================================
