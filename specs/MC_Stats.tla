------------------------------- MODULE MC_Stats -------------------------------
EXTENDS Stats, TLC, Json

\* Mode "pairs": two rows with every value, the others fixed; "random": any array; "mixed": eight particles, correlated in blocks
CONSTANTS Mode, Vals, Ns, Depth, Ops
Rand == Mode # "pairs"
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES st, h
vars == <<st, h>>
Init == st = Empty /\ h = <<>>
Do(e) == st' = Apply(st, e) /\ h' = Append(h, e)

Filler(i, n) == [k \in 1..n |-> ((i * i + 3 * k) % 5) - 2]
\* rows 1..7 of the Hadamard matrix: orthogonal, zero mean
Bit(j, b) == (j \div b) % 2
Had(j, k) == IF (Bit(j, 1) * Bit(k, 1) + Bit(j, 2) * Bit(k, 2) + Bit(j, 4) * Bit(k, 4)) % 2 = 0 THEN 1 ELSE -1
Blocks == {<<1,1,2,2,3,3>>, <<1,2,1,2,3,3>>, <<1,1,1,2,2,2>>, <<1,2,3,4,5,6>>, <<1,2,3,3,2,1>>, <<1,2,2,3,3,1>>, <<1,2,1,2,1,2>>, <<1,1,1,1,2,3>>, <<1,2,3,1,1,4>>}
Make ==
    CASE Mode = "pairs" -> \E n \in Ns, i, j \in C6 : \E a, b \in [1..n -> Vals] :
                               i < j /\ Do([op |-> "new", arr |-> [r \in C6 |-> IF r = i THEN a ELSE IF r = j THEN b ELSE Filler(r, n)]])
      [] Mode = "random" -> \E n \in Pick(Ns) : \E a \in {TLCEval([r \in C6 |-> [k \in 1..n |-> RandomElement(Vals)]])} : Do([op |-> "new", arr |-> a])
      [] OTHER -> \E blk \in Pick(Blocks), sh \in Pick(0..6), up \in Pick(BOOLEAN) :
                  \E c \in {TLCEval([i \in C6 |-> [j \in C6 |-> IF i = j THEN RandomElement({1, -1, 2}) ELSE RandomElement(-2..2)]])} :
                  \E m \in {TLCEval([i \in C6 |-> RandomElement({0, 1, -2})])} :
                  LET in(i, j) == blk[i] = blk[j] /\ (IF up THEN j <= i ELSE j >= i)
                      V(i, k) == LET T(j) == IF in(i, j) THEN c[i][j] * Had(((j + sh) % 7) + 1, k - 1) ELSE 0
                                 IN  m[i] + T(1) + T(2) + T(3) + T(4) + T(5) + T(6)
                  IN  Do([op |-> "new", arr |-> TLCEval([i \in C6 |-> [k \in 1..8 |-> V(i, k)]])])
Next == Len(h) < Depth /\
        IF st.kind = "none" THEN Make
        ELSE \/ "query" \in Ops /\ Do([op |-> "query"])
             \/ "sub" \in Ops /\ Do([op |-> "sub"])
             \/ "norm" \in Ops /\ CanNorm(st) /\ Do([op |-> "norm"])
             \/ "rm" \in Ops /\ Do([op |-> "rm"])
Spec == Init /\ [][Next]_vars

Last == IF h = <<>> THEN "" ELSE h[Len(h)].op
\* centring removes the mean and keeps the covariances; scaling gives unit variance; a rotation keeps the total variance
Moments == st.kind = "exact" =>
    /\ Last = "sub" => \A i \in C6 : ISum(st.X[i]) = 0
    /\ Last = "norm" => \A i \in C6 : RDiv(Var(st.X[i]), st.S[i]) = ROne
    /\ Len(h) = 1 => \A i, j \in C6 : i < j => Cov2(st.X[i], st.X[j]) * Cov2(st.X[i], st.X[j]) <= Cov2(st.X[i], st.X[i]) * Cov2(st.X[j], st.X[j])
\* the inner products are those of six coordinates with unit variance: their trace over the particles is 6 n
Whitened == (st.kind = "white" /\ \A i \in C6 : ISum(st.X[i]) = 0) =>
    RSum(Len(st.G), LAMBDA k : st.G[k][k]) = RInt(6 * Len(st.G))
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
