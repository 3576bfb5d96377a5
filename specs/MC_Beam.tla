------------------------------- MODULE MC_Beam -------------------------------
EXTENDS Beam, TLC, Json

\* Grid: every Twiss triple of one plane (the others follow), made and measured
CONSTANTS As, Bs, Es, Ns, Fs, Vs, Pms, Depth, Mode
Rand == Mode = "random"
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES st, h
vars == <<st, h>>
Init == st = None /\ h = <<>>
Do(e) == st' = Apply(st, e) /\ h' = Append(h, e)
OneTw == {[a |-> RandomElement(As), b |-> RandomElement(Bs), e |-> RandomElement(Es)] : x \in {1}}
New == \E t \in Pick({"uniform", "gaussian", "uniform", "gaussian", "triangular"}), n \in Pick(Ns), f \in Pick(Fs) : Do([op |-> "new", type |-> t, n |-> n, fac |-> f])
RandBeam == \E t \in Pick(Types), n \in Pick({m \in Ns : m > 0}), f \in Pick({x \in Fs : x[1] > 0}), p \in Pick(Pms) : \E a, b, c \in OneTw :
            Do([op |-> "beam", type |-> t, n |-> n, fac |-> f, pm |-> p, tw |-> <<a, b, c>>])
GridBeam == \E a \in As, b \in Bs, e \in Es, p \in 1..3 :
            LET t == [a |-> a, b |-> b, e |-> e]
                o == [a |-> RNeg(a), b |-> RInv(b), e |-> ROne]
                z == [a |-> RZero, b |-> RInt(2), e |-> R(1, 3)]
            IN  Do([op |-> "beam", type |-> IF p = 2 THEN "gaussian" ELSE "uniform", n |-> 12, fac |-> RInt(5), pm |-> R(3, 4),
                    tw |-> IF p = 1 THEN <<t, o, z>> ELSE IF p = 2 THEN <<z, t, o>> ELSE <<o, z, t>>])
Twiss == Round(st) /\ \E a, b, c \in OneTw : Do([op |-> "twiss", tw |-> <<a, b, c>>])
Sampled == st.kind \in {"std", "raw"}
Exact == st.kind = "std"
Next == Len(h) < Depth /\
        IF Mode = "grid" THEN IF st.kind = "none" THEN GridBeam ELSE Do([op |-> "calc"])
        ELSE IF st.kind = "none" THEN New \/ RandBeam
        ELSE \/ Twiss
             \/ Exact /\ \E i \in Pick(0..7), v \in Pick(Vs) : Do([op |-> "offset", i |-> i, v |-> v])
             \/ Exact /\ \E i \in Pick(0..7), v \in Pick(Vs) : Do([op |-> "mult", i |-> i, v |-> v])
             \/ Exact /\ Alive(st) /\ Do([op |-> "calc"])
             \/ Exact /\ Do([op |-> "query"])
             \/ Exact /\ st.pm # RZero /\ st.cov[5][5] # RZero /\ Do([op |-> "ref"])
             \/ Do([op |-> IF st.type = "gaussian" THEN "gauss" ELSE "unif"])
             \/ (st.kind = "raw" \/ Alive(st)) /\ Do([op |-> "clean"])
             \/ RandomElement(1..4) = 1 /\ New
Spec == Init /\ [][Next]_vars

\* the Courant-Snyder identity and positive emittances survive every operation but a zero factor
Courant == \A i \in 1..Len(h) : "tw" \in DOMAIN h[i] => \A p \in 1..3 : RSub(RMul(h[i].tw[p].b, Gamma(h[i].tw[p])), RSq(h[i].tw[p].a)) = ROne
Decoupled == \A i, j \in C6 : Plane(i) # Plane(j) => st.cov[i][j] = RZero
Positive == \A p \in 1..3 : RLe(RZero, Det(st, p))
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
