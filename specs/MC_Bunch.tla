-------------------------------- MODULE MC_Bunch --------------------------------
EXTENDS Bunch, TLC, Json

\* Mode "settings": setter histories; "make": generated particles
CONSTANTS Classes, Dists, Bs, As, Es, Ss, Ts, Ns, Depth, Mode, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES b, h
vars == <<b, h>>
Init == b = None /\ h = <<>>
Do(e) == b' = Apply(b, e) /\ h' = Append(h, e)
Vals(k) == CASE k \in {"betax", "betay"} -> Bs [] k \in {"alphax", "alphay"} -> As [] k \in {"emitx", "emity"} -> Es
             [] k = "t" -> Ts [] k = "c" -> {R(1, 100), R(1, 50), R(1, 200)} [] k = "cutoff" -> {RInt(4), RInt(2), R(5, 2), R(3, 4), R(1, 2)} [] OTHER -> Ss
Bad == {"betax", "betay", "t", "c", "cutoff"}
Some(k) == {[k |-> k, v |-> v] : v \in Pick({x \in Vals(k) : Allowed(k, x)})}
\* random keyword arguments: every key with probability 1/2; emittances together half of the time
RandKw(keys) ==
    LET one(k) == IF RandomElement(BOOLEAN) THEN <<[k |-> k, v |-> RandomElement({x \in Vals(k) : Allowed(k, x)})]>> ELSE <<>>
        both == LET v == RandomElement(Es) IN <<[k |-> "emitx", v |-> v], [k |-> "emity", v |-> v]>>
        join[K \in SUBSET keys] == IF K = {} THEN <<>> ELSE LET k == CHOOSE x \in K : TRUE IN one(k) \o join[K \ {k}]
    IN  IF {"emitx", "emity"} \subseteq keys /\ RandomElement(1..3) # 1
        THEN (IF RandomElement(BOOLEAN) THEN both ELSE <<>>) \o join[keys \ {"emitx", "emity"}] ELSE join[keys]
CtorKeys(cls) == (Numeric \ IF cls = "nonlinear" THEN {"betay"} ELSE {}) \cup IF cls = "nonlinear" THEN OfInsert ELSE {}
TransKeys(cls) == IF cls = "nonlinear" THEN {"emitx", "emity", "betax", "alphax", "cutoff"} ELSE {"emitx", "emity", "betax", "alphax", "betay", "alphay"}
DistsOf(cls) == IF cls = "nonlinear" THEN Dists ELSE Dists \ {"waterbag"}
New == \E cls \in Pick(Classes) : \E n \in Pick(Ns) :
       IF Rand THEN \E kw \in {RandKw(CtorKeys(cls))}, d \in Pick(DistsOf(cls)), q \in Pick(BOOLEAN) :
                       Do([op |-> "new", cls |-> cls, npart |-> n, kw |-> kw \o <<[k |-> "dist", v |-> d]>> \o IF q THEN <<[k |-> "quiet", v |-> TRUE]>> ELSE <<>>])
       ELSE Do([op |-> "new", cls |-> cls, npart |-> n, kw |-> <<>>])
          \/ \E k \in CtorKeys(cls) : \E x \in Some(k) : Do([op |-> "new", cls |-> cls, npart |-> n, kw |-> <<x>>])
SetKeys(cls) == Numeric \cup IF cls = "nonlinear" THEN OfInsert ELSE {}
Set == \/ \E k \in Pick(SetKeys(b.cls)) : \E x \in Some(k) : Do([op |-> "set", kw |-> <<x>>])
       \/ \E k \in Pick(Bad \cap SetKeys(b.cls)) : \E v \in Pick({<<-1, 1>>, <<-1, 10000000>>}) : Do([op |-> "set", kw |-> <<[k |-> k, v |-> v]>>])
       \/ \E k \in Pick({"betax", "betay"}) : Do([op |-> "set", kw |-> <<[k |-> k, v |-> <<0, 1>>]>>])
Make == \/ \E kw \in {RandKw(TransKeys(b.cls))} : Do([op |-> "transverse", kw |-> kw])
        \/ \E kw \in {RandKw({"stdz", "dpop"})} : Do([op |-> "longitudinal", kw |-> kw])
        \/ \E d \in Pick(DistsOf(b.cls)) : Do([op |-> "set", kw |-> <<[k |-> "dist", v |-> d]>>])
        \/ \E q \in Pick(BOOLEAN) : Do([op |-> "set", kw |-> <<[k |-> "quiet", v |-> q]>>])
Next == Len(h) < Depth /\ IF b.cls = "none" THEN New ELSE Set \/ (Mode = "make" /\ (Make \/ Make \/ Make))
Spec == Init /\ [][Next]_vars

Betas == RLt(RZero, b.betax) /\ RLt(RZero, b.betay)
Shared == b.cls = "nonlinear" => b.betax = b.betay
\* a setting of one plane leaves the other plane alone
Planes == [][\A k \in {"alphax", "alphay", "emitx", "emity"} :
             (Len(h') = Len(h) + 1 /\ h'[Len(h')].op = "set" /\ h'[Len(h')].kw[1].k # k) => b'[k] = b[k]]_vars
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
