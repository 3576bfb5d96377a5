------------------------------- MODULE Trace3d -------------------------------
(* Trace3D and TraceWin input files (rsbeams.rslattice.trace3d_parser).

   The reader is a machine that takes the cards of a file one after the other and
   keeps the beamline built so far and, for TraceWin, the frequency in force.
   A number is <<n, d, p>> = n/d times 1, pi, 10^-6 or pi/1000 for p = 0..3 (angles
   are given in degrees, wave lengths are micrometres, arc lengths are degrees mm).  Frequencies
   are in units of c per metre, so that wave lengths are rational: a card giving
   the frequency x (in MHz c/m) sets 10^6 x.

   Trace3D card   [name, nt, vals]    TraceWin card [kw, vals]                    *)
EXTENDS Rat, Integers, Sequences, FiniteSets

NT == {1, 3, 8, 9, 10}
T3Type(n) == CASE n = 1 -> "drift" [] n = 3 -> "quadrupole" [] n = 8 -> "sbend" [] n = 9 -> "edge" [] n = 10 -> "rfca"
T3Names(t) == CASE t = "drift" -> <<"l">>
                [] t = "quadrupole" -> <<"k1", "l", "dx", "dy", "of">>
                [] t = "rfca" -> <<"volt", "phase", "egf", "change_p0", "h">>
                [] t = "edge" -> <<"beta", "r", "g", "k1", "k2">>
                [] t = "sbend" -> <<"angle", "r", "index", "vf">>
KW == {"drift", "quad", "dtl_cel", "ncells", "set_sync_phase", "freq", "field_map"}
TWNames(k) == CASE k = "drift" -> <<"l", "r", "ry", "rx_shift", "ry_shift">>
                [] k = "quad" -> <<"l", "k1", "r", "theta", "g3u3", "g4u4", "g5u5", "g6u6", "gfr">>
                [] k = "dtl_cel" -> <<"l", "lq1", "lq2", "gc", "b1", "b2", "volt", "phase", "r", "p", "beta_s", "t_s", "kts", "k2ts">>
                [] k = "set_sync_phase" -> <<>>
                [] k = "ncells" -> <<"mode", "n", "beta", "volt", "phase", "r", "p", "ke0ti", "ke0to", "dzi", "dzo">>
                [] k = "freq" -> <<"frequency">>
                [] k = "field_map" -> <<"type", "l", "phase", "r", "kb", "ke", "ki", "ka">>

V(x) == <<x[1], x[2], 0>>                   \* a rational as a number
Rt(v) == <<v[1], v[2]>>
Scale(v, r) == LET q == RMul(Rt(v), r) IN <<q[1], q[2], v[3]>>
MM == <<1, 1000>>
\* units of the file -> units of the beamline
T3Conv(k, x) == CASE k \in {"l", "r", "g", "dx", "dy"} -> V(RMul(x, MM))
                  [] k \in {"angle", "beta"} -> LET q == RDiv(x, RInt(180)) IN <<q[1], q[2], 1>>
                  [] k = "volt" -> V(RMul(x, RInt(1000000)))
                  [] OTHER -> V(x)
TWConv(k, x) == IF k \in {"l", "lq1", "lq2"} THEN V(RMul(x, MM)) ELSE V(x)
Min2(a, b) == IF a < b THEN a ELSE b
Assign(names, vals, Conv(_, _)) ==
    LET n == Min2(Len(names), Len(vals))
    IN  [k \in {names[i] : i \in 1..n} |-> Conv(k, vals[CHOOSE i \in 1..n : names[i] = k])]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NMul(a, b) == LET q == RMul(Rt(a), Rt(b)) IN <<q[1], q[2], a[3] + b[3]>>
NAdd(a, b) == LET q == RAdd(Rt(a), Rt(b)) IN <<q[1], q[2], IF a[1] = 0 THEN b[3] ELSE a[3]>>
NSub(a, b) == NAdd(a, <<-b[1], b[2], b[3]>>)

Elem(n, t, p) == [name |-> n, type |-> t, pars |-> p]
New == [seq |-> <<>>, freq |-> <<>>, bad |-> FALSE]

\* ------------------------------------------------------------------ Trace3D
T3Elem(c) == LET t == T3Type(c.nt)
                 p == Assign(T3Names(t), c.vals, T3Conv)
             IN  Elem(c.name, t, IF t = "sbend" THEN With(p, "l", LET a == NMul(p["angle"], Scale(p["r"], <<1000, 1>>)) IN <<RAbs(a[1]), a[2], 3>>) ELSE p)
T3Card(m, c) == [m EXCEPT !.seq = Append(@, T3Elem(c))]

\* bends absorb the edges on both sides
IsBend(s, i) == s[i].type = "sbend"
Bends(s) == {i \in 1..Len(s) : IsBend(s, i)}
BendsOk(s) == \A i \in Bends(s) : i > 1 /\ i < Len(s) /\ s[i - 1].type = "edge" /\ s[i + 1].type = "edge"
                               /\ (i + 2 \notin Bends(s))      \* every edge belongs to one bend
Merged(s, i) == IF IsBend(s, i)
                THEN [s[i] EXCEPT !.pars = With(With(With(With(@, "e1", s[i - 1].pars["beta"]), "e2", s[i + 1].pars["beta"]),
                                                     "hgap", Scale(s[i - 1].pars["g"], <<1, 2>>)), "fint", s[i - 1].pars["k1"])]
                ELSE s[i]
HandleBends(m) == LET s == m.seq
                      keep == SelectSeq([i \in 1..Len(s) |-> i],
                                        LAMBDA i : ~\E b \in Bends(s) : i = b - 1 \/ i = b + 1)
                  IN  [m EXCEPT !.seq = [j \in 1..Len(keep) |-> Merged(s, keep[j])]]
\* cavities take the length of the drifts on both sides and count their phase from the crest
Cavs(s) == {i \in 1..Len(s) : s[i].type = "rfca"}
CavsOk(s) == \A i \in Cavs(s) : i > 1 /\ i < Len(s) /\ s[i - 1].type = "drift" /\ s[i + 1].type = "drift"
Zero == <<0, 1, 0>>
RECURSIVE TakeDrifts(_, _)
TakeDrifts(s, i) ==
    IF i > Len(s) THEN s
    ELSE IF s[i].type # "rfca" THEN TakeDrifts(s, i + 1)
    ELSE LET len == NAdd(s[i - 1].pars["l"], s[i + 1].pars["l"])
         IN  TakeDrifts([s EXCEPT ![i - 1].pars = With(@, "l", Zero), ![i + 1].pars = With(@, "l", Zero),
                                  ![i].pars = With(With(@, "l", len), "phase", NSub(<<90, 1, 0>>, @["phase"]))], i + 1)
HandleCavities(m) == [m EXCEPT !.seq = TakeDrifts(@, 1)]

\* ------------------------------------------------------------------ TraceWin
P2(a, x, b, y) == [k \in {a, b} |-> IF k = a THEN x ELSE y]
Cavity(l, volt, ph, f) == [k \in {"l", "volt", "phase", "frequency"} |->
                             CASE k = "l" -> l [] k = "volt" -> volt [] k = "phase" -> ph [] OTHER -> f]
\* frequencies are observed in MHz c/m, except the default of 1 Hz: <<0, 0, 9>>
FreqOr(m) == IF m.freq = <<>> THEN <<0, 0, 9>> ELSE V(m.freq[1])
TWCard(m, c) ==
    LET p == Assign(TWNames(c.kw), c.vals, TWConv)
        add(es) == [m EXCEPT !.seq = @ \o es]
        ninety == <<90, 1, 0>>
    IN  CASE c.kw = "freq" -> [m EXCEPT !.freq = <<c.vals[1]>>]
          [] c.kw = "dtl_cel" ->
               add(<<Elem("", "quadrupole", P2("k1", p["b1"], "l", p["lq1"])),
                     Elem("", "rfca", Cavity(NSub(NSub(p["l"], p["lq1"]), p["lq2"]), p["volt"], NAdd(p["phase"], ninety), FreqOr(m))),
                     Elem("", "quadrupole", P2("k1", p["b2"], "l", p["lq2"]))>>)
          [] c.kw = "ncells" ->
               IF m.freq = <<>> THEN [m EXCEPT !.bad = TRUE]
               ELSE LET lw == NMul(p["beta"], p["n"])
                        q == RDiv(Rt(lw), m.freq[1])
                        len == <<q[1], q[2], 2>>
                    IN  add(<<Elem("", "rfca", Cavity(len, NMul(p["volt"], len), NAdd(p["phase"], ninety), FreqOr(m)))>>)
          [] c.kw = "field_map" ->
               IF m.freq = <<>> THEN [m EXCEPT !.bad = TRUE]
               ELSE add(<<Elem("", "rfca", Cavity(p["l"], Scale(p["ke"], RInt(1000000)), p["phase"], FreqOr(m)))>>)
          [] OTHER -> add(<<Elem("", CASE c.kw = "drift" -> "drift" [] c.kw = "quad" -> "quadrupole" [] OTHER -> "marker", p)>>)

RECURSIVE RunCards(_, _, _)
RunCards(m, cards, code) == IF cards = <<>> THEN m
                            ELSE RunCards(IF code = "t3" THEN T3Card(m, Head(cards)) ELSE TWCard(m, Head(cards)), Tail(cards), code)

LenOf(e) == IF "l" \in DOMAIN e.pars THEN e.pars["l"] ELSE Zero

------------------------------------------------------------------------------
(* conformance: the beamline is observed after parsing and after each handler.
   o.pars[i] = [k, hz, r] with r = the number in each of the four units;
   frequencies are observed in MHz c/m, hz = 1 for 1 Hz.                           *)
SameV(o, w) == IF w[3] = 9 THEN o.hz = 1
               ELSE IF w[1] = 0 THEN RSame(o.r[1], <<0, 1>>) ELSE RSame(o.r[w[3] + 1], R(w[1], w[2]))
ElemClause(o, w) ==
    CASE o.type # w.type -> "type"
      [] w.name # "" /\ o.name # w.name -> "name"
      [] {o.pars[i].k : i \in 1..Len(o.pars)} # DOMAIN w.pars -> "parameter-set"
      [] \E i \in 1..Len(o.pars) : ~SameV(o.pars[i], w.pars[o.pars[i].k]) -> "value"
      [] OTHER -> "ok"
SeqClause(o, w) ==
    CASE Len(o) # Len(w) -> "element-count"
      [] \E i \in 1..Len(w) : ElemClause(o[i], w[i]) # "ok" ->
            LET i == CHOOSE x \in 1..Len(w) : ElemClause(o[x], w[x]) # "ok" IN ElemClause(o[i], w[i])
      [] \E i, j \in 1..Len(o) : i # j /\ o[i].name = o[j].name -> "names-not-unique"
      [] OTHER -> "ok"

Trace3dInit(t) == [m |-> New, cards |-> t.cards, code |-> t.code]
Trace3dApply(s, e) == CASE e.op = "parse" -> [s EXCEPT !.m = RunCards(New, s.cards, s.code)]
                        [] e.op = "bends" -> [s EXCEPT !.m = HandleBends(@)]
                        [] e.op = "cavities" -> [s EXCEPT !.m = HandleCavities(@)]
Trace3dStep(s, e) == Trace3dApply(s, e)
Trace3dVerdict(s, e) ==
    LET w == Trace3dApply(s, e).m
    IN  CASE w.bad -> IF e.status = "ok" THEN "missing-frequency-accepted" ELSE "ok"
          [] e.status # "ok" -> e.op \o "-" \o e.status
          [] SeqClause(e.obs, w.seq) # "ok" -> e.op \o "-" \o SeqClause(e.obs, w.seq)
          [] OTHER -> "ok"
=============================================================================
