----------------------------- MODULE Switchyard -----------------------------
(* The particle switchyard (rsbeams.rsdata.switchyard.Switchyard): a registry of
   species, readers (elegant, opal) that add to it, writers (elegant, opal,
   genesis) that export from it.

   A particle in the registry is <<x, ux, y, uy, ct, pt>> in exact rationals (ct
   in metres).  An elegant row is <<x, x', y, y', t, p>>; times are in units of
   m/c, so t and ct are the same number.  A charge is a rational; <<>> in a
   source file means that the file does not state one.
     src[i] = [fmt |-> "elegant", rows, q] | [fmt |-> "opal", steps] with
     steps a sequence of [s |-> step number, rows, q]
   Registry: sequence of [name, rows, q] in registration order.
   Targets: name -> <<>> (absent) or <<[fmt, n, rows, q]>>.                     *)
EXTENDS Rat, Integers, Sequences, FiniteSets

Default == "species_0"
Formats == {"elegant", "opal"}            \* formats with a reader
Codes == {"elegant", "opal", "genesis"}   \* codes with a writer
Tg == {"t1", "t2"}

FromElegant(r) == <<r[1], RMul(r[2], r[6]), r[3], RMul(r[4], r[6]), r[5], r[6]>>
ToElegant(r) == <<r[1], RDiv(r[2], r[6]), r[3], RDiv(r[4], r[6]), r[5], r[6]>>
Mean(rows) == RDiv(RSumSeq([i \in 1..Len(rows) |-> rows[i][5]]), RInt(Len(rows)))
\* genesis lists the arrival time relative to the beam's mean
ToGenesis(rows) == LET m == Mean(rows) IN
    [i \in 1..Len(rows) |-> [rows[i] EXCEPT ![5] = RSub(@, m)]]

MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Names(sw) == {sw.reg[i].name : i \in 1..Len(sw.reg)}
Lookup(sw, n) == sw.reg[CHOOSE i \in 1..Len(sw.reg) : sw.reg[i].name = n]
Resolve(n) == IF n = "" THEN Default ELSE n

\* ---- what a reader delivers: <<>> (failure) or <<[rows, q]>>
StepIdx(f, s) == {i \in 1..Len(f.steps) : f.steps[i].s = s}
LastStep(f) == CHOOSE s \in {f.steps[i].s : i \in 1..Len(f.steps)} :
                  \A i \in 1..Len(f.steps) : f.steps[i].s <= s
Content(sw, p) == CASE p.kind = "src" -> <<sw.src[p.i]>>
                    [] p.kind = "tgt" -> IF sw.out[p.t] = <<>> THEN <<>> ELSE sw.out[p.t]
                    [] OTHER -> <<>>
Deliver(sw, e) ==
    LET c == Content(sw, e.path)
    IN  CASE e.fmt \notin Formats \/ c = <<>> -> <<>>
          [] c[1].fmt # e.fmt -> <<>>
          [] e.fmt = "elegant" -> <<[rows |-> MapSeq(FromElegant, c[1].rows),
                                     q |-> IF c[1].q = <<>> THEN RZero ELSE c[1].q]>>
          [] e.fmt = "opal" /\ e.path.kind = "src" ->
               LET s == IF e.step = -1 THEN LastStep(c[1]) ELSE e.step
                   I == StepIdx(c[1], s)
               IN  IF I = {} THEN <<>>
                   ELSE LET st == c[1].steps[CHOOSE i \in I : TRUE]
                        IN  IF st.q = <<>> THEN <<>> ELSE <<[rows |-> st.rows, q |-> st.q]>>
          [] OTHER -> <<>>                 \* the OPAL text export is not an OPAL dump

Read(sw, e) ==
    LET d == Deliver(sw, e)
        n == Resolve(e.name)
    IN  IF d = <<>> \/ n \in Names(sw) THEN sw
        ELSE [sw EXCEPT !.reg = Append(@, [name |-> n, rows |-> d[1].rows, q |-> d[1].q])]

\* ---- writing
WName(sw, e) == IF e.name # "" THEN e.name ELSE IF sw.reg = <<>> THEN Default ELSE sw.reg[1].name
CanWrite(sw, e) == e.fmt \in Codes /\ WName(sw, e) \in Names(sw)
Export(sp, fmt) ==
    [fmt |-> fmt, n |-> Len(sp.rows),
     rows |-> CASE fmt = "elegant" -> MapSeq(ToElegant, sp.rows)
                [] fmt = "opal" -> sp.rows
                [] fmt = "genesis" -> ToGenesis(sp.rows),
     q |-> IF fmt = "opal" THEN RZero ELSE sp.q]      \* the OPAL text format has no charge
Write(sw, e) == IF CanWrite(sw, e)
                THEN [sw EXCEPT !.out[e.tgt] = <<Export(Lookup(sw, WName(sw, e)), e.fmt)>>]
                ELSE sw

New(src) == [src |-> src, reg |-> <<>>, out |-> [t \in Tg |-> <<>>]]
Apply(sw, e) == IF e.op = "read" THEN Read(sw, e) ELSE Write(sw, e)

------------------------------------------------------------------------------
(* conformance: observed values are <<num, den, ok>> *)
SameRow(o, w) == Len(o) = 6 /\ \A k \in 1..6 : RSame(o[k], w[k])
SameRows(o, w) == Len(o) = Len(w) /\ \A i \in 1..Len(w) : SameRow(o[i], w[i])
SameReg(o, w) == /\ Len(o) = Len(w)
                 /\ \A i \in 1..Len(w) : o[i].name = w[i].name /\ SameRows(o[i].rows, w[i].rows)
                                         /\ RSame(o[i].q, w[i].q) /\ o[i].acc = 1
RegClause(sw, w, o) ==
    IF Len(o) < Len(w.reg) THEN IF Len(o) < Len(sw.reg) THEN "species-lost" ELSE "species-not-registered"
    ELSE IF Len(o) > Len(w.reg) THEN "unexpected-species"
    ELSE IF \E i \in 1..Len(o) : o[i].name # w.reg[i].name THEN "species-name"
    ELSE IF \E i \in 1..Len(sw.reg) : ~SameRows(o[i].rows, w.reg[i].rows) \/ ~RSame(o[i].q, w.reg[i].q) THEN "species-changed"
    ELSE IF \E i \in 1..Len(o) : ~SameRows(o[i].rows, w.reg[i].rows) THEN "particles-read"
    ELSE IF \E i \in 1..Len(o) : ~RSame(o[i].q, w.reg[i].q) THEN "charge-read"
    ELSE "accessors"

SwitchyardInit(t) == New(t.src)
SwitchyardStep(sw, e) == Apply(sw, e)
SwitchyardVerdict(sw, e) ==
    LET w == Apply(sw, e)
        d == IF e.op = "read" THEN Deliver(sw, e) ELSE <<>>
    IN  CASE e.status = "hang" -> "hang"
          [] e.op = "read" /\ d = <<>> /\ Resolve(e.name) \notin Names(sw) /\ e.status = "ok" -> "failed-read-accepted"
          [] e.op = "read" /\ d # <<>> /\ Resolve(e.name) \notin Names(sw) /\ e.status # "ok" -> "read-refused"
          [] e.op = "write" /\ CanWrite(sw, e) /\ e.status # "ok" -> "write-refused"
          [] e.op = "write" /\ ~CanWrite(sw, e) /\ e.status = "ok" -> "impossible-write-accepted"
          [] ~SameReg(e.reg, w.reg) -> RegClause(sw, w, e.reg)
          [] e.op = "write" /\ e.status = "ok" ->
               LET x == w.out[e.tgt][1]
               IN  CASE e.ret # 1 -> "write-result"
                     [] e.file.n # x.n -> "file-count"
                     [] Len(e.file.rows) # Len(x.rows) -> "file-rows"
                     [] ~SameRows(e.file.rows, x.rows) -> "file-values"
                     [] x.fmt # "opal" /\ ~RSame(e.file.q, x.q) -> "file-charge"
                     [] OTHER -> "ok"
          [] OTHER -> "ok"
=============================================================================
