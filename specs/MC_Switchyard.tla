---------------------------- MODULE MC_Switchyard ----------------------------
EXTENDS Switchyard, TLC, Json

(* Sources: sequence of shapes [fmt |-> "elegant", n, q] or [fmt |-> "opal", steps |-> seq of [s, n, q]]
   (q = 1 when a charge is stated).                                            *)
CONSTANTS Shapes, Names_, ReadFmts, WriteFmts, Steps, Depth, Bad, Rand

\* in simulation, parameters are drawn instead of enumerated
Pick(S) == IF Rand THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

Val(f, s, k, c) == R(f * 7 + s * 3 + k * 2 + c * 5, c + 1)
Rows(f, s, n) == [k \in 1..n |-> [c \in 1..6 |-> Val(f, s, k, c)]]
Q(f, s, q) == IF q = 1 THEN R(f * 10 + s, 3) ELSE <<>>
Src(sh) == [f \in 1..Len(sh) |->
              IF sh[f].fmt = "elegant"
              THEN [fmt |-> "elegant", rows |-> Rows(f, 0, sh[f].n), q |-> Q(f, 0, sh[f].q)]
              ELSE [fmt |-> "opal", steps |-> [i \in 1..Len(sh[f].steps) |->
                       [s |-> sh[f].steps[i].s, rows |-> Rows(f, sh[f].steps[i].s, sh[f].steps[i].n),
                        q |-> Q(f, sh[f].steps[i].s, sh[f].steps[i].q)]]]]

VARIABLES sw, h, shape
vars == <<sw, h, shape>>
Init == \E sh \in Shapes : shape = sh /\ sw = New(Src(sh)) /\ h = <<>>
Paths == {[kind |-> "src", i |-> f, t |-> ""] : f \in 1..Len(shape)}
         \cup {[kind |-> "tgt", i |-> 0, t |-> t] : t \in {x \in Tg : sw.out[x] # <<>>}}
         \cup (IF Bad THEN {[kind |-> "none", i |-> 0, t |-> ""]} ELSE {})
Matches(p, fmt) == Bad \/ (Content(sw, p) # <<>> /\ Content(sw, p)[1].fmt = fmt)
Do(e) == sw' = Apply(sw, e) /\ h' = Append(h, e) /\ UNCHANGED shape
Likely(p) == IF Content(sw, p) = <<>> THEN ReadFmts ELSE
             IF Rand /\ RandomElement(1..3) # 1 THEN {Content(sw, p)[1].fmt} \cap ReadFmts ELSE ReadFmts
DoRead == \E p \in Pick(Paths) : \E fmt \in Pick(Likely(p)), n \in Pick(Names_), s \in Pick(Steps \cup {-1}) :
             /\ Matches(p, fmt)
             /\ (s # -1) => fmt = "opal"
             /\ Do([op |-> "read", path |-> p, fmt |-> fmt, name |-> n, step |-> s])
DoWrite == \E fmt \in Pick(WriteFmts), n \in Pick(Names_), t \in Pick(Tg) :
             /\ Bad \/ CanWrite(sw, [fmt |-> fmt, name |-> n])
             /\ t = "t2" => sw.out["t1"] # <<>>         \* symmetry
             /\ Do([op |-> "write", fmt |-> fmt, name |-> n, tgt |-> t])
Next == Len(h) < Depth /\ (DoRead \/ DoWrite)
Spec == Init /\ [][Next]_vars

\* registered species are never lost, changed or renamed
Stable == [][Len(sw'.reg) >= Len(sw.reg) /\ \A i \in 1..Len(sw.reg) : sw'.reg[i] = sw.reg[i]]_vars
Unique == \A i, j \in 1..Len(sw.reg) : sw.reg[i].name = sw.reg[j].name => i = j
\* exporting to elegant and reading back is the identity
RoundTrip == \A i \in 1..Len(sw.reg) :
   MapSeq(FromElegant, Export(sw.reg[i], "elegant").rows) = sw.reg[i].rows
OnePerParticle == \A t \in Tg : sw.out[t] # <<>> => sw.out[t][1].n = Len(sw.out[t][1].rows)
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([shape |-> shape, h |-> h]))
=============================================================================
