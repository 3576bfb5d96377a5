-------------------------------- MODULE Sirepo --------------------------------
(* Beamlines that come from Sirepo and go to Warp
   (rsbeams.rslattice.templates.lattice_importer, formatted_writer, pkcli.lattice).

   model   [lines, elems, cache]
     lines[l]  [name, items], items [k |-> "e" | "l", id, rev]
     elems[e]  [name, type, odd, pars], pars a sequence of [k, v]; odd names cannot stand
               in Python text, the writer has to find others for them
     cache     values of RPN expressions, a sequence of rationals
   A value is <<"n", n, d>> (the number n/d, as a number or its text), <<"r", i, 0>>
   (the i-th RPN expression) or <<"s", i, 0>> (a text).

   The importer is a machine with a stack of lines under way: it takes one item
   at a time, from the front or, in a reversed line, from the back.               *)
EXTENDS Rat, Integers, Sequences, FiniteSets

\* ------------------------------------------------------------ what a line denotes
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Denote(_, _, _)
Denote(mo, items, rev) ==
    IF items = <<>> THEN <<>>
    ELSE LET it == Head(items)
             one == IF it.k = "e" THEN <<it.id>> ELSE Denote(mo, mo.lines[it.id].items, it.rev = 1)
             all == one \o Denote(mo, Tail(items), FALSE)
         IN  IF rev THEN Rev(all) ELSE all
Flat(mo, l) == Denote(mo, mo.lines[l].items, FALSE)

\* ------------------------------------------------------------ the importer
Frame(l, rev) == [l |-> l, rev |-> rev, pos |-> 0]
Start(l) == [stack |-> <<Frame(l, FALSE)>>, out |-> <<>>]
Done(im) == im.stack = <<>>
Import1(mo, im) ==
    LET n == Len(im.stack)
        f == im.stack[n]
        its == mo.lines[f.l].items
        below == SubSeq(im.stack, 1, n - 1)
    IN  IF f.pos = Len(its) THEN [im EXCEPT !.stack = below]
        ELSE LET it == its[IF f.rev THEN Len(its) - f.pos ELSE f.pos + 1]
                 st == Append(below, [f EXCEPT !.pos = @ + 1])
             IN  IF it.k = "e" THEN [stack |-> st, out |-> Append(im.out, it.id)]
                 ELSE [im EXCEPT !.stack = Append(st, Frame(it.id, f.rev # (it.rev = 1)))]
RECURSIVE Run(_, _)
Run(mo, im) == IF Done(im) THEN im.out ELSE Run(mo, Import1(mo, im))

\* the value an imported parameter has
Val(mo, v) == IF v[1] = "r" THEN <<"n", mo.cache[v[2]][1], mo.cache[v[2]][2]>> ELSE v
Has(e, k) == \E i \in 1..Len(e.pars) : e.pars[i].k = k
Raw(e, k) == e.pars[CHOOSE i \in 1..Len(e.pars) : e.pars[i].k = k].v
Get(mo, e, k) == Val(mo, Raw(e, k))
Num(v) == <<v[2], v[3]>>

\* ------------------------------------------------------------ the Warp file
Drifts == {"DRIF", "CSRDRIFT", "EDRIFT", "LSCDRIFT"}
Bends == {"CSBEND", "SBEN", "CSRCSBEND", "KSBEND", "NIBEND", "RBEN", "TUBEND"}
Quads == {"QUAD", "KQUAD"}
Sexts == {"SEXT", "KSEXT"}
WarpType(t) == CASE t \in Bends -> "Bend" [] t \in Quads -> "Quad" [] t \in Sexts -> "Sext" [] OTHER -> "Drft"
Mapped(t) == t \in Drifts \cup Bends \cup Quads \cup Sexts
Extra(t) == IF t \in Bends THEN {"rc"} ELSE IF t \in Quads \cup Sexts THEN {"db"} ELSE {}
Wanted(t) == {"l"} \cup Extra(t)
Writable(mo, s) == \A i \in 1..Len(s) : LET e == mo.elems[s[i]] IN Mapped(e.type) => \A k \in Wanted(e.type) : Has(e, k)
Def(mo, e) == [name |-> e.name, type |-> WarpType(e.type),
               pars |-> IF Mapped(e.type) THEN [k \in Wanted(e.type) |-> Get(mo, e, k)]
                        ELSE [k \in {"l"} |-> IF Has(e, "l") THEN Get(mo, e, "l") ELSE <<"n", 0, 1>>]]
\* the writer goes along the line and defines every element where it is first met
Writer == [defs |-> <<>>, line |-> <<>>]
Defined(w, n) == \E i \in 1..Len(w.defs) : w.defs[i].name = n
Write1(mo, w, e) == [defs |-> IF Defined(w, mo.elems[e].name) THEN w.defs ELSE Append(w.defs, Def(mo, mo.elems[e])),
                     line |-> Append(w.line, mo.elems[e].name)]
RECURSIVE WriteAll(_, _, _)
WriteAll(mo, w, s) == IF s = <<>> THEN w ELSE WriteAll(mo, Write1(mo, w, Head(s)), Tail(s))

\* ------------------------------------------------------------ the elegant to Warp command
(* Gradients are the normalised strength times the rigidity p/c: the model counts them
   in units of (10^6 V)/c, so that a momentum of p MeV/c gives the rigidity p.  Warp
   gets them with the opposite sign.                                                  *)
Convertible(mo, e) == LET t == e.type
                      IN  /\ t \in Quads => Has(e, "k1") /\ Has(e, "l")
                          /\ t \in Sexts => Has(e, "k2") /\ Has(e, "l")
                          /\ t \in Bends => Has(e, "l") /\ Has(e, "angle") /\ Get(mo, e, "angle")[2] # 0
                          /\ t \in Drifts => Has(e, "l")
SetPar(e, k, v) == [e EXCEPT !.pars = Append(SelectSeq(@, LAMBDA x : x.k # k), [k |-> k, v |-> <<"n", v[1], v[2]>>])]
Convert(mo, e, p) ==
    LET t == e.type
    IN  CASE t \in Quads -> SetPar(e, "db", RMul(<<-1, 1>>, RMul(Num(Get(mo, e, "k1")), p)))
          [] t \in Sexts -> SetPar(e, "db", RMul(<<-1, 1>>, RMul(Num(Get(mo, e, "k2")), p)))
          [] t \in Bends -> SetPar(e, "rc", RDiv(Num(Get(mo, e, "l")), Num(Get(mo, e, "angle"))))
          [] OTHER -> e
ConvertAll(mo, p) == [mo EXCEPT !.elems = [i \in 1..Len(@) |-> IF Convertible(mo, @[i]) THEN Convert(mo, @[i], p) ELSE @[i]]]

------------------------------------------------------------------------------
(* conformance.  Events:
   import  [status, obs: sequence of [name, type, pars: sequence of [k, v]]]
   write   [status, touched, obs: [defs, line]]        (gradients in T)
   command [status, p, obs]                            (gradients in 10^6 V/c)       *)
FnPars(ps) == {<<ps[i].k, ps[i].v>> : i \in 1..Len(ps)}
ElemClause(mo, o, e) ==
    CASE o.name # e.name -> "order"
      [] o.type # e.type -> "type"
      [] {o.pars[i].k : i \in 1..Len(o.pars)} # {e.pars[i].k : i \in 1..Len(e.pars)} -> "parameter-set"
      [] \E i \in 1..Len(o.pars) : o.pars[i].v # Get(mo, e, o.pars[i].k) -> "parameter-value"
      [] OTHER -> "ok"
ImportClause(mo, o) ==
    LET w == Run(mo, Start(1))
    IN  CASE Len(o) # Len(w) -> "element-count"
          [] \E i \in 1..Len(w) : ElemClause(mo, o[i], mo.elems[w[i]]) # "ok" ->
                LET i == CHOOSE x \in 1..Len(w) : ElemClause(mo, o[x], mo.elems[w[x]]) # "ok" IN ElemClause(mo, o[i], mo.elems[w[i]])
          [] OTHER -> "ok"
DefClause(o, d) ==
    CASE o.name # d.name -> "definition"
      [] o.type # d.type -> "definition-type"
      [] FnPars(o.pars) # {<<k, d.pars[k]>> : k \in DOMAIN d.pars} -> "definition-value"
      [] OTHER -> "ok"
\* an odd name may be written in any way, always the same for the same element only
Alias(mo, o, w, n) ==
    IF ~(\E i \in 1..Len(o.line) : o.line[i] = n) THEN n
    ELSE LET i == CHOOSE i \in 1..Len(o.line) : o.line[i] = n /\ \A j \in 1..(i - 1) : o.line[j] # n
         IN  IF i <= Len(w.line) /\ \E x \in 1..Len(mo.elems) : mo.elems[x].odd = 1 /\ mo.elems[x].name = w.line[i] THEN w.line[i] ELSE n
WriteClause(mo, o0) ==
    LET w == WriteAll(mo, Writer, Run(mo, Start(1)))
        o == [line |-> [i \in 1..Len(o0.line) |-> Alias(mo, o0, w, o0.line[i])],
              defs |-> [i \in 1..Len(o0.defs) |-> [o0.defs[i] EXCEPT !.name = Alias(mo, o0, w, @)]]]
    IN  CASE o.line # w.line -> "line-order"
          [] {o.defs[i].name : i \in 1..Len(o.defs)} # {w.defs[i].name : i \in 1..Len(w.defs)} -> "definitions"
          [] Len(o.defs) # Len(w.defs) -> "defined-twice"
          [] \E i, j \in 1..Len(w.defs) : o.defs[i].name = w.defs[j].name /\ DefClause(o.defs[i], w.defs[j]) # "ok" ->
                LET x == CHOOSE x \in (1..Len(w.defs)) \X (1..Len(w.defs)) :
                            o.defs[x[1]].name = w.defs[x[2]].name /\ DefClause(o.defs[x[1]], w.defs[x[2]]) # "ok"
                IN  DefClause(o.defs[x[1]], w.defs[x[2]])
          [] OTHER -> "ok"

SirepoInit(t) == t.model
SirepoStep(mo, e) == IF e.op = "edit" THEN [mo EXCEPT !.elems[e.e] = SetPar(@, e.k, Num(e.v))] ELSE mo
SirepoVerdict(mo, e) ==
    CASE e.op = "import" -> IF e.status # "ok" THEN "import-" \o e.status ELSE ImportClause(mo, e.obs)
      [] e.op = "edit" -> IF e.status # "ok" THEN "edit-" \o e.status ELSE "ok"
      [] e.op \in {"write", "command"} ->
            LET m2 == IF e.op = "command" THEN ConvertAll(mo, e.p) ELSE mo
            IN  IF ~Writable(m2, Run(m2, Start(1)))
                THEN (IF e.status = "ok" THEN "missing-parameter-accepted" ELSE IF e.touched = 1 THEN "refused-but-file-touched" ELSE "ok")
                ELSE IF e.status # "ok" THEN e.op \o "-" \o e.status ELSE WriteClause(m2, e.obs)
=============================================================================
