------------------------------ MODULE Beamline ------------------------------
(* Beamline trees (rsbeams.rslattice.Beamline / Element).

   bl.lines[l]  [name, items, elems, subs, top]: items is the sequence
                [k |-> "e" | "l", id]; elems and subs map the names registered in
                this line to ids (sequences of [name, id])
   bl.elems[e]  [name, type, pars, top]: pars is a function from lower case
                parameter names to values
   bl.files[f]  what was saved under that name: <<>> or <<items>>, an item being
                [k |-> "e", name, type, pars] or [k |-> "l", items]

   A value is <<t, n, d>>:  1 the number n/d, 2 the string number n,
   3 the length theta_n / d with theta_1 = acos(3/5), theta_2 = ln 2,
   theta_3 = pi/2 (which makes transfer matrices rational), 4 variable n.      *)
EXTENDS Rat, Integers, Sequences, FiniteSets

FileNames == {"f1", "f2"}
Find(s, n) == LET I == {i \in 1..Len(s) : s[i].name = n}
              IN  IF I = {} THEN 0 ELSE s[CHOOSE i \in I : TRUE].id
Reg(s, n, i) == Append(s, [name |-> n, id |-> i])
Item(k, i) == [k |-> k, id |-> i]
NoPars == [k \in {} |-> <<0, 0, 0>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* pars in events are sequences of [k, v]; later entries win
RECURSIVE PutAll(_, _)
PutAll(f, s) == IF s = <<>> THEN f ELSE PutAll(Put(f, Head(s).k, Head(s).v), Tail(s))

NewLine(name, top) == [name |-> name, items |-> <<>>, elems |-> <<>>, subs |-> <<>>, top |-> top]
New == [lines |-> <<NewLine("top", 1)>>, elems |-> <<>>, files |-> [f \in FileNames |-> <<>>]]

RECURSIVE Flat(_, _)
Flat(bl, items) ==
    IF items = <<>> THEN <<>>
    ELSE (IF Head(items).k = "e" THEN <<Head(items).id>> ELSE Flat(bl, bl.lines[Head(items).id].items))
         \o Flat(bl, Tail(items))
Flatten(bl, l) == Flat(bl, bl.lines[l].items)

\* ------------------------------------------------------------ length and position
Known(bl, eids) == \A i \in 1..Len(eids) : "l" \in DOMAIN bl.elems[eids[i]].pars
                                              => bl.elems[eids[i]].pars["l"][1] = 1
LenOf(e) == IF "l" \in DOMAIN e.pars THEN <<e.pars["l"][2], e.pars["l"][3]>> ELSE RZero
SumLen(bl, eids) == RSumSeq([i \in 1..Len(eids) |-> LenOf(bl.elems[eids[i]])])
Length(bl, l) == SumLen(bl, Flatten(bl, l))
\* upstream edge of the (first occurrence of the) element in the whole line
First(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
Edge(bl, e) == LET f == Flatten(bl, bl.elems[e].top)
               IN  SumLen(bl, SubSeq(f, 1, First(f, e) - 1))

\* ------------------------------------------------------------ building
\* add an element to line l; with sub, to the line at its end
AddElement(bl, l, name, type, pars, sub) ==
    LET line == bl.lines[l]
        old == Find(line.elems, name)
        id == IF old = 0 THEN Len(bl.elems) + 1 ELSE old
        into == IF sub THEN line.items[Len(line.items)].id ELSE l
        b1 == IF old # 0 THEN bl
              ELSE [bl EXCEPT !.elems = Append(@, [name |-> name, type |-> type,
                                                   pars |-> PutAll(NoPars, pars), top |-> line.top]),
                              !.lines[l].elems = Reg(@, name, id)]
    IN  [b1 EXCEPT !.lines[into].items = Append(@, Item("e", id))]
CanSub(bl, l) == bl.lines[l].items # <<>> /\ bl.lines[l].items[Len(bl.lines[l].items)].k = "l"
AddLine(bl, l, name) ==
    LET line == bl.lines[l]
        old == Find(line.subs, name)
        id == IF old = 0 THEN Len(bl.lines) + 1 ELSE old
        b1 == IF old # 0 THEN bl
              ELSE [bl EXCEPT !.lines = Append([@ EXCEPT ![l].subs = Reg(@, name, id)], NewLine(name, line.top))]
    IN  [b1 EXCEPT !.lines[l].items = Append(@, Item("l", id))]

\* ------------------------------------------------------------ editing
SetPars(bl, e, ps) == [bl EXCEPT !.elems[e].pars = PutAll(@, ps)]
\* edit_element(name) reaches the elements directly in the line
RECURSIVE EditAll(_, _, _, _)
EditAll(bl, l, I, ps) ==
    IF I = {} THEN bl
    ELSE LET i == CHOOSE x \in I : TRUE
         IN  EditAll(SetPars(bl, bl.lines[l].items[i].id, ps), l, I \ {i}, ps)
EditName(bl, l, n, ps) ==
    EditAll(bl, l, {i \in 1..Len(bl.lines[l].items) :
                      bl.lines[l].items[i].k = "e" /\ bl.elems[bl.lines[l].items[i].id].name = n}, ps)
EditIdx(bl, l, i, ps) == EditAll(bl, l, {i}, ps)
DelPar(bl, e, k) == [bl EXCEPT !.elems[e].pars = Del(@, k)]

\* ------------------------------------------------------------ files
RECURSIVE Saved(_, _)
Saved(bl, items) ==
    [i \in 1..Len(items) |->
        IF items[i].k = "e"
        THEN [k |-> "e", name |-> bl.elems[items[i].id].name, type |-> bl.elems[items[i].id].type,
              pars |-> bl.elems[items[i].id].pars, items |-> <<>>]
        ELSE [k |-> "l", name |-> "", type |-> "", pars |-> NoPars,
              items |-> Saved(bl, bl.lines[items[i].id].items)]]
Save(bl, l, f) == [bl EXCEPT !.files[f] = <<Saved(bl, bl.lines[l].items)>>]
ParSeq(p) == LET RECURSIVE go(_)
                 go(D) == IF D = {} THEN <<>>
                          ELSE LET k == CHOOSE x \in D : TRUE IN <<[k |-> k, v |-> p[k]]>> \o go(D \ {k})
             IN  go(DOMAIN p)
\* sublines of a loaded line have names of their own (not stored): "" stands for it
RECURSIVE Fill(_, _, _)
Fill(bl, l, items) ==
    IF items = <<>> THEN bl
    ELSE LET it == Head(items)
             b1 == IF it.k = "e" THEN AddElement(bl, l, it.name, it.type, ParSeq(it.pars), FALSE)
                   ELSE LET id == Len(bl.lines) + 1
                            b2 == [bl EXCEPT !.lines = Append([@ EXCEPT ![l].items = Append(@, Item("l", id))],
                                                              NewLine("", bl.lines[l].top))]
                        IN  Fill(b2, id, it.items)
         IN  Fill(b1, l, Tail(items))
Load(bl, f) == LET id == Len(bl.lines) + 1
               IN  Fill([bl EXCEPT !.lines = Append(@, NewLine("loaded", id))], id, bl.files[f][1])

\* ------------------------------------------------------------ transfer matrices (one plane)
Cos(i) == CASE i = 1 -> <<3, 5>> [] i = 2 -> <<5, 4>> [] i = 3 -> <<0, 1>>
Sin(i) == CASE i = 1 -> <<4, 5>> [] i = 2 -> <<3, 4>> [] i = 3 -> <<1, 1>>
MMul(a, b) == <<<<RAdd(RMul(a[1][1], b[1][1]), RMul(a[1][2], b[2][1])), RAdd(RMul(a[1][1], b[1][2]), RMul(a[1][2], b[2][2]))>>,
                <<RAdd(RMul(a[2][1], b[1][1]), RMul(a[2][2], b[2][1])), RAdd(RMul(a[2][1], b[1][2]), RMul(a[2][2], b[2][2]))>>>>
MDet(a) == RSub(RMul(a[1][1], a[2][2]), RMul(a[1][2], a[2][1]))
MId == <<<<ROne, RZero>>, <<RZero, ROne>>>>
NumVal(v, vals) == IF v[1] = 4 THEN vals[v[2]] ELSE <<v[2], v[3]>>
DriftM(len) == <<<<ROne, len>>, <<RZero, ROne>>>>
RECURSIVE Root(_, _)
Root(n, k) == IF k * k >= n THEN k ELSE Root(n, k + 1)
(* plane = 1 horizontal, -1 vertical.  K1 = s k^2 and length theta/k: trigonometric
   where the quadrupole focuses, hyperbolic where it defocuses.  Length n/d with
   K1 = 0 is a drift.                                                            *)
QuadM(k1, len, plane) ==
    IF k1[1] = 0 THEN DriftM(<<len[2], len[3]>>)
    ELSE LET k == Root(RAbs(k1[1]), 1)
             foc == k1[1] * plane > 0
             c == Cos(len[2])
             s == Sin(len[2])
         IN  <<<<c, RDiv(s, RInt(k))>>, <<RMul(s, RInt(IF foc THEN -k ELSE k)), c>>>>
ElemM(e, plane, vals) == IF e.type = "drift" THEN DriftM(NumVal(e.pars["l"], vals))
                         ELSE QuadM(NumVal(e.pars["k1"], vals), e.pars["l"], plane)
\* the matrix can be decided in this plane: trigonometric quadrupoles carry theta_1 or theta_3, hyperbolic ones theta_2
Decidable(e, plane, vals) ==
    \/ e.type = "drift" /\ "l" \in DOMAIN e.pars /\ e.pars["l"][1] \in {1, 4}
    \/ /\ e.type = "quadrupole" /\ {"l", "k1"} \subseteq DOMAIN e.pars /\ e.pars["k1"][1] \in {1, 4}
       /\ LET k1 == NumVal(e.pars["k1"], vals)
              len == e.pars["l"]
              k == Root(RAbs(k1[1]), 1)
          IN  \/ k1[1] = 0 /\ len[1] = 1
              \/ /\ k1[1] # 0 /\ k1[2] = 1 /\ k * k = RAbs(k1[1]) /\ len[1] = 3 /\ len[3] = k
                 /\ (k1[1] * plane > 0) = (len[2] # 2)
AllDecidable(bl, l, plane, vals) == \A i \in 1..Len(Flatten(bl, l)) : Decidable(bl.elems[Flatten(bl, l)[i]], plane, vals)
Matrices(bl, l, plane, vals) == [i \in 1..Len(Flatten(bl, l)) |-> ElemM(bl.elems[Flatten(bl, l)[i]], plane, vals)]
RECURSIVE Product(_)
Product(ms) == IF ms = <<>> THEN MId ELSE MMul(Product(Tail(ms)), Head(ms))    \* M_n ... M_2 M_1

\* ------------------------------------------------------------ operations
Apply(bl, e) ==
    CASE e.op = "add" -> AddElement(bl, e.l, e.name, e.type, e.pars, e.sub = 1)
      [] e.op = "copy" -> AddElement(bl, e.l, e.name, bl.elems[e.from].type, ParSeq(bl.elems[e.from].pars), FALSE)
      [] e.op = "line" -> AddLine(bl, e.l, e.name)
      [] e.op = "editname" -> EditName(bl, e.l, e.name, e.pars)
      [] e.op = "editidx" -> EditIdx(bl, e.l, e.i, e.pars)
      [] e.op \in {"set", "update"} -> SetPars(bl, e.e, e.pars)
      [] e.op = "setdefault" -> IF e.pars[1].k \in DOMAIN bl.elems[e.e].pars THEN bl ELSE SetPars(bl, e.e, e.pars)
      [] e.op \in {"del", "pop"} -> DelPar(bl, e.e, e.key)
      [] e.op = "save" -> Save(bl, e.l, e.f)
      [] e.op = "load" -> Load(bl, e.f)
      [] OTHER -> bl                       \* reads, matrices, refused assignments

------------------------------------------------------------------------------
SamePars(o, p) == /\ {o[i].k : i \in 1..Len(o)} = DOMAIN p
                  /\ Len(o) = Cardinality(DOMAIN p)
                  /\ \A i \in 1..Len(o) : o[i].v = p[o[i].k]
SameM(o, m) == \A i, j \in 1..2 : RSame(o[i][j], m[i][j])
StateClause(bl, o) ==
    CASE Len(o.lines) # Len(bl.lines) -> "lines"
      [] Len(o.elems) # Len(bl.elems) -> "elements"
      [] \E l \in 1..Len(bl.lines) : o.lines[l].items # bl.lines[l].items -> "sequence"
      [] \E l \in 1..Len(bl.lines) : bl.lines[l].name # "" /\ o.lines[l].name # bl.lines[l].name -> "line-name"
      [] \E l \in 1..Len(bl.lines) : o.lines[l].flat # Flatten(bl, l) -> "flattened"
      [] \E l \in 1..Len(bl.lines) : {o.lines[l].elems[i] : i \in 1..Len(o.lines[l].elems)}
                                      # {bl.lines[l].elems[i] : i \in 1..Len(bl.lines[l].elems)} -> "names"
      [] \E l \in 1..Len(bl.lines) : \E i \in 1..Len(bl.lines[l].subs) :
             \A j \in 1..Len(o.lines[l].subs) : o.lines[l].subs[j] # bl.lines[l].subs[i] -> "line-names"
      [] \E e \in 1..Len(bl.elems) : o.elems[e].name # bl.elems[e].name -> "element-name"
      [] \E e \in 1..Len(bl.elems) : o.elems[e].type # bl.elems[e].type -> "element-type"
      [] \E e \in 1..Len(bl.elems) : ~SamePars(o.elems[e].pars, bl.elems[e].pars) -> "parameters"
      [] \E l \in 1..Len(bl.lines) : Known(bl, Flatten(bl, l)) /\ ~RSame(o.lines[l].len, Length(bl, l)) -> "length"
      [] \E e \in 1..Len(bl.elems) : Known(bl, Flatten(bl, bl.elems[e].top)) /\ ~RSame(o.elems[e].edge, Edge(bl, e)) -> "edge"
      [] \E e \in 1..Len(bl.elems) : o.elems[e].home # bl.elems[e].top -> "home"
      [] OTHER -> "ok"

BeamlineInit(t) == New
BeamlineStep(bl, e) == Apply(bl, e)
BeamlineVerdict(bl, e) ==
    LET b2 == Apply(bl, e)
        c == IF e.look = 1 THEN StateClause(b2, e.obs) ELSE "ok"      \* long histories are looked at now and then
    IN  CASE e.op = "refuse" /\ e.status = "ok" -> "assignment-accepted"
          [] e.op # "refuse" /\ e.status # "ok" -> e.op \o "-" \o e.status
          [] c # "ok" -> c
          [] e.op = "get" /\ e.got # (IF e.key \in DOMAIN bl.elems[e.e].pars THEN bl.elems[e.e].pars[e.key] ELSE <<0, 0, 0>>) -> "value-read"
          [] e.op = "pop" /\ e.got # bl.elems[e.e].pars[e.key] -> "value-popped"
          [] e.op = "in" /\ (e.got[2] = 1) # (e.key \in DOMAIN bl.elems[e.e].pars) -> "membership"
          [] e.op = "matrix" ->
               IF ~AllDecidable(bl, e.l, e.plane, e.vals) THEN "ok"
               ELSE LET ms == Matrices(bl, e.l, e.plane, e.vals)
                    IN  CASE e.zero # 1 -> "planes-coupled"
                          [] e.concat = 1 /\ ~SameM(e.m[1], Product(ms)) -> "matrix"
                          [] e.concat = 0 /\ Len(e.m) # Len(ms) -> "matrix-count"
                          [] e.concat = 0 /\ \E i \in 1..Len(ms) : ~SameM(e.m[i], ms[i]) -> "element-matrix"
                          [] OTHER -> "ok"
          [] OTHER -> "ok"
=============================================================================
