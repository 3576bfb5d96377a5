----------------------------- MODULE MC_Beamline -----------------------------
EXTENDS Beamline, TLC, Json

CONSTANTS Ops,        \* operations explored
          ENames, LNames,
          Tpl,        \* element templates [type, pars]
          Edits,      \* parameter lists for edits (sequences of [k, v])
          Keys,       \* parameter names for reads and deletions
          MaxLines, MaxElems, Depth, Fin,   \* Fin: every behaviour ends with this operation ("" for none)
          Rand

Vals == <<<<5, 2>>, <<4, 1>>>>      \* values of the variables 1 and 2

Pick(S) == IF Rand THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

VARIABLES bl, h
vars == <<bl, h>>
Init == bl = New /\ h = <<>>
Do(e) == bl' = Apply(bl, e) /\ h' = Append(h, e)
L == 1..Len(bl.lines)
E == 1..Len(bl.elems)
NItems == LET RECURSIVE n(_)
              n(l) == IF l = 0 THEN 0 ELSE Len(bl.lines[l].items) + n(l - 1)
          IN n(Len(bl.lines))
On(op) == op \in Ops

Add == On("add") /\ \E l \in Pick(L), n \in Pick(ENames) :
         \* the template of an element that exists is ignored
         \E t \in Pick(IF Find(bl.lines[l].elems, n) # 0 THEN {CHOOSE x \in Tpl : TRUE} ELSE Tpl),
            s \in Pick(IF On("sub") /\ CanSub(bl, l) THEN {0, 1} ELSE {0}) :
         /\ Find(bl.lines[l].elems, n) = 0 => Len(bl.elems) < MaxElems
         /\ Do([op |-> "add", l |-> l, name |-> n, type |-> t.type, pars |-> t.pars, sub |-> s])
Copy == On("copy") /\ \E l \in Pick(L), n \in Pick(ENames), e \in Pick(E) :
         /\ Find(bl.lines[l].elems, n) = 0 /\ Len(bl.elems) < MaxElems
         /\ Do([op |-> "copy", l |-> l, name |-> n, from |-> e])
Line == On("line") /\ \E l \in Pick(L), n \in Pick(LNames) :
         /\ Find(bl.lines[l].subs, n) = 0 => Len(bl.lines) < MaxLines
         /\ Rand => Len(Flatten(AddLine(bl, l, n), 1)) < 200
         /\ Do([op |-> "line", l |-> l, name |-> n])
EditN == On("editname") /\ \E l \in Pick(L), n \in Pick(ENames), p \in Pick(Edits) :
         Do([op |-> "editname", l |-> l, name |-> n, pars |-> p])
EditI == On("editidx") /\ \E l \in Pick(L), p \in Pick(Edits) :
         \E i \in Pick({x \in 1..Len(bl.lines[l].items) : bl.lines[l].items[x].k = "e"}) :
           Do([op |-> "editidx", l |-> l, i |-> i, pars |-> p])
SetOp == \E o \in Pick({"set", "update", "setdefault"} \cap Ops), e \in Pick(E), p \in Pick(Edits) :
         /\ o # "update" => Len(p) = 1
         /\ Do([op |-> o, e |-> e, pars |-> p])
ReadOp == \E o \in Pick({"get", "in"} \cap Ops), e \in Pick(E), k \in Pick(Keys) :
         Do([op |-> o, e |-> e, key |-> k])
DelOp == \E o \in Pick({"del", "pop"} \cap Ops), e \in Pick(E), k \in Pick(Keys) :
         /\ k \in DOMAIN bl.elems[e].pars
         /\ Do([op |-> o, e |-> e, key |-> k])
Refuse == On("refuse") /\ \E w \in Pick({"length", "edge"}) : (w = "edge" => bl.elems # <<>>) /\ Do([op |-> "refuse", what |-> w])
SaveOp == On("save") /\ \E l \in Pick(L), f \in Pick(FileNames) :
         (f = "f2" => bl.files["f1"] # <<>>) /\ Do([op |-> "save", l |-> l, f |-> f])
LoadOp == On("load") /\ \E f \in Pick({x \in FileNames : bl.files[x] # <<>>}) : Do([op |-> "load", f |-> f])
MatOp == On("matrix") /\ \E l \in Pick(L), c \in Pick({0, 1}), p \in Pick({1, -1}) :
         /\ AllDecidable(bl, l, p, Vals)
         /\ Do([op |-> "matrix", l |-> l, concat |-> c, plane |-> p, vals |-> Vals])

Next == /\ Len(h) < Depth
        /\ (Fin # "" /\ Len(h) > 0 /\ ~Rand) => h[Len(h)].op # Fin
        /\ IF Fin = "" \/ Len(h) < Depth - 1
           THEN Add \/ Copy \/ Line \/ EditN \/ EditI \/ SetOp \/ ReadOp \/ DelOp \/ Refuse \/ SaveOp \/ LoadOp \/ MatOp
           ELSE CASE Fin = "matrix" -> MatOp [] Fin = "load" -> LoadOp
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------------- properties of the model
\* every element is in the flattened sequence of its own line, and nothing else is
Members == \A e \in E : \E i \in 1..Len(Flatten(bl, bl.elems[e].top)) : Flatten(bl, bl.elems[e].top)[i] = e
\* edges lie within the line and do not decrease along it
KnownPos(l) == Known(bl, Flatten(bl, l)) /\ \A i \in 1..Len(Flatten(bl, l)) : RLe(RZero, LenOf(bl.elems[Flatten(bl, l)[i]]))
Edges == \A e \in E : KnownPos(bl.elems[e].top) =>
            /\ RLe(RZero, Edge(bl, e))
            /\ RLe(RAdd(Edge(bl, e), LenOf(bl.elems[e])), Length(bl, bl.elems[e].top))
\* a step changes the sequence of lines that contain the line it acts on, only
Reach(l) == LET RECURSIVE go(_)
                go(S) == LET T == S \cup {bl.lines[x].items[i].id : <<x, i>> \in {<<x, i>> \in S \X (1..20) :
                                            i <= Len(bl.lines[x].items) /\ bl.lines[x].items[i].k = "l"}}
                         IN IF T = S THEN S ELSE go(T)
            IN go({l})
Local == [][\A l \in L : (h' # h /\ h'[Len(h')].op \in {"add", "copy", "line"}
                          /\ \A x \in Reach(l) : x # h'[Len(h')].l
                          /\ ~(h'[Len(h')].op = "add" /\ h'[Len(h')].sub = 1))
               => Flatten(bl', l) = Flatten(bl, l)]_vars
\* what was saved is what is loaded
Shape(b, items) == Saved(b, items)
RoundTrip == \A f \in FileNames : (bl.files[f] # <<>> /\ h[Len(h)].op = "load" /\ h[Len(h)].f = f)
               => \E l \in L : bl.lines[l].name = "loaded" /\ Saved(bl, bl.lines[l].items) = bl.files[f][1]
\* transfer matrices of drifts and quadrupoles have unit determinant
UnitDet == \A l \in L, p \in {1, -1} : AllDecidable(bl, l, p, Vals) => MDet(Product(Matrices(bl, l, p, Vals))) = ROne
Emit == Len(h) = Depth => PrintT("@@" \o ToJson(h))
=============================================================================
