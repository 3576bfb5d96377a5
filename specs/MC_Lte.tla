-------------------------------- MODULE MC_Lte --------------------------------
(* Writing a lattice file: definitions are written one after the other, lines
   item by item with parentheses opened and closed.                            *)
EXTENDS Lte, TLC, Json

CONSTANTS ENames, LNames, Types, Keys, Nums, Strs, VNums, VOps, Coefs,
          MaxVars, MaxElems, MaxPars, MaxLines, MaxTok, MaxVarTok, MaxRpnTok, MaxNest, MaxLen, Rand

Pick(S) == IF Rand THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

\* ph: "vars", "elems", "lines", "done"; ex: expression under construction; pr: parameters of the element under
\* construction; st: stack of open bodies <<[c, body]>>; tok: items written in this line
VARIABLES lat, ph, ex, pr, st, tok
vars == <<lat, ph, ex, pr, st, tok>>
Init == /\ lat = [vars |-> <<>>, elems |-> <<>>, lines |-> <<>>]
        /\ ph = IF MaxVars > 0 THEN "vars" ELSE "elems"
        /\ ex = <<>> /\ pr = <<>> /\ st = <<>> /\ tok = 0
NV == Len(lat.vars)
Tok(t, n, d) == [t |-> t, n |-> n, d |-> d]
Toks == {Tok("n", x[1], x[2]) : x \in VNums} \cup {Tok("v", i, 0) : i \in 1..NV} \cup {Tok(o, 0, 0) : o \in VOps}
Stack(e) == RunRpn(e, <<>>, Env(lat))
Small(r) == r # <<>> /\ (\A i \in 1..Len(r[1]) : RAbs(r[1][i][1]) < 5000 /\ r[1][i][2] < 1000) /\ Len(r[1]) <= 3
Extend(max) == \E k \in Pick(Toks) : /\ Len(ex) < max /\ Small(Stack(Append(ex, k))) /\ ex' = Append(ex, k)
Complete == ex # <<>> /\ Len(Stack(ex)[1]) = 1
\* ---- variables
VarTok == ph = "vars" /\ NV < MaxVars /\ Extend(MaxVarTok) /\ UNCHANGED <<lat, ph, pr, st, tok>>
VarEnd == ph = "vars" /\ Complete /\ lat' = [lat EXCEPT !.vars = Append(@, ex)] /\ ex' = <<>> /\ UNCHANGED <<ph, pr, st, tok>>
VarsDone == ph = "vars" /\ ex = <<>> /\ NV > 0 /\ ph' = "elems" /\ UNCHANGED <<lat, ex, pr, st, tok>>
\* ---- elements
KeyFree(k) == \A i \in 1..Len(pr) : pr[i].k # k
ParLit == ph = "elems" /\ Len(lat.elems) < MaxElems /\ ex = <<>> /\ Len(pr) < MaxPars
          /\ \E k \in Pick(Keys), v \in Pick({[t |-> "num", x |-> y] : y \in Nums} \cup {[t |-> "str", x |-> <<y, 0>>] : y \in Strs}) :
                KeyFree(k) /\ pr' = Append(pr, [k |-> k, v |-> v])
          /\ UNCHANGED <<lat, ph, ex, st, tok>>
ParTok == ph = "elems" /\ Len(lat.elems) < MaxElems /\ Len(pr) < MaxPars /\ Extend(MaxRpnTok) /\ UNCHANGED <<lat, ph, pr, st, tok>>
ParEnd == ph = "elems" /\ Complete /\ \E k \in Pick(Keys) : KeyFree(k) /\ pr' = Append(pr, [k |-> k, v |-> [t |-> "rpn", x |-> ex]])
          /\ ex' = <<>> /\ UNCHANGED <<lat, ph, st, tok>>
NameFree(n) == \A i \in 1..Len(lat.elems) : lat.elems[i].name # n
ElemEnd == ph = "elems" /\ ex = <<>> /\ Len(lat.elems) < MaxElems
           /\ \E n \in Pick({x \in ENames : NameFree(x)}), t \in Pick(Types) :
                lat' = [lat EXCEPT !.elems = Append(@, [name |-> n, type |-> t, pars |-> pr])]
           /\ pr' = <<>> /\ UNCHANGED <<ph, ex, st, tok>>
ElemsDone == ph = "elems" /\ ex = <<>> /\ pr = <<>> /\ lat.elems # <<>> /\ (Rand => Len(lat.elems) = MaxElems)
             /\ ph' = "lines" /\ st' = <<[c |-> 0, body |-> <<>>]>> /\ UNCHANGED <<lat, ex, pr, tok>>
\* ---- lines
Put(s, it) == [s EXCEPT ![Len(s)].body = Append(@, it)]
Item(c, k, i, g) == [c |-> c, k |-> k, i |-> i, g |-> g]
RECURSIVE Closed(_)
Closed(s) == IF Len(s) = 1 THEN s
             ELSE Closed(Put(SubSeq(s, 1, Len(s) - 1), Item(s[Len(s)].c, "g", 0, s[Len(s)].body)))
\* items in a body, counted up to a limit
Lim == 20000
Clip(n) == IF n > Lim THEN Lim ELSE n
RECURSIVE Count(_)
Count(body) == IF body = <<>> THEN 0
               ELSE LET it == Head(body)
                    IN  Clip(Times(it.c) * (CASE it.k = "e" -> 1 [] it.k = "l" -> Count(lat.lines[it.i].body) [] OTHER -> Count(it.g))
                             + Count(Tail(body)))
RECURSIVE Mult(_)
Mult(s) == IF s = <<>> THEN 1 ELSE Clip(Times(Head(s).c) * Mult(Tail(s)))
Ref == ph = "lines" /\ tok < MaxTok
       /\ \E c \in Pick(Coefs), r \in Pick({<<"e", i>> : i \in 1..Len(lat.elems)} \cup {<<"l", i>> : i \in 1..Len(lat.lines)}) :
            /\ st' = Put(st, Item(c, r[1], r[2], <<>>))
            /\ Count(Closed(st')[1].body) <= MaxLen
       /\ tok' = tok + 1 /\ UNCHANGED <<lat, ph, ex, pr>>
Open == ph = "lines" /\ tok < MaxTok /\ Len(st) <= MaxNest
        /\ \E c \in Pick(Coefs \ {0}) : st' = Append(st, [c |-> c, body |-> <<>>])
        /\ (Rand => Mult(st') <= MaxLen) /\ UNCHANGED <<lat, ph, ex, pr, tok>>
Close == ph = "lines" /\ Len(st) > 1 /\ st[Len(st)].body # <<>>
         /\ st' = Put(SubSeq(st, 1, Len(st) - 1), Item(st[Len(st)].c, "g", 0, st[Len(st)].body))
         /\ UNCHANGED <<lat, ph, ex, pr, tok>>
\* in simulation, parentheses nothing fits in are not written after all
Drop == Rand /\ ph = "lines" /\ Len(st) > 1 /\ st[Len(st)].body = <<>> /\ tok >= 2
        /\ st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<lat, ph, ex, pr, tok>>
LineEnd == ph = "lines" /\ Len(st) = 1 /\ st[1].body # <<>> /\ Len(lat.lines) < MaxLines
           /\ (Rand => tok >= 2)
           /\ \E n \in Pick({x \in LNames : \A i \in 1..Len(lat.lines) : lat.lines[i].name # x}) :
                lat' = [lat EXCEPT !.lines = Append(@, [name |-> n, body |-> st[1].body])]
           /\ st' = <<[c |-> 0, body |-> <<>>]>> /\ tok' = 0
           /\ ph' = (IF Len(lat.lines) + 1 = MaxLines THEN "done" ELSE "lines")
           /\ UNCHANGED <<ex, pr>>
\* in simulation a drawn parameter may not fit: draw again
Again == Rand /\ ph # "done" /\ UNCHANGED vars
Next == Again \/ VarTok \/ VarEnd \/ VarsDone \/ ParLit \/ ParTok \/ ParEnd \/ ElemEnd \/ ElemsDone \/ Ref \/ Drop \/ Open \/ Close \/ LineEnd
Spec == Init /\ [][Next]_vars

\* the expansion of a line has the length its multiplicities say
RECURSIVE Weight(_)
Weight(body) == IF body = <<>> THEN 0
                ELSE LET it == Head(body)
                     IN  Times(it.c) * (CASE it.k = "e" -> 1 [] it.k = "l" -> Weight(lat.lines[it.i].body) [] OTHER -> Weight(it.g))
                         + Weight(Tail(body))
Counted == \A l \in 1..Len(lat.lines) : Len(Expand(lat, lat.lines[l].body)) = Weight(lat.lines[l].body)
\* a parenthesised group without coefficient does not matter (2*(x) = x, x)
Grouping == \A l \in 1..Len(lat.lines) : LET b == lat.lines[l].body
                                         IN Expand(lat, <<Item(2, "g", 0, b)>>) = Expand(lat, b \o b)
Emit == ph = "done" => PrintT("@@" \o ToJson(lat))
=============================================================================
