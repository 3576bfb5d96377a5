------------------------------- MODULE MC_Sdds -------------------------------
(* The reader as a machine over the records of every bounded file: it looks at
   one record at a time, keeps or skips each page, and must end with exactly
   the selected data.  Emits every (file, selection).                        *)
EXTENDS Sdds, TLC, Json

CONSTANTS Modes, Profiles, MaxPages, MaxRows, Sels, Trails

PageShapes == UNION {[1..n -> 0..MaxRows] : n \in 1..MaxPages}
Files == {[mode |-> m, ps |-> pr.ps, cs |-> pr.cs, rows |-> sh, trail |-> tr] :
            m \in Modes, pr \in Profiles, sh \in PageShapes, tr \in Trails}
Valid(f) == /\ f.mode = "blank" => \A p \in 1..Len(f.rows) : f.rows[p] > 0
            /\ f.cs = <<>> => \A p \in 1..Len(f.rows) : f.rows[p] = 0
            /\ f.mode # "bin" => Free(f) # <<>> \/ f.cs # <<>>
            /\ f.mode = "bin" => f.trail = "none"
            /\ f.cs = <<>> => f.trail \notin {"rowc"}
            /\ ~(f.mode = "bin" /\ f.ps = <<>> /\ f.cs = <<>>)

VARIABLES f, sel, pos, page, par, cnt, left, outp, outc, pc
vars == <<f, sel, pos, page, par, cnt, left, outp, outc, pc>>

Init == /\ f \in {x \in Files : Valid(x)}
        /\ sel \in Sels
        /\ pos = 0 /\ page = 0 /\ par = <<>> /\ cnt = -1 /\ left = <<>>
        /\ outp = <<>> /\ outc = <<>> /\ pc = "page"

L == Layout(f)
More == pos < Len(L)
Nxt == L[pos + 1]
Keep == sel = {} \/ page \in sel

StartPage == /\ pc = "page" /\ More
             /\ pc' = IF f.mode = "bin" THEN "count" ELSE "params"
             /\ par' = <<>> /\ left' = <<>> /\ cnt' = -1
             /\ UNCHANGED <<f, sel, pos, page, outp, outc>>
ReadCount == /\ pc = "count" /\ Nxt.k = "count"
             /\ cnt' = Nxt.v /\ pos' = pos + 1
             /\ pc' = IF f.mode = "bin" THEN "params" ELSE "rows"
             /\ UNCHANGED <<f, sel, page, par, left, outp, outc>>
ReadPar == /\ pc = "params" /\ Len(par) < Len(Free(f)) /\ Nxt.k = "par"
           /\ par' = Append(par, Nxt.v) /\ pos' = pos + 1
           /\ UNCHANGED <<f, sel, page, cnt, left, outp, outc, pc>>
EndPar == /\ pc = "params" /\ Len(par) = Len(Free(f))
          /\ pc' = IF f.mode = "count" /\ f.cs # <<>> THEN "count" ELSE "rows"
          /\ UNCHANGED <<f, sel, pos, page, par, cnt, left, outp, outc>>
RowNext == CASE f.cs = <<>> -> FALSE
             [] f.mode = "blank" -> More /\ Nxt.k = "row"
             [] OTHER -> Len(left) < cnt
ReadRow == /\ pc = "rows" /\ RowNext
           /\ left' = Append(left, Nxt.v) /\ pos' = pos + 1
           /\ UNCHANGED <<f, sel, page, par, cnt, outp, outc, pc>>
EndPage == /\ pc = "rows" /\ ~RowNext
           /\ pos' = IF f.mode = "blank" /\ f.cs # <<>> THEN pos + 1 ELSE pos
           /\ outp' = IF Keep /\ Free(f) # <<>> THEN Append(outp, par) ELSE outp
           /\ outc' = IF Keep /\ left # <<>> THEN Append(outc, left) ELSE outc
           /\ page' = page + 1 /\ pc' = "page"
           /\ UNCHANGED <<f, sel, par, cnt, left>>
Stop == /\ pc = "page" /\ (~More \/ (sel # {} /\ \A s \in sel : page > s))
        /\ pc' = "done" /\ UNCHANGED <<f, sel, pos, page, par, cnt, left, outp, outc>>
Next == StartPage \/ ReadCount \/ ReadPar \/ EndPar \/ ReadRow \/ EndPage \/ Stop
Spec == Init /\ [][Next]_vars

Exact == pc = "done" => outp = ReadParams(f, sel) /\ outc = ReadColumns(f, sel)
\* never more than the selection, and always a prefix of it
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Partial == Prefix(outp, ReadParams(f, sel)) /\ Prefix(outc, ReadColumns(f, sel))
\* page selection is the restriction of the full read
Restriction == pc = "done" =>
    \A i \in 1..Len(outc) : \E j \in 1..Len(ReadColumns(f, {})) : ReadColumns(f, {})[j] = outc[i]
InSync == pc = "count" => More
Emit == pc = "done" => PrintT("@@" \o ToJson([f |-> f, sel |-> sel]))
=============================================================================
