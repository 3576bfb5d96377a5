-------------------------------- MODULE Sdds --------------------------------
(* SDDS version-1 data files and the reader (rsbeams.rsdata.SDDS.readSDDS).

   A file is  [mode, ps, cs, rows, trail]:
     mode  "bin"    binary: each page = row count, parameters, rows
           "count"  ASCII with row counts: parameters, row count, rows
           "blank"  ASCII, no_row_counts: parameters, rows, blank line
     ps    sequence of parameters, each [ty, fx]   (fx: value fixed in header)
     cs    sequence of column types
     rows  number of rows of each page
   Every stored datum has an identity <<page, row, index>> (row 0: parameter).
   The physical file is the sequence of its records; the reader consumes
   records one at a time, deciding at each page whether to keep it.          *)
EXTENDS Integers, Sequences, FiniteSets

Free(f) == SelectSeq([i \in 1..Len(f.ps) |-> i], LAMBDA i : ~f.ps[i].fx)
NPages(f) == Len(f.rows)

ParTokens(f, p) == [k \in 1..Len(Free(f)) |-> <<p, 0, Free(f)[k]>>]
RowTokens(f, p, r) == [j \in 1..Len(f.cs) |-> <<p, r, j>>]
\* the rows of a page; large files write them as one run of consecutive complete rows
RowSeq(f, p) == IF "runs" \in DOMAIN f /\ f.runs = 1 THEN <<<<p, 1, f.rows[p]>>>> ELSE [r \in 1..f.rows[p] |-> RowTokens(f, p, r)]

------------------------------------------------------------------------------
(* physical layout: what the encoder writes, record by record *)
PageRecords(f, p) ==
    LET par == [k \in 1..Len(Free(f)) |-> [k |-> "par", v |-> <<p, 0, Free(f)[k]>>]]
        cnt == <<[k |-> "count", v |-> f.rows[p]]>>
        rws == [r \in 1..f.rows[p] |-> [k |-> "row", v |-> RowTokens(f, p, r)]]
    IN  CASE f.mode = "bin"   -> cnt \o par \o rws
          [] f.mode = "count" -> par \o (IF f.cs = <<>> THEN <<>> ELSE cnt) \o rws
          [] f.mode = "blank" -> par \o rws \o (IF f.cs = <<>> THEN <<>> ELSE <<[k |-> "blank", v |-> 0]>>)

RECURSIVE LayoutFrom(_, _)
LayoutFrom(f, p) == IF p > NPages(f) THEN <<>> ELSE PageRecords(f, p) \o LayoutFrom(f, p + 1)
Layout(f) == LayoutFrom(f, 1)

------------------------------------------------------------------------------
(* what a read of the given selection must return. sel = {} stands for "all";
   page numbers in sel are 0-based as in the API.  A page without rows
   contributes its parameters and no entry to the columns.                   *)
Selected(f, sel) ==
    SelectSeq([p \in 1..NPages(f) |-> p], LAMBDA p : sel = {} \/ (p - 1) \in sel)
NonEmpty(f, ps) == SelectSeq(ps, LAMBDA p : f.rows[p] > 0)
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

ReadParams(f, sel) == IF Free(f) = <<>> THEN <<>>
                      ELSE MapSeq(Selected(f, sel), LAMBDA p : ParTokens(f, p))
ReadColumns(f, sel) == IF f.cs = <<>> THEN <<>>
                       ELSE MapSeq(NonEmpty(f, Selected(f, sel)), LAMBDA p : RowSeq(f, p))

------------------------------------------------------------------------------
(* trace interface.  The state is the file, plus the first observation made
   for each selection (for the equivalence of reading modes).                *)
Range(s) == {s[i] : i \in 1..Len(s)}
SddsInit(t) == [f |-> t.f, eq |-> t.eq, seen |-> <<>>]
Obs(e) == <<e.par, e.col, e.head>>
SddsStep(st, e) == IF st.eq = 0 THEN st ELSE [st EXCEPT !.seen = Append(@, [sel |-> Range(e.sel), o |-> Obs(e)])]
SddsVerdict(st, e) ==
    LET sel == Range(e.sel)
        same == {i \in 1..Len(st.seen) : st.seen[i].sel = sel}
    IN  CASE e.status # "ok" -> "read-failed-" \o e.status
          [] e.par # ReadParams(st.f, sel) -> "parameters"
          [] e.col # ReadColumns(st.f, sel) -> "columns"
          [] \E i \in same : st.seen[i].o # Obs(e) -> "modes-differ"
          [] OTHER -> "ok"
=============================================================================
