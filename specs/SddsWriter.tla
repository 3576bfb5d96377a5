----------------------------- MODULE SddsWriter -----------------------------
(* The SDDS writer object (rsbeams.rsdata.SDDS.writeSDDS) and the files it
   saves to.  The writer accumulates parameters and columns in order; a save
   either replaces the target by a complete snapshot of the writer or, when the
   columns differ in length, is refused and changes nothing.
   Parameter i of the writer: [ty, fx, me]; column j: [ty, n, me] with n rows;
   me = 1 when units, symbol and description were given.
   Target content is a version: 0 absent, -1 content that was there before,
   k > 0 the snapshot of the k-th operation.                                 *)
EXTENDS Integers, Sequences, FiniteSets

Targets == {"t1", "t2"}
Consistent(cols) == \A i, j \in 1..Len(cols) : cols[i].n = cols[j].n
Rows(cols) == IF cols = <<>> THEN 0 ELSE cols[1].n

New(pre) == [ps |-> <<>>, cs |-> <<>>, n |-> 0,
             files |-> [t \in Targets |-> IF pre[t] = 1 THEN -1 ELSE 0],
             snap |-> <<>>]          \* snapshots by version

CreatePar(w, p) == [w EXCEPT !.ps = Append(@, p), !.n = @ + 1, !.snap = Append(@, <<>>)]
CreateCol(w, c) == [w EXCEPT !.cs = Append(@, c), !.n = @ + 1, !.snap = Append(@, <<>>)]
Save(w, t) == IF Consistent(w.cs)
              THEN [w EXCEPT !.n = @ + 1, !.files[t] = w.n + 1,
                             !.snap = Append(@, <<[ps |-> w.ps, cs |-> w.cs]>>)]
              ELSE [w EXCEPT !.n = @ + 1, !.snap = Append(@, <<>>)]
Other(w) == [w EXCEPT !.n = @ + 1, !.snap = Append(@, <<>>)]

Apply(w, e) == CASE e.op = "par" -> CreatePar(w, e.p)
                 [] e.op = "col" -> CreateCol(w, e.c)
                 [] e.op = "save" -> Save(w, e.t)
                 [] OTHER -> Other(w)

------------------------------------------------------------------------------
(* what reading the snapshot back must show *)
FreeIdx(ps) == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ~ps[i].fx)
WantHead(s) == [i \in 1..Len(s.ps) |-> <<"par", i, s.ps[i].ty, s.ps[i].me, IF s.ps[i].fx THEN 1 ELSE 0>>]
               \o [j \in 1..Len(s.cs) |-> <<"col", j, s.cs[j].ty, s.cs[j].me, 0>>]
WantPar(s) == [k \in 1..Len(FreeIdx(s.ps)) |-> <<0, FreeIdx(s.ps)[k]>>]
(* many rows are observed as runs of complete consecutive rows *)
WantCol(s, runs) == IF runs = 1 /\ Rows(s.cs) > 0 THEN <<<<1, Rows(s.cs)>>>>
                    ELSE [r \in 1..Rows(s.cs) |-> [j \in 1..Len(s.cs) |-> <<r, j>>]]

SddsWriterInit(t) == New(t.pre)
SddsWriterStep(w, e) == Apply(w, e)
SddsWriterVerdict(w, e) ==
    CASE e.op \in {"par", "col"} -> IF e.status = "ok" THEN "ok" ELSE "create-" \o e.status
      [] e.op = "save" ->
            LET w2 == Save(w, e.t)
            IN  CASE Consistent(w.cs) /\ e.status # "ok" -> "valid-save-" \o e.status
                  [] e.status = "hang" -> "save-hang"
                  [] \E x \in Targets : e.files[x] # w2.files[x] ->
                        IF Consistent(w.cs) THEN "save-changed-other-target" ELSE "refused-save-changed-target"
                  [] e.extra # 0 -> "unexpected-file"
                  [] OTHER -> "ok"
      [] e.op = "read" ->
            IF w.files[e.t] <= 0 THEN "driver-read-of-nothing"
            ELSE LET s == w.snap[w.files[e.t]][1]
                 IN  CASE e.status # "ok" -> "read-" \o e.status
                       [] e.head # WantHead(s) -> "definitions"
                       [] e.par # WantPar(s) -> "parameter-values"
                       [] e.npages # (IF FreeIdx(s.ps) = <<>> THEN (IF Rows(s.cs) > 0 THEN 1 ELSE 0) ELSE 1) -> "pages"
                       [] e.col # WantCol(s, e.runs) -> "column-values"
                       [] OTHER -> "ok"
      [] OTHER -> "unknown-event"
=============================================================================
