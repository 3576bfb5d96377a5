------------------------------ MODULE PhaseSpace ------------------------------
(* The 6D phase-space container (rsbeams.rsptcls.RsPhaseSpace6D) and its files.

   st.c[i]  [arr, file, bad]: a 6 x n integer array, the file name; bad when a
            malformed array was refused and nothing valid was given since
   st.disk  sequence of [name, arr]: what is stored under a name                *)
EXTENDS Integers, Sequences

C6 == 1..6
Zeros(n) == [i \in C6 |-> [k \in 1..n |-> 0]]
Empty == [c |-> <<>>, disk |-> <<>>]
Stored(st, name) == \E i \in 1..Len(st.disk) : st.disk[i].name = name
Slot(st, name) == CHOOSE i \in 1..Len(st.disk) : st.disk[i].name = name
Put(disk, name, arr) == IF \E i \in 1..Len(disk) : disk[i].name = name
                        THEN [i \in 1..Len(disk) |-> IF disk[i].name = name THEN [name |-> name, arr |-> arr] ELSE disk[i]]
                        ELSE Append(disk, [name |-> name, arr |-> arr])
WellFormed(a) == Len(a) = 6 /\ Len(a[1]) > 0

Legal(st, e) == CASE e.op \in {"new", "setn"} -> e.n > 0
                  [] e.op = "set" -> WellFormed(e.arr)
                  [] e.op = "file" -> e.name # ""
                  [] e.op = "read" -> Stored(st, st.c[e.i].file)
                  [] OTHER -> TRUE
Apply(st, e) ==
    IF ~Legal(st, e) THEN (IF e.op = "set" THEN [st EXCEPT !.c[e.i].bad = TRUE] ELSE st)
    ELSE CASE e.op = "new" -> [st EXCEPT !.c = Append(@, [arr |-> Zeros(e.n), file |-> "ps6d", bad |-> FALSE])]
           [] e.op = "setn" -> [st EXCEPT !.c[e.i].arr = Zeros(e.n), !.c[e.i].bad = FALSE]
           [] e.op = "set" -> [st EXCEPT !.c[e.i].arr = e.arr, !.c[e.i].bad = FALSE]
           [] e.op = "file" -> [st EXCEPT !.c[e.i].file = e.name]
           [] e.op = "poke" -> [st EXCEPT !.c[e.i].arr[e.r][e.k] = e.v]
           [] e.op = "write" -> [st EXCEPT !.disk = Put(@, st.c[e.i].file, st.c[e.i].arr)]
           [] e.op = "read" -> [st EXCEPT !.c[e.i].arr = st.disk[Slot(st, st.c[e.i].file)].arr, !.c[e.i].bad = FALSE]
           [] OTHER -> st

------------------------------------------------------------------------------
(* obs: per container [num, arr, rows, file]; rows the six named coordinates in
   order; disk: the sequence of [name, arr] found in the files                   *)
OneClause(o, c) == CASE o.file # c.file -> "file-name"
                     [] c.bad -> "ok"
                     [] o.arr # c.arr -> "array"
                     [] o.num # Len(c.arr[1]) -> "particle-count"
                     [] o.rows # c.arr -> "coordinate-rows"
                     [] OTHER -> "ok"
PhaseSpaceInit(t) == Empty
PhaseSpaceStep(st, e) == Apply(st, e)
PhaseSpaceVerdict(st, e) ==
    LET w == Apply(st, e)
    IN  CASE ~Legal(st, e) /\ e.status = "ok" -> e.op \o "-accepted"
          [] Legal(st, e) /\ e.status # "ok" -> e.op \o "-" \o e.status
          [] Len(e.obs) # Len(w.c) -> "containers"
          [] \E i \in 1..Len(w.c) : OneClause(e.obs[i], w.c[i]) # "ok" ->
                LET i == CHOOSE x \in 1..Len(w.c) : OneClause(e.obs[x], w.c[x]) # "ok" IN e.op \o "-" \o OneClause(e.obs[i], w.c[i])
          [] Len(e.disk) # Len(w.disk) \/ \E i \in 1..Len(w.disk) : \A j \in 1..Len(e.disk) : e.disk[j] # w.disk[i] -> e.op \o "-files"
          [] OTHER -> "ok"
=============================================================================
