-------------------------------- MODULE Chain ---------------------------------
(* A session that moves lattices between files and memory: elegant and Sirepo files
   are imported, elements edited and appended, lattices saved to and loaded from
   YAML and exported for Warp; file names are used again for something else.

   A lattice is a sequence of boxes, the first one the top line; a box has its items
   ([k |-> "e", n |-> name] or [k |-> "s", n |-> box]) and the values [t, l, k] of
   its elements by name (t = 0: no such element), shared by all occurrences in the box.
   files: [kind, lat] by file, slots: lattice by slot (<<>>: nothing there yet)      *)
EXTENDS Integers, Sequences, FiniteSets

None == [t |-> 0, l |-> 0, k |-> 0]
RECURSIVE Listing(_, _)
\* the elements of items in order, as <<name, value>>
Listing(lat, box) ==
    LET RECURSIVE go(_)
        go(i) == IF i > Len(lat[box].items) THEN <<>>
                 ELSE LET it == lat[box].items[i] IN
                      (IF it.k = "e" THEN <<[n |-> it.n, v |-> lat[box].val[it.n]]>> ELSE Listing(lat, it.n)) \o go(i + 1)
    IN go(1)
Flat(lat) == IF lat = <<>> THEN <<>> ELSE Listing(lat, 1)
RECURSIVE Total(_)
Total(fl) == IF fl = <<>> THEN 0 ELSE Head(fl).v.l + Total(Tail(fl))

\* what is saved: every occurrence of a line is a line of its own (lines are one level deep)
Unfold(lat) ==
    LET top == lat[1].items
        at(i) == 1 + Cardinality({j \in 1..i : top[j].k = "s"})
        subs == SelectSeq(top, LAMBDA it : it.k = "s")
    IN  <<[lat[1] EXCEPT !.items = [i \in 1..Len(top) |-> IF top[i].k = "s" THEN [k |-> "s", n |-> at(i)] ELSE top[i]]]>>
        \o [i \in 1..Len(subs) |-> lat[subs[i].n]]
\* one name has one value: what a format with global definitions can hold
Consistent(lat) == LET fl == Flat(lat) IN \A i, j \in 1..Len(fl) : fl[i].n = fl[j].n => fl[i].v = fl[j].v

Edited(lat, b, n, f, x) == [lat EXCEPT ![b].val[n] = IF f = "l" THEN [@ EXCEPT !.l = x] ELSE [@ EXCEPT !.k = x]]
\* an element that exists is placed again, as it is
Appended(lat, n, v) == [lat EXCEPT ![1].items = Append(@, [k |-> "e", n |-> n]),
                                   ![1].val[n] = IF @.t = 0 THEN v ELSE @]

------------------------------------------------------------------------------
(* e.op:  "write"  file f becomes an elegant or Sirepo file (kind) with lattice lat
          "import" slot s := file f
          "save"   YAML file f := slot s     "load" slot s := YAML file f
          "edit"   in box b of slot s, element n: parameter f ("l" or "k") := x
          "append" element n with value v to the top line of slot s
          "export" file f := Warp file of slot s; obs: out, the line of the file
   obs of all: status; look: the listing of every slot, tot: their lengths          *)
ChainInit(t) == [files |-> [i \in 1..t.nf |-> [kind |-> "none", lat |-> <<>>]], slots |-> [i \in 1..t.ns |-> <<>>]]
ChainStep(s, e) ==
    CASE e.op = "write" -> [s EXCEPT !.files[e.f] = [kind |-> e.kind, lat |-> e.lat]]
      [] e.op \in {"import", "load"} -> [s EXCEPT !.slots[e.s] = s.files[e.f].lat]
      [] e.op = "save" -> [s EXCEPT !.files[e.f] = [kind |-> "yaml", lat |-> Unfold(s.slots[e.s])]]
      [] e.op = "edit" -> [s EXCEPT !.slots[e.s] = Edited(@, e.b, e.n, e.p, e.x)]
      [] e.op = "append" -> [s EXCEPT !.slots[e.s] = Appended(@, e.n, e.v)]
      [] e.op = "export" -> [s EXCEPT !.files[e.f] = [kind |-> "warp", lat |-> <<>>]]
\* Warp knows drifts (also for what it does not know), quadrupoles with their field, bends with their radius
InWarp(x) == [n |-> x.n, v |-> IF x.v.t \in {2, 3} THEN x.v ELSE [t |-> 1, l |-> x.v.l, k |-> 0]]
ChainVerdict(s, e) ==
    LET n == ChainStep(s, e) IN
    CASE e.status # "ok" -> "refused"
      [] \E i \in 1..Len(n.slots) : e.look[i] # Flat(n.slots[i]) -> "elements"
      [] \E i \in 1..Len(n.slots) : e.tot[i] # Total(Flat(n.slots[i])) -> "length"
      [] e.op = "export" /\ e.out # [i \in 1..Len(Flat(s.slots[e.s])) |-> InWarp(Flat(s.slots[e.s])[i])] -> "export"
      [] OTHER -> "ok"
===============================================================================
