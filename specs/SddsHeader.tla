----------------------------- MODULE SddsHeader -----------------------------
(* The SDDS header: a stream of lines consumed by a small machine which either
   ends in "open" with a table of definitions or rejects the file.
   A line is one of
     [k |-> "version", ok |-> 0/1]        first line of the file
     [k |-> "def", kind |-> "parameter"/"column", ty, attrs]
                                          attrs: sequence of keys in the order written;
                                          the value of key a of definition d is the token <<d, a>>
     [k |-> "skip"]                       description, include or associate entry
     [k |-> "data"]                       ends the header
     [k |-> "junk"], [k |-> "cut"]        anything else; a definition without end
   All fields are always present; unused ones are empty.                     *)
EXTENDS Integers, Sequences, FiniteSets

KnownTypes == {"double", "float", "long", "short", "string"}
ParKeys == {"symbol", "units", "description", "format_string", "type", "fixed_value"}
ColKeys == {"symbol", "units", "description", "format_string", "type"}
KeysOf(kind) == IF kind = "parameter" THEN ParKeys ELSE ColKeys

Elems(s) == {s[i] : i \in 1..Len(s)}
Fixed(l) == "fixed_value" \in Elems(l.attrs)
TypeOk(l) == /\ "type" \in Elems(l.attrs)
             /\ l.ty \in KnownTypes

\* an absent attribute has the documented default
Default(a) == IF a = "fixed_value" THEN "none" ELSE "empty"

\* reading one definition, attribute by attribute: the last step of the fold is the entry of the table
RECURSIVE FoldAttrs(_, _, _, _)
FoldAttrs(kind, attrs, d, i) ==
    IF i = 0 THEN [a \in KeysOf(kind) |-> <<0, Default(a)>>]
    ELSE LET prev == FoldAttrs(kind, attrs, d, i - 1)
         IN  IF attrs[i] \in KeysOf(kind) THEN [prev EXCEPT ![attrs[i]] = <<d, attrs[i]>>] ELSE prev
Entry(l, d) == [kind |-> l.kind, d |-> d, f |-> FoldAttrs(l.kind, l.attrs, d, Len(l.attrs))]

Start == [st |-> "start", defs |-> <<>>, n |-> 0]
Consume(m, l) ==
    LET m1 == [m EXCEPT !.n = @ + 1] IN
    CASE m.st = "start" -> [m1 EXCEPT !.st = IF l.k = "version" /\ l.ok = 1 THEN "defs" ELSE "reject"]
      [] m.st = "defs" /\ l.k = "def" ->
            IF TypeOk(l) THEN [m1 EXCEPT !.defs = Append(@, Entry(l, m1.n))] ELSE [m1 EXCEPT !.st = "reject"]
      [] m.st = "defs" /\ l.k = "skip" -> m1
      [] m.st = "defs" /\ l.k = "data" -> [m1 EXCEPT !.st = "open"]
      [] m.st = "defs" -> [m1 EXCEPT !.st = "reject"]
      [] OTHER -> m1
RECURSIVE Run(_, _, _)
Run(m, ls, i) == IF i > Len(ls) THEN m ELSE Run(Consume(m, ls[i]), ls, i + 1)
Result(ls) == LET m == Run(Start, ls, 1) IN IF m.st = "open" THEN m ELSE [m EXCEPT !.st = "reject"]

------------------------------------------------------------------------------
SddsHeaderInit(t) == [m |-> Result(t.lines), open |-> FALSE]
SddsHeaderStep(st, e) == IF e.op = "open" THEN [st EXCEPT !.open = (e.status = "ok")] ELSE st
EntryOf(m, d) == m.defs[CHOOSE i \in 1..Len(m.defs) : m.defs[i].d = d]
SddsHeaderVerdict(st, e) ==
    IF e.op = "open"
    THEN CASE st.m.st = "open" /\ e.status # "ok" -> "valid-file-refused-" \o e.status
           [] st.m.st = "reject" /\ e.status # "err" -> "bad-file-" \o e.status
           [] OTHER -> "ok"
    ELSE \* query of one attribute through the public accessors
         IF ~st.open THEN "query-on-refused-file"
         ELSE LET want == EntryOf(st.m, e.d).f[e.key]
              IN  IF <<e.v1, e.v2>> = want THEN "ok" ELSE "wrong-" \o e.key
=============================================================================
