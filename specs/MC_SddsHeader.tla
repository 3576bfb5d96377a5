---------------------------- MODULE MC_SddsHeader ----------------------------
(* Headers built line by line.  Meta = TRUE: valid headers over attribute
   subsets and orders (D04).  Meta = FALSE: headers with at most one fault
   (D07).                                                                    *)
EXTENDS SddsHeader, TLC, Json

CONSTANTS MaxDefs, AttrSeqs, Types, BadTypes, Faults

Line(k, ok, kind, ty, attrs) == [k |-> k, ok |-> ok, kind |-> kind, ty |-> ty, attrs |-> attrs]
Plain(k) == Line(k, 0, "", "", <<>>)

VARIABLES ls, m, fault
vars == <<ls, m, fault>>
Init == ls = <<>> /\ m = Start /\ fault = "none"

Put(l) == /\ ls' = Append(ls, l) /\ m' = Consume(m, l)
Version == Len(ls) = 0 /\ Put(Line("version", 1, "", "", <<>>)) /\ UNCHANGED fault
BadVersion == Len(ls) = 0 /\ fault = "none" /\ "version" \in Faults
              /\ Put(Line("version", 0, "", "", <<>>)) /\ fault' = "version"
Going == Len(ls) >= 1 /\ (ls[Len(ls)].k # "data") /\ fault # "cut"
NDefs == Cardinality({i \in 1..Len(ls) : ls[i].k \in {"def"}})
Def == /\ Going /\ NDefs < MaxDefs
       /\ \E kind \in {"parameter", "column"} : \E a \in AttrSeqs[kind] : \E ty \in Types :
            Put(Line("def", 0, kind, ty, a))
       /\ UNCHANGED fault
BadDef == /\ Going /\ NDefs < MaxDefs /\ fault = "none" /\ "type" \in Faults
          /\ \E kind \in {"parameter", "column"} : \E ty \in BadTypes :
               Put(Line("def", 0, kind, ty, IF ty = "" THEN <<"units">> ELSE <<"type">>))
          /\ fault' = "type"
Skip == /\ Going /\ ls[Len(ls)].k # "skip" /\ "skip" \in Faults /\ Put(Plain("skip")) /\ UNCHANGED fault
Junk == /\ Going /\ fault = "none" /\ "junk" \in Faults /\ Put(Plain("junk")) /\ fault' = "junk"
Cut == /\ Going /\ fault = "none" /\ "cut" \in Faults /\ Put(Plain("cut")) /\ fault' = "cut"
Data == Going /\ Put(Plain("data")) /\ UNCHANGED fault
Next == Version \/ BadVersion \/ Def \/ BadDef \/ Skip \/ Junk \/ Cut \/ Data
Spec == Init /\ [][Next]_vars

Complete == ls # <<>> /\ ls[Len(ls)].k = "data"
Same == Complete => m = Run(Start, ls, 1)
\* a header with a fault is never opened, one without always is
Sound == (Complete => (Result(ls).st = "open" <=> fault = "none"))
         /\ (~Complete => Result(ls).st = "reject")
\* the order in which attributes are written does not matter
OrderFree == \A i \in 1..Len(m.defs) :
    LET e == m.defs[i] IN \A a \in KeysOf(e.kind) :
        e.f[a] = IF a \in Elems(ls[e.d].attrs) THEN <<e.d, a>> ELSE <<0, Default(a)>>
Emit == (Complete \/ "truncate" \in Faults) => PrintT("@@" \o ToJson([lines |-> ls]))
=============================================================================
