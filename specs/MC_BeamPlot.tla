------------------------------ MODULE MC_BeamPlot ------------------------------
EXTENDS BeamPlot, TLC, Json

\* Mode "hist": small histograms, all of them; "file": random pages and plots
CONSTANTS Vals, Ns, Bs, Qs, Depth, Mode, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES pages, h
vars == <<pages, h>>
Init == pages = <<>> /\ h = <<>>
Do(e) == h' = Append(h, e) /\ pages' = IF e.op = "open" THEN e.pages ELSE pages
Column(n) == LET lo == RandomElement(Vals)
                 span == RandomElement({3, 5, 7, 9, 11})
                 f == RandomElement(1..n)
                 l == RandomElement((1..n) \ {f})
             IN  [i \in 1..n |-> IF i = f THEN lo ELSE IF i = l THEN lo + span ELSE lo + RandomElement(0..span)]
Cols == {"x", "xp", "y", "yp", "t", "p"}
RECURSIVE Up(_, _)
Up(n, from) == IF n = 0 THEN <<>> ELSE LET v == from + RandomElement(0..5) IN <<v>> \o Up(n - 1, v)
Page(n) == [cols |-> [c \in Cols |-> Column(n)], charge |-> RandomElement(Qs), s |-> Up(n, 0), types |-> [i \in 1..n |-> RandomElement({"QUAD", "DRIF", "MARK"})]]
Fine(pg) == \A c \in Cols : Clear(pg.cols[c], 128) /\ Clear(pg.cols[c], 256)
RandPages == LET ps == [i \in 1..RandomElement(1..3) |-> Page(RandomElement(Ns))]
                 has == RandomElement(BOOLEAN)   \* the charge is a parameter of the file
             IN  [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.charge = IF has THEN (IF @ = <<>> THEN <<0, 1>> ELSE @) ELSE <<>>]]
Open == \E ps \in {RandPages} : (\A i \in 1..Len(ps) : Fine(ps[i])) /\ Do([op |-> "open", pages |-> ps])
Hist == \E n \in Pick(Ns), b \in Pick(Bs) : \E d \in (IF Rand THEN {Column(n)} ELSE [1..n -> Vals]) :
        Clear(d, b) /\ (Do([op |-> "hist", d |-> d, b |-> b]) \/ \E q \in Pick(Qs \ {<<>>}) : Do([op |-> "time", d |-> d, b |-> b, q |-> q]))
Plot == \E pg \in Pick(0..(Len(pages) - 1)) :
        \/ \E c \in Pick({<<"x", "xp">>, <<"y", "yp">>, <<"x", "y">>, <<"yp", "x">>}) : Do([op |-> "plane", page |-> pg, cx |-> c[1], cy |-> c[2]])
        \/ \E q \in Pick(Qs \ {<<0, 1>>}) : Do([op |-> "length", page |-> pg, q |-> q])
        \/ \E b \in Pick(Bs \cup {128}) : (\A c \in Cols : Clear(pages[pg + 1].cols[c], b)) /\ Do([op |-> "four", page |-> pg, b |-> b])
        \/ \E k \in Pick(1..3) : \E c \in {[i \in 1..k |-> RandomElement(Cols)]} : Do([op |-> "line", page |-> pg, quantities |-> c])
Next == Len(h) < Depth /\ IF Mode = "hist" THEN Hist ELSE IF pages = <<>> THEN Open ELSE Plot
Spec == Init /\ [][Next]_vars

Last == h[Len(h)]
RECURSIVE Add(_, _)
Add(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Add(S \ {x}, f)
\* every value is in one bin; the current adds up to the charge
All == (h # <<>> /\ Mode = "hist") => Add(Bins(Last.d, Last.b), [k \in Bins(Last.d, Last.b) |-> Count(Last.d, Last.b, k)]) = Len(Last.d)
RECURSIVE RAll(_, _)
RAll(S, f) == IF S = {} THEN RZero ELSE LET x == CHOOSE y \in S : TRUE IN RAdd(f[x], RAll(S \ {x}, f))
Charge == (h # <<>> /\ Mode = "hist" /\ Last.op = "time") =>
          RMul(RAll(Bins(Last.d, Last.b), [k \in Bins(Last.d, Last.b) |-> Current(Last.d, Last.b, Last.q, k)]), R(Span(Last.d), Last.b)) = Last.q
Inside == (h # <<>> /\ Mode = "hist") => \A k \in Bins(Last.d, Last.b) : k \in 0..(Last.b - 1)
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
================================================================================
