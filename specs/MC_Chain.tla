------------------------------- MODULE MC_Chain -------------------------------
EXTENDS Chain, TLC, Json

\* names 1, 2, .. of the top line (Top), and of each of the lines (Subs: sets of names)
CONSTANTS NF, NS, NN, Top, Subs, Kinds, MaxItems, Ls, Ks, Depth, Rand
Pick(S) == IF Rand THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
VARIABLES st, h
vars == <<st, h>>
Init == st = ChainInit([nf |-> NF, ns |-> NS]) /\ h = <<>>
Do(e) == h' = Append(h, e) /\ st' = ChainStep(st, e)

Types == 1..4
Values == {[t |-> t, l |-> IF t = 4 THEN 0 ELSE l, k |-> k] : t \in Types, l \in Ls, k \in Ks}
\* one definition of every name
AnyDefs == IF Rand THEN {[n \in 1..NN |-> RandomElement(Values)]}
           ELSE {[n \in 1..NN |-> [t |-> 1 + ((n + a) % 4), l |-> IF 1 + ((n + a) % 4) = 4 THEN 0 ELSE b, k |-> 7]] : a \in {0, 1}, b \in Ls}
SeqsOf(S) == IF Rand THEN {LET m == RandomElement(1..MaxItems) IN [i \in 1..m |-> RandomElement(S)]}
             ELSE UNION {[1..m -> S] : m \in 1..MaxItems}
Es(S) == {[k |-> "e", n |-> n] : n \in S}
Ss == {[k |-> "s", n |-> 1 + i] : i \in 1..Len(Subs)}
Occurring(items, defs) == [n \in 1..NN |-> IF [k |-> "e", n |-> n] \in {items[i] : i \in 1..Len(items)} THEN defs[n] ELSE None]
Box(items, defs) == [items |-> items, val |-> Occurring(items, defs)]
RECURSIVE SubBoxes(_, _)
SubBoxes(i, defs) == IF i > Len(Subs) THEN {<<>>}
                     ELSE {<<Box(q, defs)>> \o r : q \in (IF Rand THEN SeqsOf(Es(Subs[i])) ELSE {<<[k |-> "e", n |-> CHOOSE n \in Subs[i] : TRUE]>>}), r \in SubBoxes(i + 1, defs)}
Write == \E f \in Pick(1..NF), kind \in Pick(Kinds), d \in AnyDefs, q \in SeqsOf(Es(Top) \cup Ss) : \E r \in SubBoxes(1, d) :
    Do([op |-> "write", f |-> f, kind |-> kind, lat |-> <<Box(q, d)>> \o r])
Full == {s \in 1..NS : st.slots[s] # <<>>}
Import == \E f \in Pick({x \in 1..NF : st.files[x].kind \in Kinds}), s \in Pick(1..NS) : Do([op |-> "import", f |-> f, s |-> s])
Load == \E f \in Pick({x \in 1..NF : st.files[x].kind = "yaml"}), s \in Pick(1..NS) : Do([op |-> "load", f |-> f, s |-> s])
Save == \E s \in Pick(Full), f \in Pick(1..NF) : Do([op |-> "save", f |-> f, s |-> s])
Export == \E s \in Pick({x \in Full : Consistent(st.slots[x])}), f \in Pick(1..NF) : Do([op |-> "export", f |-> f, s |-> s])
\* a box is reached from the top line
Reached(lat) == {1} \cup {lat[1].items[i].n : i \in {j \in 1..Len(lat[1].items) : lat[1].items[j].k = "s"}}
First(q, it) == CHOOSE i \in 1..Len(q) : q[i] = it /\ \A j \in 1..(i - 1) : q[j] # it
\* where to find it: position of the line in the top line (0: the top line itself) and of the element in its box
Where(lat, b, n) == <<IF b = 1 THEN 0 ELSE First(lat[1].items, [k |-> "s", n |-> b]), First(lat[b].items, [k |-> "e", n |-> n])>>
Edit == \E s \in Pick(Full) : \E b \in Pick(Reached(st.slots[s])) :
        \E n \in Pick({m \in 1..NN : st.slots[s][b].val[m].t # 0}), p \in Pick({"l", "k"}) :
        \E x \in Pick(IF p = "l" THEN Ls ELSE Ks) :
        (p = "k" \/ st.slots[s][b].val[n].t # 4) /\ Do([op |-> "edit", s |-> s, b |-> b, n |-> n, p |-> p, x |-> x, at |-> Where(st.slots[s], b, n)])
Place == \E s \in Pick(Full), n \in Pick(Top), v \in Pick(Values) : Len(st.slots[s][1].items) < 3 * MaxItems /\ Do([op |-> "append", s |-> s, n |-> n, v |-> v])
Next == Len(h) < Depth /\ (Write \/ Import \/ Load \/ Save \/ Export \/ Edit \/ Place)
Spec == Init /\ [][Next]_vars

\* what is saved has the elements of the lattice, and no line twice
Kept == \A s \in Full : /\ Flat(Unfold(st.slots[s])) = Flat(st.slots[s])
                        /\ LET u == Unfold(st.slots[s]) IN Len(u) = 1 + Cardinality({i \in 1..Len(u[1].items) : u[1].items[i].k = "s"})
\* a file that comes from a text holds one value per name
Texts == \A f \in 1..NF : st.files[f].kind \in Kinds => Consistent(st.files[f].lat)
\* an edit changes the elements of that name only, and none in other slots
Local == [][\A e \in {h'[Len(h')]} : e.op = "edit" =>
             /\ \A s \in 1..NS : s # e.s => st'.slots[s] = st.slots[s]
             /\ \A i \in 1..Len(Flat(st.slots[e.s])) : Flat(st.slots[e.s])[i].n # e.n => Flat(st'.slots[e.s])[i] = Flat(st.slots[e.s])[i]]_vars
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
================================================================================
