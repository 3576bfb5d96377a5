------------------------------- MODULE MC_Scatter -------------------------------
EXTENDS Scatter, Json, SequencesExt

CONSTANTS Vals, Ns, Texts, Depth, Mode, Rand
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES s, h
vars == <<s, h>>
Init == s = ScatterInit(0) /\ h = <<>>
Do(e) == s' = Apply(s, e) /\ h' = Append(h, e)
Row(n) == LET k == RandomElement(1..n) IN [i \in 1..n |-> IF i = k THEN RandomElement(Vals \ {0}) ELSE RandomElement(Vals)]
Data(n) == [r \in 1..6 |-> Row(n)]
Make == \E n \in Pick(Ns \cup {1}) : \E d \in {Data(n)} : Do([op |-> "new", data |-> d])
Use == \/ \E i \in Pick(1..6), t \in Pick(Texts) : Do([op |-> "label", i |-> i, text |-> t])
       \/ \E t \in Pick(Texts) : Do([op |-> "title", text |-> t])
       \/ \E n \in Pick(Ns) : \E d \in {Data(n)} : Do([op |-> "data", data |-> d])
       \/ \E a \in Pick(1..6), b \in Pick(1..6) : Do([op |-> "plot", h |-> a, v |-> b])
       \/ \E a \in Pick(1..6), b \in Pick(1..6) : Do([op |-> "plot", h |-> a, v |-> b])
       \/ (s.plots > 0 /\ h[Len(h)].op = "plot" /\ Do([op |-> "save"]))
Pos(n) == [i \in 1..n |-> RandomElement(1..9)]
\* two corners, some particles at large, and nine particles or more in each of 3 x 3 cells
Crowd(i, j, a) == LET block == [k \in 1..81 |-> LET c == (k - 1) \div 9
                                                     m == (k - 1) % 9 IN <<10 * (i + (c % 3)) + 1 + ((3 * m + a) % 9), 10 * (j + (c \div 3)) + 1 + m>>]
                      more == [k \in 1..4 |-> <<10 * i + 14, 10 * j + 9 + 2 * k>>]
                      loose == SetToSeq({<<RandomElement(0..100), RandomElement(0..100)>> : k \in 1..8})
                      used == {block[k] : k \in 1..81} \cup {more[k] : k \in 1..4}
                  IN SetToSeq({<<0, 0>>, <<100, 100>>} \cup used \cup {loose[k] : k \in 1..Len(loose)})
Free == \/ \E n \in Pick(2..6) : \E f \in Pick({"scatter", "line", "scatter-line"}), t \in Pick({"linear", "log-log", "semi-logx", "semi-logy"}) :
              \E x \in {IF t = "linear" THEN Row(n) ELSE Pos(n)}, y \in {IF t = "linear" THEN Row(n) ELSE Pos(n)} : Do([op |-> "draw", flag |-> f, type |-> t, xs |-> x, ys |-> y])
        \/ \E b \in Pick({4, 8}), n \in Pick(3..6) : \E x \in {[i \in 1..9 |-> 16 * RandomElement(0..3) + 3 + IF i = 9 THEN 61 ELSE IF i = 8 THEN -3 ELSE 0]},
              y \in {[i \in 1..9 |-> 16 * RandomElement(0..1) + 3 + IF i = 9 THEN 61 ELSE IF i = 8 THEN -3 ELSE 0]} :
              x[8] = 0 /\ y[8] = 0 /\ x[9] = 64 /\ y[9] = 64 /\ Do([op |-> "contour", xs |-> x, ys |-> y, b |-> b, n |-> n])
        \/ \E i \in Pick(1..6), j \in Pick(1..6), n \in Pick(2..6), a \in Pick(0..8) : \E e \in {Crowd(i, j, a)} : Do([op |-> "combo", xs |-> [k \in 1..Len(e) |-> e[k][1]], ys |-> [k \in 1..Len(e) |-> e[k][2]], b |-> 10, n |-> n])
        \/ \E nx \in Pick(2..4), ny \in Pick(2..4) : \E z \in {[i \in 1..(nx * ny) |-> RandomElement(0..20) + IF i = 1 THEN 21 ELSE 0]} : Do([op |-> "mesh", nx |-> nx, ny |-> ny, z |-> z])
        \/ \E n \in Pick({1, 2, 5, 8, 40}), m \in Pick({R(11, 10), ROne, RInt(2)}), k \in Pick(1..5) : \E f \in {Row(k)} : Do([op |-> "levels", f |-> f, n |-> n, mult |-> m])
Next == Len(h) < Depth /\ IF Mode = "free" THEN Free ELSE IF ~s.has THEN Make ELSE Use
Spec == Init /\ [][Next]_vars
\* the axes contain every particle
Covered == s.has => \A r \in 1..6 : \A i \in 1..Len(s.data[r]) : -Most(s.data[r]) <= s.data[r][i] /\ s.data[r][i] <= Most(s.data[r])
Six == s.has => Len(s.label) = 6 /\ \A r \in 2..6 : Len(s.data[r]) = Len(s.data[1])
Symmetric == (h # <<>> /\ h[Len(h)].op = "levels") => LET e == h[Len(h)] IN e.n % 2 = 0 => Level(e.f, e.n, e.mult, e.n \div 2 + 1) = RZero
Emit == Len(h) = Depth => PrintT("@@" \o ToJson([h |-> h]))
=================================================================================
