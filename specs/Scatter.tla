-------------------------------- MODULE Scatter --------------------------------
(* Scatter and contour plots of particles (rsbeams.rsplot.RsScatterPS6D, plot_ptcls).

   s: has (there is a plotter), data (six rows of integers), label (six names), title, plots (figures drawn)
   The axes are symmetric and reach to the outermost particle.                      *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Most(d) == CHOOSE m \in {Abs(d[i]) : i \in 1..Len(d)} : \A i \in 1..Len(d) : Abs(d[i]) <= m
Names == <<"x [m]", "px/p0", "y [m]", "py/p0", "s [m]", "dp/p0">>
New(d) == [has |-> TRUE, data |-> d, label |-> Names, title |-> "", titled |-> FALSE, plots |-> 0]
Legal(e) == e.op = "new" => Len(e.data[1]) > 1
Pairs(d, g) == {<<d[i], g[i]>> : i \in 1..Len(d)}
Apply(s, e) == CASE e.op = "new" -> IF Legal(e) THEN New(e.data) ELSE s
                 [] e.op = "label" -> [s EXCEPT !.label[e.i] = e.text]
                 [] e.op = "title" -> [s EXCEPT !.title = e.text, !.titled = TRUE]
                 [] e.op = "data" -> [s EXCEPT !.data = e.data]
                 [] e.op = "plot" -> [s EXCEPT !.plots = @ + 1]
                 [] OTHER -> s
\* contour levels: n steps from -m upwards, m the largest magnitude times the multiplier
Top(f, mult) == RMul(mult, RInt(Most(f)))
Level(f, n, mult, i) == RAdd(RNeg(Top(f, mult)), RMul(R(2 * (i - 1), n), Top(f, mult)))
LogX(t) == t \in {"log-log", "semi-logx"}
LogY(t) == t \in {"log-log", "semi-logy"}
\* occupied cells of the histogram behind a contour plot
Lo(d) == CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : x <= d[i]
Hi(d) == CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : x >= d[i]
CellAt(lo, hi, b, x) == IF x = hi THEN b - 1 ELSE ((x - lo) * b) \div (hi - lo)
Cell(d, b, x) == CellAt(Lo(d), Hi(d), b, x)
CellsOf(d, b) == LET lo == TLCEval(Lo(d)) hi == TLCEval(Hi(d)) IN [i \in 1..Len(d) |-> CellAt(lo, hi, b, d[i])]
Fullest(dx, dy, b) == LET n(i) == Cardinality({j \in 1..Len(dx) : Cell(dx, b, dx[j]) = Cell(dx, b, dx[i]) /\ Cell(dy, b, dy[j]) = Cell(dy, b, dy[i])})
                      IN CHOOSE m \in {n(i) : i \in 1..Len(dx)} : \A i \in 1..Len(dx) : n(i) <= m
\* how many particles each cell holds
Dense == 8
Cells(dx, dy, b) == LET cx == TLCEval(CellsOf(dx, b))
                        cy == TLCEval(CellsOf(dy, b))
                    IN [c \in (0..(b - 1)) \X (0..(b - 1)) |-> Cardinality({k \in 1..Len(dx) : cx[k] = c[1] /\ cy[k] = c[2]})]
Around(b, i, j, d) == ({x \in 0..(b - 1) : Abs(x - i) <= d}) \X ({y \in 0..(b - 1) : Abs(y - j) <= d})
\* a combined plot shows particles far from every dense cell as dots, and none of those deep inside of the dense part
Far(n, b, i, j) == \A c \in Around(b, i, j, 2) : n[c] < Dense
Deep(n, b, i, j) == \A c \in Around(b, i, j, 1) : n[c] >= Dense
------------------------------------------------------------------------------
(* obs after every event: obs.label, obs.title, obs.data
   e: "plot" h, v;     obs: points (pairs, in order), limits, xlabel, ylabel, title
      "save"           obs: saved
      "draw" flag, type, xs, ys;   obs: dots (pairs in order), lines (sequence of sequences of pairs), xscale, yscale
      "contour" xs, ys, b, n;      obs: levels (rationals), box (lowest and highest x and y drawn), counts (particles per cell, y by y; <<>>: not seen)
      "combo" xs, ys, b, n;        obs: levels, box, dots
      "mesh"  nx, ny, z;           obs: zs (the values shown, row by row), range
      "levels" f, n, mult;         obs: vals                                                        *)
ScatterInit(t) == [has |-> FALSE, data |-> <<>>, label |-> Names, title |-> "", titled |-> FALSE, plots |-> 0]
ScatterStep(s, e) == Apply(s, e)
Zip(d, g) == [i \in 1..Len(d) |-> <<d[i], g[i]>>]
\* the points scattered over, for the ways to plot
Dots(e) == IF e.flag \in {"scatter", "scatter-line"} THEN Zip(e.xs, e.ys) ELSE <<>>
Lines(e) == IF e.flag \in {"line", "scatter-line"} THEN <<Zip(e.xs, e.ys)>> ELSE <<>>
Box(e) == <<Lo(e.xs), Hi(e.xs), Lo(e.ys), Hi(e.ys)>>
ScatterVerdict(s, e) ==
    LET w == Apply(s, e) IN
    IF ~Legal(e) THEN (IF e.status = "ok" THEN "accepted" ELSE "ok")
    ELSE CASE e.status # "ok" -> IF e.op = "contour" /\ Fullest(e.xs, e.ys, e.b) < 2 THEN "ok" ELSE "refused"
      [] e.op \in {"new", "label", "title", "data", "plot", "save"} /\ e.obs.label # w.label -> "label"
      [] e.op \in {"new", "label", "title", "data", "plot", "save"} /\ w.titled /\ e.obs.title # w.title -> "title"
      [] e.op \in {"new", "label", "title", "data", "plot", "save"} /\ e.obs.data # w.data -> "data"
      [] e.op = "plot" ->
            (CASE e.points # Zip(s.data[e.h], s.data[e.v]) -> "points"
               [] ~RSame(e.limits[1], RInt(-Most(s.data[e.h]))) \/ ~RSame(e.limits[2], RInt(Most(s.data[e.h])))
                  \/ ~RSame(e.limits[3], RInt(-Most(s.data[e.v]))) \/ ~RSame(e.limits[4], RInt(Most(s.data[e.v]))) -> "limits"
               [] e.xlabel # s.label[e.h] \/ e.ylabel # s.label[e.v] -> "axis-label"
               [] s.titled /\ e.shown # s.title -> "shown-title"
               [] OTHER -> "ok")
      [] e.op = "save" -> IF e.saved = 1 THEN "ok" ELSE "not-saved"
      [] e.op = "draw" ->
            (CASE e.dots # Dots(e) -> "dots"
               [] e.lines # Lines(e) -> "lines"
               [] (e.xscale = "log") # LogX(e.type) \/ (e.yscale = "log") # LogY(e.type) -> "scale"
               [] OTHER -> "ok")
      [] e.op = "contour" ->
            (CASE Len(e.levels) # e.n -> "levels"
               [] \E i \in 1..e.n : ~RSame(e.levels[i], RAdd(ROne, R((i - 1) * (Fullest(e.xs, e.ys, e.b) - 1), e.n - 1))) -> "level"
               [] e.box # Box(e) -> "box"
               [] e.counts # <<>> /\ (LET n == TLCEval(Cells(e.xs, e.ys, e.b)) IN e.counts # [k \in 1..(e.b * e.b) |-> n[<<(k - 1) % e.b, (k - 1) \div e.b>>]]) -> "counts"
               [] OTHER -> "ok")
      [] e.op = "combo" ->
            LET n == TLCEval(Cells(e.xs, e.ys, e.b))
                tops == TLCEval({n[c] : c \in DOMAIN n})
                top == TLCEval(CHOOSE m \in tops : \A k \in tops : k <= m)
                shown == TLCEval({e.dots[k] : k \in 1..Len(e.dots)})
                all == TLCEval({<<e.xs[k], e.ys[k]>> : k \in 1..Len(e.xs)})
                box == TLCEval(Box(e))
                at(p) == <<CellAt(box[1], box[2], e.b, p[1]), CellAt(box[3], box[4], e.b, p[2])>>
            IN CASE Len(e.levels) # e.n -> "levels"
                 [] \E i \in 1..e.n : ~RSame(e.levels[i], RAdd(RInt(Dense), R((i - 1) * (top - Dense), e.n - 1))) -> "level"
                 [] e.box # Box(e) -> "box"
                 [] ~(shown \subseteq all) \/ Cardinality(shown) # Len(e.dots) -> "dots"
                 [] \E p \in all \ shown : Far(n, e.b, at(p)[1], at(p)[2]) -> "lost"
                 [] \E p \in shown : Deep(n, e.b, at(p)[1], at(p)[2]) -> "covered"
                 [] OTHER -> "ok"
      [] e.op = "mesh" -> IF e.zs = e.z /\ e.range = 1 THEN "ok" ELSE "mesh"
      [] e.op = "levels" ->
            (CASE Len(e.vals) # e.n -> "levels"
               [] \E i \in 1..e.n : ~RSame(e.vals[i], Level(e.f, e.n, e.mult, i)) -> "level"
               [] OTHER -> "ok")
      [] OTHER -> "ok"
================================================================================
