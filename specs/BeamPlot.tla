------------------------------- MODULE BeamPlot -------------------------------
(* Plots of beams and beamlines (rsbeams.rsplot.beam_plots and the histograms of
   rsbeams.rsplot.util).

   State: the open file, a sequence of pages; a page has the columns x, xp, y, yp
   (thousandths), t (1e-12 s), p, s (all integers) and a charge (<<n, d>> in 1e-12 C,
   <<>> when the file has none).
   A histogram of integers d over B bins is the set of its occupied bins.            *)
EXTENDS Rat, Integers, Sequences, FiniteSets

Lo(d) == CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : x <= d[i]
Hi(d) == CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : x >= d[i]
Span(d) == Hi(d) - Lo(d)
Bin(d, b, x) == IF x = Hi(d) THEN b - 1 ELSE ((x - Lo(d)) * b) \div Span(d)
\* values on an inner edge are left out: rounding decides there
Clear(d, b) == Span(d) > 0 /\ \A i \in 1..Len(d) : ((d[i] - Lo(d)) * b) % Span(d) = 0 => d[i] \in {Lo(d), Hi(d)}
Count(d, b, k) == Cardinality({i \in 1..Len(d) : Bin(d, b, d[i]) = k})
Bins(d, b) == {Bin(d, b, d[i]) : i \in 1..Len(d)}
Centre(d, b, k) == RAdd(RInt(Lo(d)), R((2 * k + 1) * Span(d), 2 * b))
RECURSIVE Sum(_)
Sum(d) == IF d = <<>> THEN 0 ELSE Head(d) + Sum(Tail(d))
Mean(d) == R(Sum(d), Len(d))
Image(dx, dy, b) == {[row |-> Bin(dy, b, dy[i]), col |-> Bin(dx, b, dx[i]),
                      n |-> Cardinality({j \in 1..Len(dx) : Bin(dx, b, dx[j]) = Bin(dx, b, dx[i]) /\ Bin(dy, b, dy[j]) = Bin(dy, b, dy[i])})] : i \in 1..Len(dx)}
\* charge per time in a bin, in A
Current(d, b, q, k) == RDiv(RMul(q, R(Count(d, b, k) * b, Len(d))), RInt(Span(d)))
Most(d, b) == CHOOSE n \in {Count(d, b, k) : k \in Bins(d, b)} : \A k \in Bins(d, b) : Count(d, b, k) <= n
Relative(d, b, k) == R(Count(d, b, k), Most(d, b))

\* the names on the axes
Title(c) == CASE c = "x" -> "x (mm)" [] c = "xp" -> "x' (mrad)" [] c = "y" -> "y (mm)" [] c = "yp" -> "y' (mrad)" [] c = "t" -> "t (ps)" [] OTHER -> ""
------------------------------------------------------------------------------
(* e: op "open"  pages
      op "hist"  d, b;                     obs: n, bins (sequence of [k, n, c]: index, height, centre of every occupied bin)
      op "time"  d, b, q;                  obs: the same, heights rational
      op "plane" page, cx, cy;             obs: image, size, extent; right, below (as bins), nright, nbelow; labels
      op "length" page, q (<<>>: from the file); obs: the same and kind ("current" or "counts")
      op "four"  page, b;                  obs: images (sequence of four images), sizes, extents, labels
      op "line"  page, quantities;         obs: lines (sequence of sequences of rationals), s, names, axes, magnets, limits, aligned (the magnets share the data's x axis)  *)
BeamPlotInit(t) == [pages |-> <<>>]
BeamPlotStep(s, e) == IF e.op = "open" THEN [pages |-> e.pages] ELSE s
Flags(obs, want) == RSame(obs, want)
\* obs heights and centres against functions of the bin
Shows(obs, d, b, height(_), shift) ==
    /\ {obs[i].k : i \in 1..Len(obs)} = Bins(d, b) /\ Len(obs) = Cardinality(Bins(d, b))
    /\ \A i \in 1..Len(obs) : RSame(obs[i].n, height(obs[i].k)) /\ RSame(obs[i].c, RSub(Centre(d, b, obs[i].k), shift))
Pixels(obs) == {obs[i] : i \in 1..Len(obs)}
Corners(obs, a, b, c, d) == RSame(obs[1], a) /\ RSame(obs[2], b) /\ RSame(obs[3], c) /\ RSame(obs[4], d)
Around(obs, dx, mx, dy, my) == Corners(obs, RSub(RInt(Lo(dx)), mx), RSub(RInt(Hi(dx)), mx), RSub(RInt(Lo(dy)), my), RSub(RInt(Hi(dy)), my))
Col(pg, c) == pg.cols[c]
Effective(pg, e) == IF e.q # <<>> THEN e.q ELSE pg.charge
IsCurrent(pg, e) == Effective(pg, e) # <<>> /\ (e.q # <<>> \/ Effective(pg, e)[1] # 0)

BeamPlotVerdict(s, e) ==
    IF e.status # "ok" THEN "refused"
    ELSE CASE e.op = "open" -> "ok"
      [] e.op = "hist" ->
            (CASE e.total # e.b -> "bins"
               [] ~Shows(e.bins, e.d, e.b, LAMBDA k : RInt(Count(e.d, e.b, k)), RZero) -> "histogram"
               [] OTHER -> "ok")
      [] e.op = "time" ->
            (CASE e.total # e.b -> "bins"
               [] ~Shows(e.bins, e.d, e.b, LAMBDA k : Current(e.d, e.b, e.q, k), Mean(e.d)) -> "current"
               [] OTHER -> "ok")
      [] e.op = "plane" ->
            (LET pg == s.pages[e.page + 1]
                 dx == Col(pg, e.cx)
                 dy == Col(pg, e.cy)
             IN CASE e.size # <<128, 128>> \/ Pixels(e.image) # Image(dx, dy, 128) -> "image"
                  [] ~Around(e.extent, dx, RZero, dy, RZero) -> "extent"
                  [] ~Shows(e.right, dy, 256, LAMBDA k : RInt(Count(dy, 256, k)), RZero) -> "right"
                  [] ~Shows(e.below, dx, 256, LAMBDA k : RInt(Count(dx, 256, k)), RZero) -> "below"
                  [] e.labels # <<Title(e.cx), Title(e.cy)>> \/ e.kind # "counts" -> "labels"
                  [] e.saved # 1 -> "not-saved"
                  [] OTHER -> "ok")
      [] e.op = "length" ->
            (LET pg == s.pages[e.page + 1]
                 dt == Col(pg, "t")
                 dp == Col(pg, "p")
                 height(k) == IF IsCurrent(pg, e) THEN Current(dt, 256, Effective(pg, e), k) ELSE Relative(dt, 256, k)
             IN CASE e.size # <<128, 128>> \/ Pixels(e.image) # Image(dt, dp, 128) -> "image"
                  [] ~Around(e.extent, dt, Mean(dt), dp, RZero) -> "extent"
                  [] ~Shows(e.right, dp, 256, LAMBDA k : RInt(Count(dp, 256, k)), RZero) -> "right"
                  [] ~Shows(e.below, dt, 256, height, Mean(dt)) -> "below"
                  [] e.labels # <<Title("t"), "p ($m_e c$)">> -> "labels"
                  [] e.kind # (IF IsCurrent(pg, e) THEN "current" ELSE "counts") -> "kind"
                  [] e.saved # 1 -> "not-saved"
                  [] OTHER -> "ok")
      [] e.op = "four" ->
            (LET pg == s.pages[e.page + 1]
                 D == <<<<"x", "xp">>, <<"y", "yp">>, <<"x", "y">>, <<"t", "p">>>>
                 rel(v) == RDiv(RSub(RInt(v), Mean(Col(pg, "p"))), Mean(Col(pg, "p")))
             IN CASE Len(e.images) # 4 \/ \E i \in 1..4 : e.sizes[i] # <<e.b, e.b>> \/ Pixels(e.images[i]) # Image(Col(pg, D[i][1]), Col(pg, D[i][2]), e.b) -> "image"
                  [] \E i \in 1..3 : ~Around(e.extents[i], Col(pg, D[i][1]), RZero, Col(pg, D[i][2]), RZero) -> "extent"
                  [] ~Corners(e.extents[4], RSub(RInt(Lo(Col(pg, "t"))), Mean(Col(pg, "t"))), RSub(RInt(Hi(Col(pg, "t"))), Mean(Col(pg, "t"))),
                              rel(Lo(Col(pg, "p"))), rel(Hi(Col(pg, "p")))) -> "extent-relative"
                  [] \E i \in 1..4 : e.labels[i] # <<Title(D[i][1]), IF i = 4 THEN "$\\delta$ ( )" ELSE Title(D[i][2])>> -> "labels"
                  [] e.saved # 1 -> "not-saved"
                  [] OTHER -> "ok")
      [] OTHER ->
            (LET pg == s.pages[e.page + 1] IN
             CASE Len(e.lines) # Len(e.quantities) -> "lines"
               [] \E i \in 1..Len(e.lines) : Len(e.lines[i]) # Len(Col(pg, e.quantities[i])) \/ \E k \in 1..Len(e.lines[i]) : ~RSame(e.lines[i][k], RInt(Col(pg, e.quantities[i])[k])) -> "values"
               [] \E i \in 1..Len(e.lines) : Len(e.ss[i]) # Len(pg.s) \/ \E k \in 1..Len(e.ss[i]) : ~RSame(e.ss[i][k], R(pg.s[k], 8)) -> "positions"
               [] e.names # e.wanted -> "names"
               [] e.axes # e.wantedaxes -> "axis-labels"
               [] e.magnets # Cardinality({k \in 1..Len(pg.types) : pg.types[k] = "QUAD"}) -> "magnets"
               [] e.limits # 1 -> "limits"
               [] e.aligned # 1 -> "aligned"
               [] e.saved # 1 -> "not-saved"
               [] OTHER -> "ok")
===============================================================================
