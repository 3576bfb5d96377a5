-------------------------------- MODULE Profile --------------------------------
(* Magnet profile of a beamline (rsbeams.rsplot.util.plot_profile).

   rows: sequence of [type, s], s (position of the exit, eighths of a metre), decreasing only along drifts of negative length;
   scale rational.  A rectangle per drawable element from the exit of the row before (or 0)
   to its own.  colour: the colour seen for a class so far ("" none); classes differ in colour. *)
EXTENDS Rat, Integers, Sequences

Class == [KQUAD |-> "quad", QUAD |-> "quad", SBEND |-> "bend", CSBEND |-> "bend", CSRCSBEND |-> "bend", RBEND |-> "bend", SBEN |-> "bend",
          SEXT |-> "sext", RFCW |-> "rf", RFCA |-> "rf", OCTU |-> "oct", KOCT |-> "oct"]
Drawable(t) == t \in DOMAIN Class
Classes == {Class[t] : t \in DOMAIN Class}
Entrance(rows, i) == IF i = 1 THEN 0 ELSE rows[i - 1].s
Len8(x, scale) == RMul(R(x, 8), scale)
RECURSIVE Rects(_, _, _)
Rects(rows, scale, i) ==
    IF i > Len(rows) THEN <<>>
    ELSE (IF Drawable(rows[i].type) THEN <<[lo |-> Len8(Entrance(rows, i), scale), hi |-> Len8(rows[i].s, scale), class |-> Class[rows[i].type]]>> ELSE <<>>)
         \o Rects(rows, scale, i + 1)
End(rows, scale) == Len8(rows[Len(rows)].s, scale)
------------------------------------------------------------------------------
(* e: op "draw" rows, scale, height;
      obs: status, rects (sequence of [lo, hi, bottom, top, colour]), added (the collection is on the axes),
           line (a horizontal line at 0 from 0 to the end was drawn), beyond (there is any other line)            *)
None == [c \in Classes |-> ""]
ProfileInit(t) == [colour |-> None]
RECURSIVE Learn(_, _, _, _)
Learn(col, want, obs, i) == IF i > Len(want) \/ i > Len(obs) THEN col
                            ELSE Learn([col EXCEPT ![want[i].class] = IF @ = "" THEN obs[i].colour ELSE @], want, obs, i + 1)
ProfileStep(s, e) == [colour |-> Learn(s.colour, Rects(e.rows, e.scale, 1), e.rects, 1)]
ProfileVerdict(s, e) ==
    LET want == Rects(e.rows, e.scale, 1)
        col == Learn(s.colour, want, e.rects, 1)
        half == RMul(e.height, R(1, 2))
    IN  CASE e.status # "ok" -> "refused"
          [] Len(e.rects) # Len(want) -> "elements"
          [] \E i \in 1..Len(want) : ~RSame(e.rects[i].lo, want[i].lo) \/ ~RSame(e.rects[i].hi, want[i].hi) -> "position"
          [] \E i \in 1..Len(want) : ~RSame(e.rects[i].bottom, RNeg(half)) \/ ~RSame(e.rects[i].top, half) -> "height"
          [] \E i \in 1..Len(want) : e.rects[i].colour # col[want[i].class] -> "colour"
          [] \E c, d \in Classes : c # d /\ col[c] # "" /\ col[c] = col[d] -> "colour-shared"
          [] e.added # 1 -> "not-drawn"
          [] e.line # 1 -> "axis-line"
          [] e.beyond # 0 -> "line-beyond"
          [] OTHER -> "ok"
================================================================================
