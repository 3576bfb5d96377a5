------------------------------ MODULE Decoherence ------------------------------
(* Centroid of a kicked beam with amplitude dependent tune (rsbeams.rsphysics.decoherence).

   Ensemble average for a waterbag beam after n turns, u the squared amplitude in units of its edge:
       x_n = z * average over 0 < u < 1 of cos 2 pi n (nu - mu_1 u - mu_2 u^2 - ...)
   nu = j/16, mu_k = m_k/16 (integers j, m_k), z rational.
   The average is taken over Cells midpoints with a table of the cosine in millionths (accuracy well below Margin);
   with m_1 only it is also known exactly.
   Workers: tasks are the turns 0 .. N-1, cut into chunks, taken in order and finished in any order.              *)
EXTENDS Rat, Integers, Sequences, FiniteSets

Quarter == <<
  1000000, 999990, 999962, 999914, 999848, 999762, 999657, 999534, 999391, 999229, 999048, 998848, 998630, 998392, 998135, 997859,
  997564, 997250, 996917, 996566, 996195, 995805, 995396, 994969, 994522, 994056, 993572, 993068, 992546, 992005, 991445, 990866,
  990268, 989651, 989016, 988362, 987688, 986996, 986286, 985556, 984808, 984041, 983255, 982450, 981627, 980785, 979925, 979045,
  978148, 977231, 976296, 975342, 974370, 973379, 972370, 971342, 970296, 969231, 968148, 967046, 965926, 964787, 963630, 962455,
  961262, 960050, 958820, 957571, 956305, 955020, 953717, 952396, 951057, 949699, 948324, 946930, 945519, 944089, 942641, 941176,
  939693, 938191, 936672, 935135, 933580, 932008, 930418, 928810, 927184, 925541, 923880, 922201, 920505, 918791, 917060, 915311,
  913545, 911762, 909961, 908143, 906308, 904455, 902585, 900698, 898794, 896873, 894934, 892979, 891007, 889017, 887011, 884988,
  882948, 880891, 878817, 876727, 874620, 872496, 870356, 868199, 866025, 863836, 861629, 859406, 857167, 854912, 852640, 850352,
  848048, 845728, 843391, 841039, 838671, 836286, 833886, 831470, 829038, 826590, 824126, 821647, 819152, 816642, 814116, 811574,
  809017, 806445, 803857, 801254, 798636, 796002, 793353, 790690, 788011, 785317, 782608, 779884, 777146, 774393, 771625, 768842,
  766044, 763232, 760406, 757565, 754710, 751840, 748956, 746057, 743145, 740218, 737277, 734323, 731354, 728371, 725374, 722364,
  719340, 716302, 713250, 710185, 707107, 704015, 700909, 697790, 694658, 691513, 688355, 685183, 681998, 678801, 675590, 672367,
  669131, 665882, 662620, 659346, 656059, 652760, 649448, 646124, 642788, 639439, 636078, 632705, 629320, 625923, 622515, 619094,
  615661, 612217, 608761, 605294, 601815, 598325, 594823, 591310, 587785, 584250, 580703, 577145, 573576, 569997, 566406, 562805,
  559193, 555570, 551937, 548293, 544639, 540974, 537300, 533615, 529919, 526214, 522499, 518773, 515038, 511293, 507538, 503774,
  500000, 496217, 492424, 488621, 484810, 480989, 477159, 473320, 469472, 465615, 461749, 457874, 453990, 450098, 446198, 442289,
  438371, 434445, 430511, 426569, 422618, 418660, 414693, 410719, 406737, 402747, 398749, 394744, 390731, 386711, 382683, 378649,
  374607, 370557, 366501, 362438, 358368, 354291, 350207, 346117, 342020, 337917, 333807, 329691, 325568, 321439, 317305, 313164,
  309017, 304864, 300706, 296542, 292372, 288196, 284015, 279829, 275637, 271440, 267238, 263031, 258819, 254602, 250380, 246153,
  241922, 237686, 233445, 229200, 224951, 220697, 216440, 212178, 207912, 203642, 199368, 195090, 190809, 186524, 182236, 177944,
  173648, 169350, 165048, 160743, 156434, 152123, 147809, 143493, 139173, 134851, 130526, 126199, 121869, 117537, 113203, 108867,
  104528, 100188, 95846, 91502, 87156, 82808, 78459, 74108, 69756, 65403, 61049, 56693, 52336, 47978, 43619, 39260,
  34899, 30539, 26177, 21815, 17452, 13090, 8727, 4363, 0 >>
\* cosine of t/1440 turns
Cosine(t) == LET k == t % 1440 IN
    CASE k <= 360 -> Quarter[k + 1] [] k <= 720 -> -Quarter[721 - k] [] k <= 1080 -> -Quarter[k - 719] [] OTHER -> Quarter[1441 - k]
Cells == 200
Margin == 3000
At(m, k) == IF k <= Len(m) THEN m[k] ELSE 0
\* 1440 n mu(u) for u = c/400
RECURSIVE Powers(_, _, _, _)
\* m_k p + m_(k+1) p u + ..., p a power of u in units of 1/160000
Powers(m, k, c, p) == IF k > Len(m) THEN 0 ELSE m[k] * p + Powers(m, k + 1, c, (p * c) \div 400)
Shift(n, m, c) == (90 * n * (Powers(m, 1, c, 400 * c) \div 16) + 5000) \div 10000
RECURSIVE Over(_, _, _, _)
Over(n, j, m, i) == IF i = 0 THEN 0 ELSE Cosine(90 * n * j - Shift(n, m, 2 * i - 1)) + Over(n, j, m, i - 1)
Average(n, j, m) == Over(n, j, m, Cells) \div Cells
Flat(m) == \A k \in 1..Len(m) : m[k] = 0

\* exact values where cosines of quarter turns are enough: pi times the average
C4(t) == CASE t % 4 = 0 -> 1 [] t % 4 = 2 -> -1 [] OTHER -> 0
S4(t) == C4(t - 1)
Exact(n, j, m) == j % 4 = 0 /\ At(m, 1) % 4 = 0 /\ At(m, 1) # 0 /\ (\A k \in 2..Len(m) : m[k] = 0) /\ n > 0
PiAverage(n, j, m) == LET J == j \div 4 K == At(m, 1) \div 4 IN R(4 * (C4(J * n) * S4(n * K) + S4(J * n) * (1 - C4(n * K))), 2 * n * K)
Front(m, k) == SubSeq(m, 1, IF k < Len(m) THEN k ELSE Len(m))
\* which coefficients a route takes into account, and when it can
Used(route, m) == CASE route = "first" -> Front(m, 1) [] route = "second" -> Front(m, 2) [] OTHER -> m
Possible(route, m) == CASE route = "first" -> At(m, 1) # 0 [] route = "second" -> At(m, 2) > 0 [] OTHER -> TRUE

\* the pool: chunk c holds the turns Chunk[c]
Chunks(n, size) == LET k == (n + size - 1) \div size IN [c \in 1..k |-> {t \in 0..(n - 1) : t \div size = c - 1}]
------------------------------------------------------------------------------
(* e: op "new"  n, z, j, m
      op "one"  route, turn (-1: none given);  obs: v <<x / z in millionths>>, p: pi x / z as rational with flag
      op "all"  p, delays;                     obs: vs, ps (one entry per turn), fine: largest distance to the any order
                route turn by turn, in units of 1e-8 z                                                               *)
DecoherenceInit(t) == [n |-> 0, j |-> 0, m |-> <<>>]
DecoherenceStep(s, e) == IF e.op = "new" THEN [n |-> e.n, j |-> e.j, m |-> e.m] ELSE s
Close(v, w) == v - w <= Margin /\ w - v <= Margin
Good(s, m, n, v, p) ==
    IF n = 0 THEN v = 1000000
    ELSE IF Exact(n, s.j, m) THEN RSame(p, PiAverage(n, s.j, m))
    ELSE IF Flat(m) THEN v - Cosine(90 * n * s.j) \in -1..1
    ELSE Close(v, Average(n, s.j, m))
DecoherenceVerdict(s, e) ==
    CASE e.op = "new" -> IF e.status = "ok" THEN "ok" ELSE "refused"
      [] e.op = "one" ->
            LET m == Used(e.route, s.m)
                n == IF e.turn < 0 THEN s.n ELSE e.turn
            IN  CASE n > 0 /\ ~Possible(e.route, m) -> "ok"
                  [] e.status # "ok" -> "refused"
                  [] ~Good(s, m, n, e.v, e.p) -> "centroid"
                  [] e.fine > 100 -> "routes-differ"
                  [] OTHER -> "ok"
      [] OTHER ->
            (CASE e.status # "ok" -> "refused"
               [] Len(e.vs) # s.n -> "turns"
               [] \E n \in 0..(s.n - 1) : ~Good(s, s.m, n, e.vs[n + 1], e.ps[n + 1]) -> "turn-order"
               [] e.fine > 100 -> "routes-differ"
               [] OTHER -> "ok")
================================================================================
