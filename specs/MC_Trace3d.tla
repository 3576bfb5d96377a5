------------------------------ MODULE MC_Trace3d ------------------------------
EXTENDS Trace3d, TLC, Json

CONSTANTS Code,      \* "t3" or "tw"
          Kinds,     \* card kinds: type numbers or keywords
          Counts,    \* numbers of values written
          Vals,      \* the values drawn from
          MaxCards, Fixed, Rand

Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
VARIABLES m, cards
vars == <<m, cards>>
Init == m = New /\ cards = <<>>
\* value i of card c: all cards differ; in the exhaustive exploration the values follow from the position
ValSeq == [i \in 1..Len(Fixed) |-> Fixed[i]]
Value(c, i) == IF Rand THEN RandomElement(Vals) ELSE Fixed[1 + ((c * 5 + i * 3) % Len(Fixed))]
Enough(k, n) == IF Code = "t3" THEN (k \in {8, 9, 10} => n >= IF k = 9 THEN 4 ELSE 2)
                ELSE CASE k = "dtl_cel" -> n >= 8 [] k = "ncells" -> n >= 5 [] k = "freq" -> n = 1
                       [] k = "field_map" -> n = 8 [] k = "set_sync_phase" -> n = 0 [] OTHER -> TRUE
Positive(k, i) == IF Code = "tw" THEN k = "freq" \/ (k = "ncells" /\ i \in {2, 3}) ELSE FALSE
Card(k, n) ==
    LET c == Len(cards) + 1
        vs == [i \in 1..n |-> LET v == Value(c, i) IN IF Positive(k, i) THEN <<RAbs(v[1]) + (IF v[1] = 0 THEN v[2] ELSE 0), v[2]>> ELSE v]
    IN  IF Code = "t3" THEN [name |-> ToString(c), nt |-> k, vals |-> vs] ELSE [kw |-> k, vals |-> vs]
Next == /\ Len(cards) < MaxCards
        /\ \E k \in Pick(Kinds) : \E n \in Pick({x \in Counts : Enough(k, x)}) :
             \* <<..>>[1]: a drawn card is evaluated once
             \E c \in {Card(k, n)} :
                /\ cards' = Append(cards, c)
                /\ m' = IF Code = "t3" THEN T3Card(m, c) ELSE TWCard(m, c)
Spec == Init /\ [][Next]_vars

Total(s) == LET RECURSIVE go(_)
                go(i) == IF i = 0 THEN <<>> ELSE Append(go(i - 1), LenOf(s[i]))
            IN go(Len(s))
SumP(s, p) == RSumSeq([i \in 1..Len(s) |-> IF Total(s)[i][3] = p THEN Rt(Total(s)[i]) ELSE RZero])
\* card by card or all at once is the same; merging cavities keeps the length, as does merging bends (edges have none)
Incremental == m = RunCards(New, cards, Code)
KeepLength == Code = "t3" =>
   /\ CavsOk(m.seq) => \A p \in 0..3 : SumP(HandleCavities(m).seq, p) = SumP(m.seq, p)
   /\ BendsOk(m.seq) => \A p \in 0..3 : SumP(HandleBends(m).seq, p) = SumP(m.seq, p)
Ops == IF Code = "t3" THEN (IF BendsOk(m.seq) /\ Bends(m.seq) # {} THEN 1 ELSE 0) + (IF CavsOk(m.seq) /\ Cavs(m.seq) # {} THEN 2 ELSE 0) ELSE 0
Emit == Len(cards) = MaxCards => PrintT("@@" \o ToJson([code |-> Code, cards |-> cards, ops |-> Ops]))
=============================================================================
