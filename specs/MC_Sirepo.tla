------------------------------ MODULE MC_Sirepo ------------------------------
(* A model is built item by item (line 1 is the imported one, lines refer to later
   lines), then imported step by step, then written step by step.               *)
EXTENDS Sirepo, TLC, Json

CONSTANTS NLines,     \* numbers of lines
          Elems,      \* element sets (sequences) explored
          Cache, MaxItems, MaxFlat, Ps, Rand

Pick(S) == IF Rand THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
VARIABLES mo, cur, im, wr, ph
vars == <<mo, cur, im, wr, ph>>
Init == /\ \E n \in Pick(NLines), es \in Pick(Elems) :
             mo = [lines |-> [i \in 1..n |-> [name |-> i, items |-> <<>>]], elems |-> es, cache |-> Cache]
        /\ cur = Len(mo.lines) /\ im = Start(1) /\ wr = Writer /\ ph = "build"
NItems == LET RECURSIVE go(_)
              go(i) == IF i = 0 THEN 0 ELSE Len(mo.lines[i].items) + go(i - 1)
          IN go(Len(mo.lines))
\* lines are filled from the last to the first
Add == /\ ph = "build" /\ cur > 0 /\ NItems < MaxItems
       /\ \E it \in Pick({[k |-> "e", id |-> i, rev |-> 0] : i \in 1..Len(mo.elems)}
                          \cup {[k |-> "l", id |-> i, rev |-> r] : i \in (cur + 1)..Len(mo.lines), r \in {0, 1}}) :
             mo' = [mo EXCEPT !.lines[cur].items = Append(@, it)]
       /\ Len(Flat(mo', cur)) <= MaxFlat
       /\ UNCHANGED <<cur, im, wr, ph>>
NextLine == /\ ph = "build" /\ cur > 0 /\ mo.lines[cur].items # <<>>
            \* long lines, where many items are asked for
            /\ MaxItems > 100 => Len(mo.lines[cur].items) >= 60 \/ NItems = MaxItems \/ Len(Flat(mo, cur)) > MaxFlat \div 2
            /\ cur' = cur - 1 /\ ph' = (IF cur = 1 THEN "import" ELSE "build") /\ UNCHANGED <<mo, im, wr>>
Step == /\ ph = "import" /\ ~Done(im) /\ im' = Import1(mo, im) /\ UNCHANGED <<mo, cur, wr, ph>>
Imported == ph = "import" /\ Done(im) /\ ph' = "write" /\ UNCHANGED <<mo, cur, im, wr>>
CanWrite == Writable(mo, im.out)
Put == /\ ph = "write" /\ CanWrite /\ Len(wr.line) < Len(im.out)
       /\ wr' = Write1(mo, wr, im.out[Len(wr.line) + 1]) /\ UNCHANGED <<mo, cur, im, ph>>
Next == Add \/ NextLine \/ Step \/ Imported \/ Put
Spec == Init /\ [][Next]_vars

\* at every moment the machine has produced a prefix of what the line denotes, all of it at the end
Prefix == ph # "build" => /\ Len(im.out) <= Len(Flat(mo, 1))
                          /\ im.out = SubSeq(Flat(mo, 1), 1, Len(im.out))
                          /\ Done(im) => im.out = Flat(mo, 1)
\* the file always defines what the line uses, once, and before its use
Written == /\ \A i, j \in 1..Len(wr.defs) : i # j => wr.defs[i].name # wr.defs[j].name
           /\ {wr.defs[i].name : i \in 1..Len(wr.defs)} = {wr.line[i] : i \in 1..Len(wr.line)}
\* reversing twice changes nothing
Twice == \A l \in 1..Len(mo.lines) : Rev(Denote(mo, mo.lines[l].items, TRUE)) = Denote(mo, mo.lines[l].items, FALSE)
Emit == (ph = "write" /\ wr = Writer) => PrintT("@@" \o ToJson([model |-> mo]))
=============================================================================
