---------------------------- MODULE MC_SddsWriter ----------------------------
EXTENDS SddsWriter, TLC, Json

CONSTANTS PTypes, CTypes, Ns, MaxP, MaxC, MaxSave, MaxRead, Modes, Tgts, Pres, Metas, Free

VARIABLES w, h, saves, reads
vars == <<w, h, saves, reads>>
Init == \E pre \in Pres :
          /\ w = New(pre) /\ h = <<[op |-> "pre", pre |-> pre]>> /\ saves = 0 /\ reads = 0
Log(e) == h' = Append(h, e)
Par == /\ Len(w.ps) < MaxP
       /\ \E ty \in PTypes, fx \in BOOLEAN, me \in Metas :
            LET p == [ty |-> ty, fx |-> fx, me |-> me]
            IN  w' = CreatePar(w, p) /\ Log([op |-> "par", p |-> p])
       /\ UNCHANGED <<saves, reads>>
Col == /\ Len(w.cs) < MaxC
       /\ \E ty \in CTypes, n \in Ns, me \in Metas :
            \* canonical order of creation keeps the exploration small unless Free
            /\ LET c == [ty |-> ty, n |-> n, me |-> me]
               IN  w' = CreateCol(w, c) /\ Log([op |-> "col", c |-> c])
       /\ UNCHANGED <<saves, reads>>
DoSave == /\ saves < MaxSave /\ (w.ps # <<>> \/ w.cs # <<>>)
          /\ \E t \in Tgts, m \in Modes :
               w' = Save(w, t) /\ Log([op |-> "save", t |-> t, mode |-> m])
          /\ saves' = saves + 1 /\ UNCHANGED reads
DoRead == /\ reads < MaxRead
          /\ \E t \in Tgts : /\ w.files[t] > 0
                             /\ w' = Other(w) /\ Log([op |-> "read", t |-> t])
          /\ reads' = reads + 1 /\ UNCHANGED saves
Ordered == ~Free => (saves = 0)
Next == (Ordered /\ Par) \/ (Ordered /\ Col) \/ DoSave \/ DoRead
Spec == Init /\ [][Next]_vars

\* a refused save changes no target; a valid one changes exactly its target
RefusalIsNoop == [][~Consistent(w.cs) => w'.files = w.files]_vars
OneTarget == [][Cardinality({t \in Targets : w'.files[t] # w.files[t]}) <= 1]_vars
\* every version on disk is a complete, consistent snapshot
Complete == \A t \in Targets : w.files[t] > 0 => Consistent(w.snap[w.files[t]][1].cs)
Emit == (saves = MaxSave /\ h[Len(h)].op \in {"save", "read"} /\ (MaxRead = 0 \/ reads = MaxRead))
          => PrintT("@@" \o ToJson(h))
=============================================================================
