------------------------------ MODULE TraceKit ------------------------------
(* Trace validation shared by every Trace_X module.  A recorded execution of the
   real code is one ndjson line [ev |-> <<events>>, ...].  The three operator
   constants are bound (in the TLC configuration) to the specification's own
   initial state, step and verdict operators.  The verdict is total: "ok" or the
   name of the violated clause, so a rejection names what went wrong.          *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

CONSTANTS TInit(_), TStep(_, _), TVerdict(_, _)

TKTraces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, ti, tst, tv
tkvars == <<tid, ti, tst, tv>>

TKInit == /\ tid \in 1..Len(TKTraces)
          /\ ti = 0
          /\ tst = TInit(TKTraces[tid])
          /\ tv = "ok"

TKNext == /\ tv = "ok"
          /\ ti < Len(TKTraces[tid].ev)
          /\ ti' = ti + 1
          /\ tid' = tid
          /\ LET e == TKTraces[tid].ev[ti + 1]
                 w == TVerdict(tst, e)
             IN  /\ tv' = w
                 /\ tst' = IF w = "ok" THEN TStep(tst, e) ELSE tst

TKSpec == TKInit /\ [][TKNext]_tkvars

TKReport == tv # "ok" => PrintT("@@" \o ToJson([tid |-> tid, i |-> ti, v |-> tv]))
=============================================================================
