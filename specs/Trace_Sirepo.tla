----------------------------- MODULE Trace_Sirepo -----------------------------
EXTENDS Sirepo, TraceKit
=============================================================================
