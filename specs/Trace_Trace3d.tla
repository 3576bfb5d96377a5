----------------------------- MODULE Trace_Trace3d -----------------------------
EXTENDS Trace3d, TraceKit
=============================================================================
