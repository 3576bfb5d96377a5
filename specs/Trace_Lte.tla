------------------------------- MODULE Trace_Lte -------------------------------
EXTENDS Lte, TraceKit
=============================================================================
