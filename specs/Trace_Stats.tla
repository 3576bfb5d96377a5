------------------------------ MODULE Trace_Stats ------------------------------
EXTENDS Stats, TraceKit
=============================================================================
