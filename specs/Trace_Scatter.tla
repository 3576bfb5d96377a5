----------------------------- MODULE Trace_Scatter -----------------------------
EXTENDS Scatter, TraceKit
================================================================================
