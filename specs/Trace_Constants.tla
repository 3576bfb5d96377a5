----------------------------- MODULE Trace_Constants -----------------------------
EXTENDS Constants, TraceKit
================================================================================
