----------------------------- MODULE Trace_Symbol -----------------------------
EXTENDS Symbol, TraceKit
===============================================================================
