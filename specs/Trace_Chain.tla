----------------------------- MODULE Trace_Chain ------------------------------
EXTENDS Chain, TraceKit
===============================================================================
