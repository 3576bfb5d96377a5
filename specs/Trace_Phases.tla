----------------------------- MODULE Trace_Phases -----------------------------
EXTENDS Phases, TraceKit
===============================================================================
