---------------------------- MODULE Trace_Sampling ----------------------------
EXTENDS Sampling, TraceKit
===============================================================================
