--------------------------- MODULE Trace_Decoherence ---------------------------
EXTENDS Decoherence, TraceKit
================================================================================
