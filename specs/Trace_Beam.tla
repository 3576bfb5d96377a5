------------------------------- MODULE Trace_Beam -------------------------------
EXTENDS Beam, TraceKit
=============================================================================
