------------------------------ MODULE Trace_Bunch ------------------------------
EXTENDS Bunch, TraceKit
=============================================================================
