--------------------------- MODULE Trace_Switchyard ---------------------------
EXTENDS Switchyard, TraceKit
=============================================================================
