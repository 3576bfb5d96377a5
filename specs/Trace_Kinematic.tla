--------------------------- MODULE Trace_Kinematic ---------------------------
EXTENDS Kinematic, TraceKit
=============================================================================
