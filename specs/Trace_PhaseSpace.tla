---------------------------- MODULE Trace_PhaseSpace ----------------------------
EXTENDS PhaseSpace, TraceKit
=============================================================================
