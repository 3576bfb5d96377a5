---------------------------- MODULE Trace_Beamline ----------------------------
EXTENDS Beamline, TraceKit
=============================================================================
