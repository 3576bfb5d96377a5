---------------------------- MODULE Trace_Nonlinear ----------------------------
EXTENDS Nonlinear, TraceKit
=============================================================================
