------------------------------ MODULE Trace_Sdds ------------------------------
EXTENDS Sdds, TraceKit
=============================================================================
