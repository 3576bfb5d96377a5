---------------------------- MODULE Trace_BeamPlot ----------------------------
EXTENDS BeamPlot, TraceKit
===============================================================================
