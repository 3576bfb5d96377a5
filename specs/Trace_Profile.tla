----------------------------- MODULE Trace_Profile -----------------------------
EXTENDS Profile, TraceKit
================================================================================
