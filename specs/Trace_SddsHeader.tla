--------------------------- MODULE Trace_SddsHeader ---------------------------
EXTENDS SddsHeader, TraceKit
=============================================================================
