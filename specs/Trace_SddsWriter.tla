--------------------------- MODULE Trace_SddsWriter ---------------------------
EXTENDS SddsWriter, TraceKit
=============================================================================
