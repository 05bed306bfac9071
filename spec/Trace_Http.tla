----------------------------- MODULE Trace_Http -----------------------------
EXTENDS HttpMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- HInit, MStep <- HStep
=============================================================================
