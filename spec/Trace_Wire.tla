----------------------------- MODULE Trace_Wire -----------------------------
EXTENDS WireMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- WInit, MStep <- WStep
=============================================================================
