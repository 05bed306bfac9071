----------------------------- MODULE Trace_Api ------------------------------
EXTENDS ApiMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- AInit, MStep <- AStep
=============================================================================
