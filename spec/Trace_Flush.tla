---------------------------- MODULE Trace_Flush -----------------------------
EXTENDS FlushMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- FInit, MStep <- FStep
=============================================================================
