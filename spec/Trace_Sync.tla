----------------------------- MODULE Trace_Sync -----------------------------
EXTENDS SyncMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- SInit, MStep <- SStep
=============================================================================
