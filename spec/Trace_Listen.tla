---------------------------- MODULE Trace_Listen ----------------------------
EXTENDS ListenMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- LInit, MStep <- LStep
=============================================================================
