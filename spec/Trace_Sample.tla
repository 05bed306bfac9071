---------------------------- MODULE Trace_Sample ----------------------------
EXTENDS SampleMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- SInit, MStep <- SStep
=============================================================================
