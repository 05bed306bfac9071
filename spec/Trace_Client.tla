---------------------------- MODULE Trace_Client ----------------------------
EXTENDS ClientMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- CInit, MStep <- CStep
=============================================================================
