---------------------------- MODULE Trace_Router ----------------------------
EXTENDS RouterMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- RInit, MStep <- RStep
=============================================================================
