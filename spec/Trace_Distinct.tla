--------------------------- MODULE Trace_Distinct ---------------------------
EXTENDS DistinctMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- DInit, MStep <- DStep
=============================================================================
