----------------------------- MODULE Trace_Ring -----------------------------
EXTENDS RingMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- RInit, MStep <- RStep
=============================================================================
