----------------------------- MODULE Trace_Dump -----------------------------
EXTENDS DumpMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- LInit, MStep <- LStep
=============================================================================
