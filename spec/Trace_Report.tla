---------------------------- MODULE Trace_Report ----------------------------
EXTENDS ReportMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- PInit, MStep <- PStep
=============================================================================
