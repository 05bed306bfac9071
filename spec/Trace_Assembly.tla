--------------------------- MODULE Trace_Assembly ---------------------------
EXTENDS AssemblyMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- AInit, MStep <- AStep
=============================================================================
