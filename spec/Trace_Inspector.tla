-------------------------- MODULE Trace_Inspector ---------------------------
EXTENDS InspectorMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- IInit, MStep <- IStep
=============================================================================
