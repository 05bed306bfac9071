---------------------------- MODULE Trace_Options ----------------------------
EXTENDS OptionsMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- OInit, MStep <- OStep
=============================================================================
