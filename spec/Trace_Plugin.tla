---------------------------- MODULE Trace_Plugin ----------------------------
EXTENDS PluginMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck WITH MInit <- PInit, MStep <- PStep
=============================================================================
