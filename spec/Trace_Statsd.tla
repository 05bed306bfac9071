---------------------------- MODULE Trace_Statsd ----------------------------
EXTENDS StatsdMon, Json
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
INSTANCE TraceCheck
=============================================================================
