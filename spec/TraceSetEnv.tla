---------------------------- MODULE TraceSetEnv -----------------------------
EXTENDS SetEnv, Json, IOUtils
VARIABLES tid, l, objs, env, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceKit WITH Batch <- Traces, NewOf <- SENew, DoOp <- SEDo, Agree <- SEAgree
=============================================================================
