----------------------------- MODULE TraceLmod ------------------------------
EXTENDS Lmod, IOUtils
VARIABLES tid, l, objs, env, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceKit WITH Batch <- Traces, NewOf <- LMNew, DoOp <- LMDo, Agree <- LMAgree
=============================================================================
