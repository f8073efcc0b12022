----------------------------- MODULE TraceWrap ------------------------------
EXTENDS Wrap, IOUtils
VARIABLES tid, l, objs, env, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceKit WITH Batch <- Traces, NewOf <- KWNew, DoOp <- ShDo, Agree <- ShAgree
=============================================================================
