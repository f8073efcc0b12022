------------------------------ MODULE TraceMsg ------------------------------
EXTENDS Msg, Json, IOUtils
VARIABLES tid, l, objs, env, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Same(op, exp, got) == exp[1] = got[1] /\ exp[1] = "ok" /\ exp[2] = got[2]
INSTANCE TraceKit WITH Batch <- Traces, NewOf <- NewInst, DoOp <- Do, Agree <- Same
=============================================================================
