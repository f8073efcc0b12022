----------------------------- MODULE TraceTyped -----------------------------
EXTENDS TypedProp, Json, IOUtils
VARIABLES tid, l, objs, env, bad
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Matches(op, exp, got) ==
    IF exp[1] # got[1] THEN FALSE
    ELSE IF exp[1] = "err" THEN exp[2] = "*" \/ \E i \in 1..Len(got[2]) : got[2][i] = exp[2]
    ELSE ToJson(exp[2]) = ToJson(got[2])
INSTANCE TraceKit WITH Batch <- Traces, NewOf <- NewInst, DoOp <- Do, Agree <- Matches
=============================================================================
