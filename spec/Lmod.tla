-------------------------------- MODULE Lmod --------------------------------
(***************************************************************************)
(* SetEnvironment on a machine whose module tool is Lmod, reached through  *)
(* its Python binding.  The binding says nothing reliable about success:   *)
(* what counts is what it wrote to its error stream and which modules are  *)
(* loaded afterwards.                                                      *)
(*                                                                         *)
(* env: disk, vars, loaded (the loaded modules), there (existing module    *)
(* folders), plan: what the tool does in its next calls, each              *)
(*   [act, err, out]  act "do": as asked, "nothing", "name": raises        *)
(*   NameError, "raise": raises something else; err/out: texts it writes   *)
(***************************************************************************)
EXTENDS SetEnv

Elems(s) == {s[i] : i \in 1..Len(s)}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
With(s, x) == IF x \in Elems(s) THEN s ELSE Append(s, x)
Effect(loaded, c) ==
    CASE c[1] = "load" -> With(loaded, c[2])
      [] c[1] = "unload" -> Without(loaded, c[2])
      [] c[1] = "swap" -> With(Without(loaded, c[2]), c[3])
      [] c[1] = "purge" -> <<>>
      [] OTHER -> loaded
\* does the state show what was asked for?
Achieved(loaded, there, c) ==
    CASE c[1] = "load" -> c[2] \in Elems(loaded)
      [] c[1] = "unload" -> c[2] \notin Elems(loaded)
      [] c[1] = "swap" -> c[2] \notin Elems(loaded) /\ c[3] \in Elems(loaded)
      [] c[1] = "use" -> c[2] \in Elems(there)
      [] OTHER -> TRUE

\* one module command: w is [vars, loaded, plan, log, said]
LMRun(w, there, c) ==
    IF ~HasKey(w.vars, "LMOD_CMD") \/ (HasKey(w.vars, "LMOD_CMD") /\ w.vars[PosOf(w.vars, "LMOD_CMD")][2] = "")
    THEN [w |-> w, err |-> "FileNotFoundError", bad |-> FALSE]
    ELSE LET p == IF w.plan = <<>> THEN [act |-> "do", err |-> "", out |-> ""] ELSE Head(w.plan)
             w1 == [w EXCEPT !.plan = IF @ = <<>> THEN @ ELSE Tail(@), !.log = Append(@, c)]
         IN IF p.act = "name" THEN [w |-> w1, err |-> "RuntimeError", bad |-> FALSE]
            ELSE IF p.act = "raise" THEN [w |-> w1, err |-> "Boom", bad |-> FALSE]
            ELSE LET l == IF p.act = "do" THEN Effect(w.loaded, c) ELSE w.loaded
                     w2 == [w1 EXCEPT !.loaded = l, !.said = @ \cup ({Strip(p.out), Strip(p.err)} \ {""})]
                 IN [w |-> w2, err |-> "", bad |-> Contains(ToLower(p.err), "error:") \/ ~Achieved(l, there, c)]

RECURSIVE LMApply(_, _, _, _, _, _)
LMApply(w, there, ecl, acts, i, bad) ==
    IF i > Len(acts) THEN [w |-> w, err |-> "", bad |-> bad]
    ELSE LET a == acts[i] IN
      IF a[1] \in EnvvarOps
      THEN LET x == EnvApply(w.vars, <<>>, a[1], a[2][2], a[3]) IN
           IF x.err # "" THEN [w |-> [w EXCEPT !.vars = x.env], err |-> x.err, bad |-> bad]
           ELSE LMApply([w EXCEPT !.vars = x.env], there, ecl, acts, i + 1, bad)
      ELSE IF ModArgs(a) = <<"!">> THEN [w |-> w, err |-> "TypeError", bad |-> bad]
      ELSE LET x == LMRun(w, there, ModArgs(a)) IN
           IF x.err # "" THEN [w |-> x.w, err |-> x.err, bad |-> bad]
           ELSE IF x.bad /\ Raises(ecl, "CRITICAL") THEN [w |-> x.w, err |-> "RuntimeError", bad |-> bad]
           ELSE LMApply(x.w, there, ecl, acts, i + 1, bad \/ x.bad)

LMWorld(env) == [vars |-> env.vars, loaded |-> env.loaded, plan |-> env.plan, log |-> <<>>, said |-> {}]
LMInto(env, w) == [env EXCEPT !.vars = w.vars, !.loaded = w.loaded, !.plan = w.plan]
\* reply: outcome, variables, loaded modules, the commands the tool received, what must have been passed on
LMReply(x, rest) == IF x.err # "" THEN <<"err", x.err, x.w.vars, x.w.loaded, x.w.log, {}>>
                    ELSE <<"ok", IF x.bad THEN "nonzero" ELSE "0", x.w.vars, x.w.loaded, x.w.log, x.w.said>>

LMNew(env, a) == SENew(env, a)
LMDo(env, o, op, a) ==
    CASE op = "apply" ->
            LET k == Known(env, o, a[1], "apply") IN
            IF k.err # "" THEN [o |-> k.o, env |-> env, r |-> <<"err", k.err, env.vars, env.loaded, <<>>, {}>>]
            ELSE LET x == LMApply(LMWorld(env), env.there, o.c.ecl, ActsOf(k.o, a[1]), 1, FALSE)
                 IN [o |-> k.o, env |-> LMInto(env, x.w), r |-> LMReply(x, 0)]
      [] op = "module" -> LET x == LMRun(LMWorld(env), env.there, a[1] \o a[2])
                          IN [o |-> o, env |-> LMInto(env, x.w), r |-> LMReply(x, 0)]
      [] op = "lmod" -> [o |-> o, env |-> [env EXCEPT !.loaded = a[1], !.plan = a[2], !.vars = a[3]], r |-> <<"ok", "-">>]
LMAgree(op, exp, got) ==
    IF op \notin {"apply", "module"} THEN TRUE
    ELSE /\ exp[1] = got[1]
         /\ IF exp[1] = "err" THEN ErrOK(exp[2], got[2]) ELSE exp[2] = got[2]
         /\ Pairs(exp[3]) = Pairs(got[3])
         /\ Elems(exp[4]) = Elems(got[4])
         /\ ToJson(exp[5]) = ToJson(got[5])
         /\ \A t \in exp[6] : Contains(got[6], t)
=============================================================================
