-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* The two wrappers that are sourced in a shell: load-env.sh runs the      *)
(* loader and brings the environment into the shell (ci mode) or into a    *)
(* subshell; gen-config.sh generates the configuration first and runs      *)
(* cmake in the loaded environment.                                        *)
(* env is the environment of Keywords; env.vars are the variables of the   *)
(* shell that sources.                                                     *)
(* A reply is <<"ok", status, variables after, calls of the module tool    *)
(* and of cmake, what the subshell saw, what was left behind>> or, if the  *)
(* shell itself ended, <<"exited", variables, calls>>.                     *)
(***************************************************************************)
EXTENDS Keywords

Busy(env) == HasKey(env.vars, "LOAD_ENV_INTERACTIVE_MODE") /\ ValueOf(env.vars, "LOAD_ENV_INTERACTIVE_MODE") # ""
Stays(env, rc, log) == [env |-> env, r |-> <<"ok", rc, env.vars, log, <<>>, "clean">>]

\* le: the loader's arguments as for LEMake; cm: <<>> or the cmake command to run in the environment
ShLoad(env, le, list, ci, again, cm) ==
    LET m == LEMake(env, le)
        t == LETable(env, m.o)
        x == LEApply(env, m.o)
        e == [env EXCEPT !.plan = x.env.plan]
        s == LEWrite(env, m.o)
    IN IF Busy(env) THEN Stays(env, "1", <<>>)
       ELSE IF ~IsOk(m.r) THEN Stays(env, "1", <<>>)
       ELSE IF list THEN Stays(env, IF IsOk(t) THEN "0" ELSE "1", <<>>)
       ELSE IF x.r[1] # "ok" THEN Stays(e, "1", x.r[4])
       ELSE IF ~IsOk(s) THEN Stays(e, "1", x.r[4])
       ELSE LET y == CHOOSE y \in s[2].runs : TRUE
                sub == Put(Put(y[2], <<"PS1", "(" \o ValueOf(y[2], "LOADED_ENV_NAME") \o ") $ ">>), <<"LOAD_ENV_INTERACTIVE_MODE", "True">>)
                run == x.r[4] \o y[3]
                log == run \o (IF cm = <<>> THEN <<>> ELSE <<<<cm, y[2]>>>>)
            IN IF y[1] = "T"      \* the script ends the shell it runs in
               THEN IF ci THEN [env |-> [e EXCEPT !.vars = y[2]], r |-> <<"exited", y[2], run>>] ELSE Stays(e, "0", run)
               ELSE IF ci THEN [env |-> [e EXCEPT !.vars = y[2]], r |-> <<"ok", "0", y[2], log, <<>>, "clean">>]
               ELSE [env |-> e, r |-> <<"ok", "0", env.vars, log, <<sub, IF again THEN "1" ELSE "", "same">>, "clean">>]

Failed(x) == [x EXCEPT !.r = IF x.r[1] = "ok" /\ x.r[2] # "0" THEN [x.r EXCEPT ![2] = "fail"] ELSE x.r]
ShConfig(env, o, ci, src, again, le) ==
    LET g == GCMain(env, o, <<>>)
        f == GCFiles(env, o)
        frag == B(o.modes[4])
        c == GCComplete(env, o)
    IN IF ~src /\ ~frag THEN Stays(env, "fail", <<>>)
       ELSE IF g.r[1] # "ok" THEN Stays(env, "fail", <<>>)
       ELSE Failed(ShLoad(g.env, <<le, o.build, IF o.force THEN "T" ELSE "F", f[2][3], f[2][4], f[2][5]>>, FALSE, ci, again,
                          IF frag THEN <<>> ELSE <<"cmake", "-Dspec=" \o f[2][2], "-Dwords=a b", "-Dsection=" \o c[2], env.root \o "/srcdir">>))

\* a: <<tool, ci, source directory given, source again inside, odd arguments, loader's configuration>>
ShDo(env, o, op, a) ==
    IF op = "source"
    THEN LET x == IF a[5] = "none" THEN Stays(env, IF a[1] = "load" THEN "1" ELSE "fail", <<>>)
                  ELSE IF a[5] = "bad" THEN Stays(env, "fail", <<>>)
                  ELSE IF a[1] = "load" THEN ShLoad(env, o.le, o.list, B(a[2]), B(a[4]), <<>>)
                  ELSE ShConfig(env, o, B(a[2]), B(a[3]), B(a[4]), a[6])
         IN [o |-> o, env |-> x.env, r |-> x.r]
    ELSE KWDo(env, o, op, a)

ShAgree(op, exp, got) ==
    IF op # "source" THEN KWAgree(op, exp, got)
    ELSE IF exp[1] # got[1] THEN FALSE
    ELSE IF exp[1] = "exited" THEN Pairs(exp[2]) = Pairs(got[2]) /\ SameLog(exp[3], got[3])
    ELSE /\ IF exp[2] = "fail" THEN got[2] # "0" ELSE exp[2] = got[2]
         /\ Pairs(exp[3]) = Pairs(got[3]) /\ SameLog(exp[4], got[4])
         /\ Len(exp[5]) = Len(got[5])
         /\ Len(exp[5]) = 3 => Pairs(exp[5][1]) = Pairs(got[5][1]) /\ exp[5][2] = got[5][2] /\ exp[5][3] = got[5][3]
         /\ exp[6] = got[6]
=============================================================================
