------------------------------- MODULE MC_Lmod ------------------------------
(* S06: every pair of module commands (called directly, or as the actions of *)
(* a section) x what Lmod does in them x what it writes x loaded modules.    *)
EXTENDS Lmod
CONSTANTS Deep
VARIABLES env, obj, hist, plan
vars == <<env, obj, hist, plan>>

Errs == {"", "Lmod Warning: x", "Lmod has detected the following error: y", "ERROR: z", "no errors"} \cup (IF Deep THEN {"Error:", "error w", " "} ELSE {})
Acts == {"do", "nothing", "name", "raise"}
P1 == {[act |-> a, err |-> e, out |-> ""] : a \in Acts, e \in Errs} \cup {[act |-> "do", err |-> "", out |-> "error: on the output"]}
P2 == {[act |-> "do", err |-> "", out |-> ""], [act |-> "nothing", err |-> "", out |-> ""], [act |-> "do", err |-> "Error: q", out |-> "text"]}
Cmds == {<<"load", "g/9">>, <<"unload", "g/9">>, <<"unload", "c">>, <<"swap", "c", "g/9">>, <<"use", "/R/there">>, <<"use", "/R/gone">>, <<"purge">>}
AsOpt(c, i) == CASE c[1] = "load" -> <<"module-load g", "s", "9">>
                 [] c[1] = "unload" -> <<"module-unload " \o c[2], "n", "">>
                 [] c[1] = "swap" -> <<"module-swap " \o c[2], "s", c[3]>>
                 [] c[1] = "use" -> <<"module-use", "s", c[2]>>
                 [] c[1] = "purge" -> <<"module-purge", "n", "">>
Vs == {<<<<"PATH", "/R/bin">>, <<"LMOD_CMD", "/x">>>>}
VsAll == Vs \cup {<<<<"PATH", "/R/bin">>, <<"LMOD_CMD", "">>>>, <<<<"PATH", "/R/bin">>>>}
Sec(c, d) == <<"S", <<AsOpt(c, 1), <<"envvar-set A", "s", "x">>>> \o (IF AsOpt(d, 2)[1] = AsOpt(c, 1)[1] THEN <<>> ELSE <<AsOpt(d, 2)>>) \o <<<<"envvar-set B", "s", "y">>>>>>
Env(secs, v, ld, p) == [disk |-> <<<<"f", "file", <<<<"=:", "", secs>>>>>>>>, vars |-> v, loaded |-> ld, there |-> <<"/R/there">>, plan |-> p]
Init ==
    /\ hist = <<>>
    /\ \/ \E c \in Cmds, d \in Cmds, p \in P1, q \in P2, ld \in {<<>>, <<"c">>} \cup (IF Deep THEN {<<"g/9">>, <<"c", "g/9">>} ELSE {}),
             e \in IF Deep THEN {0, 1, 2, 5} ELSE {1, 2}, v \in Vs :
             /\ env = Env(<<Sec(c, d)>>, v, ld, <<p, q>>)
             /\ obj = SENew(env, <<<<"f">>, "DEFAULT", e>>)
             /\ plan = <<<<"apply", <<"S">>>>>>
       \/ \E c \in Cmds, p \in P1, aslist \in {"T", "F"}, ld \in {<<>>, <<"c">>, <<"g/9">>, <<"c", "g/9">>}, v \in VsAll :
             /\ env = Env(<<<<"S", <<>>>>>>, v, ld, <<p>>)
             /\ obj = SENew(env, <<<<"f">>, "DEFAULT", 4>>)
             /\ plan = <<<<"module", IF aslist = "T" THEN <<c, <<>>, "T">> ELSE <<<<c[1]>>, Tail(c), "F">>>>>>
Next == /\ plan # <<>>
        /\ LET s == Head(plan)
               x == LMDo(env, obj, s[1], s[2])
           IN /\ obj' = x.o /\ env' = x.env /\ plan' = Tail(plan)
              /\ hist' = Append(hist, <<s[1], s[2], x.r>>)
              /\ PrintT("CASE " \o ToJson([disk |-> env.disk, vars |-> env.vars, loaded |-> env.loaded, plan |-> env.plan, ecl |-> obj.c.ecl, steps |-> hist']))
Spec == Init /\ [][Next]_vars

LastR == hist[Len(hist)][3]
\* success means that nothing was reported and that the last request is fulfilled
Sound == (hist # <<>> /\ LastR[1] = "ok" /\ LastR[2] = "0" /\ hist[1][1] = "module") =>
            LET c == LastR[5][Len(LastR[5])] IN Achieved(LastR[4], <<"/R/there">>, c)
\* below level 2 all commands are issued, from there on none after the first failure
Stops == (hist # <<>> /\ hist[1][1] = "apply" /\ LastR[1] = "err") => (LastR[2] \in {"RuntimeError", "Boom"})
=============================================================================
