------------------------------- MODULE SetEnv -------------------------------
(***************************************************************************)
(* SetEnvironment: a ConfigParserEnhanced whose handlers record actions,   *)
(* which are applied to the environment or written out as a script.        *)
(*                                                                         *)
(* An instance is [c, acts]: the parser object (CPE) and an ordered map    *)
(* <<section, actions>>.  An action is <<op, name, value>>, name and value *)
(* being <<"s", text>> or <<"n", "">>.                                     *)
(*                                                                         *)
(* What instances share (env): disk; vars, the environment variables; exe, *)
(* the executables; plan, what the module tool will do in its next calls;  *)
(* each [code, bad, emits, ml]: exit status, whether it reports an error,  *)
(* the commands it emits (<<"set", n, v>>, <<"unset", n>>, <<"raise">>)    *)
(* and the status these flag ("", "T" or "F").                             *)
(***************************************************************************)
EXTENDS CPE, EnvOps, Json

EnvvarOps == {"envvar_append", "envvar_assert_not_empty", "envvar_find_in_path", "envvar_prepend",
              "envvar_remove_path_entry", "envvar_remove_substr", "envvar_set", "envvar_set_if_empty", "envvar_unset"}
ModuleOps == {"module_load", "module_purge", "module_swap", "module_unload", "module_use"}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Handlers == [i \in 1..11 |-> <<SetSeq(EnvvarOps \cup {"envvar_remove", "module_remove"})[i], "priv", "d", "arg1", "0">>]
            \o [i \in 1..5 |-> <<SetSeq(ModuleOps)[i], "priv", "d", "none", "0">>]

\* ------------------------------------------------------- recording actions
Removes(op, params, act) ==
    IF op = "envvar_remove" THEN act[1] \in EnvvarOps /\ act[2] = <<"s", params[1]>>
    ELSE act[1] \in ModuleOps /\ (act[2] = <<"s", params[1]>> \/ (act[3][1] = "s" /\ Contains(act[3][2], params[1])))

\* the list after one more operation
Record(list, op, params, v) ==
    IF op \in {"envvar_remove", "module_remove"} THEN SelectSeq(list, LAMBDA x : ~Removes(op, params, x))
    ELSE Append(list, <<op, IF params = <<>> THEN <<"n", "">> ELSE <<"s", params[1]>>,
                        IF op = "envvar_assert_not_empty" /\ v[1] = "n" THEN <<"s", "">> ELSE v>>)

\* fold over the events of a call: acts, the list being built
RECURSIVE Fold(_, _, _, _)
Fold(ev, i, acts, cur) ==
    IF i > Len(ev) THEN [acts |-> acts, cur |-> cur]
    ELSE LET e == ev[i] IN
         IF e[1] # "call" THEN Fold(ev, i + 1, acts, cur)
         ELSE IF e[2] = "handler_initialize" THEN Fold(ev, i + 1, acts, <<>>)
         ELSE IF e[2] = "handler_finalize" THEN Fold(ev, i + 1, Put(acts, <<e[4], cur>>), cur)
         ELSE IF e[6] = <<>> /\ e[5] \notin ModuleOps THEN Fold(ev, i + 1, acts, cur)    \* the handler failed
         ELSE Fold(ev, i + 1, acts, Record(cur, e[5], e[6], <<e[8], e[9]>>))

ActsOf(o, s) == o.acts[PosOf(o.acts, s)][2]

\* ------------------------------------------------------------ module tool
NoVal(x) == x[1] = "n" \/ x[2] = ""
\* the arguments of the command, or <<"!">> if they cannot be formed
ModArgs(a) ==
    CASE a[1] = "module_purge" -> <<"purge">>
      [] a[1] = "module_use" -> IF a[3][1] = "n" THEN <<"!">> ELSE <<"use">> \o WordsOf(a[3][2])
      [] a[1] = "module_unload" -> IF a[2][1] = "n" THEN <<"!">> ELSE <<"unload">> \o WordsOf(a[2][2])
      [] a[1] = "module_swap" -> IF a[2][1] = "n" \/ a[3][1] = "n" THEN <<"!">> ELSE <<"swap", a[2][2], a[3][2]>>
      [] a[1] = "module_load" ->
            IF a[2][1] = "n" THEN <<"!">>
            ELSE <<"load">> \o WordsOf(IF NoVal(a[3]) THEN a[2][2] ELSE a[2][2] \o "/" \o a[3][2])

RECURSIVE Emit(_, _, _)
Emit(vars, es, i) ==
    IF i > Len(es) THEN Good(vars)
    ELSE CASE es[i][1] = "set" -> Emit(Put(vars, <<es[i][2], es[i][3]>>), es, i + 1)
           [] es[i][1] = "unset" -> Emit(DropKey(vars, es[i][2]), es, i + 1)
           [] es[i][1] = "raise" -> Bad(vars, "IndexError")

\* w is the world [vars, plan, log]; the result is [w, err, code]
ModRun(w, exe, args) ==
    IF Search(w.vars, exe, "modulecmd") = "" THEN [w |-> w, err |-> "FileNotFoundError", code |-> 0]
    ELSE LET p == IF w.plan = <<>> THEN [code |-> 0, bad |-> "F", emits |-> <<>>, ml |-> ""] ELSE Head(w.plan)
             w1 == [w EXCEPT !.plan = IF @ = <<>> THEN @ ELSE Tail(@), !.log = Append(@, <<args, w.vars>>)]
         IN IF p.bad = "T" THEN [w |-> w1, err |-> "", code |-> 1]
            ELSE IF p.code # 0 THEN [w |-> w1, err |-> "", code |-> p.code]
            ELSE LET e == Emit(w.vars, p.emits, 1) IN
                 [w |-> [w1 EXCEPT !.vars = e.env], err |-> e.err,
                  code |-> IF e.err = "" /\ p.ml = "F" THEN 1 ELSE 0]

\* --------------------------------------------------------------- applying
RECURSIVE ApplyFrom(_, _, _, _, _, _)
ApplyFrom(w, exe, ecl, acts, i, rv) ==
    IF i > Len(acts) THEN [w |-> w, err |-> "", rv |-> rv]
    ELSE LET a == acts[i] IN
      IF a[1] \in EnvvarOps
      THEN LET x == EnvApply(w.vars, exe, a[1], a[2][2], a[3])
               w1 == [w EXCEPT !.vars = x.env]
           IN IF x.err # "" THEN [w |-> w1, err |-> x.err, rv |-> rv]
              ELSE ApplyFrom(w1, exe, ecl, acts, i + 1, rv)
      ELSE LET args == ModArgs(a) IN
           IF args = <<"!">> THEN [w |-> w, err |-> "TypeError", rv |-> rv]
           ELSE LET x == ModRun(w, exe, args) IN
                IF x.err # "" THEN [w |-> x.w, err |-> x.err, rv |-> rv]
                ELSE IF x.code # 0 /\ Raises(ecl, "CRITICAL") THEN [w |-> x.w, err |-> "RuntimeError", rv |-> rv]
                ELSE ApplyFrom(x.w, exe, ecl, acts, i + 1, IF x.code # 0 THEN 1 ELSE rv)

World(env) == [vars |-> env.vars, plan |-> env.plan, log |-> <<>>]
Into(env, w) == [env EXCEPT !.vars = w.vars, !.plan = w.plan]

\* make sure the section has been parsed; [o, err]
Known(env, o, s, how) ==
    IF how = "gen" /\ HasKey(o.acts, s) THEN [o |-> o, err |-> ""]
    ELSE LET q == IF how = "gen" THEN ParseOp(env.disk, o.c, s, TRUE, TRUE) ELSE Section(env.disk, o.c, s)
             f == Fold(q.ev, 1, o.acts, <<>>)
             e == IF q.r[1] = "err" THEN q.r[2] ELSE ""
         IN [o |-> [c |-> q.o, acts |-> f.acts], err |-> IF e = "" /\ ~HasKey(f.acts, s) THEN "KeyError" ELSE e]

Apply(env, o, s) ==
    LET k == Known(env, o, s, "apply") IN
    IF k.err # "" THEN [o |-> k.o, env |-> env, r |-> <<"err", k.err, env.vars, <<>>>>]
    ELSE LET x == ApplyFrom(World(env), env.exe, o.c.ecl, ActsOf(k.o, s), 1, 0) IN
         [o |-> k.o, env |-> Into(env, x.w),
          r |-> IF x.err # "" THEN <<"err", x.err, x.w.vars, x.w.log>>
                ELSE <<"ok", IF x.rv = 0 THEN "0" ELSE "nonzero", x.w.vars, x.w.log>>]

\* --------------------------------------------------------------- scripts
RECURSIVE BashRun(_, _, _, _)
\* S is the set of [w, err] reachable before action i
BashRun(S, exe, acts, i) ==
    IF i > Len(acts) THEN S
    ELSE LET a == acts[i]
             Step(x) == IF x.err # "" THEN {x}
                        ELSE IF a[1] \in EnvvarOps
                        THEN {[w |-> [x.w EXCEPT !.vars = y.env], err |-> y.err] : y \in BashApply(x.w.vars, exe, a[1], a[2][2], a[3])}
                        ELSE {[w |-> [x.w EXCEPT !.log = Append(@, <<ModArgs(a), x.w.vars>>)], err |-> ""]}
         IN BashRun(UNION {Step(x) : x \in S}, exe, acts, i + 1)

\* a value (or name) the script cannot be written with
Unwritable(acts) == \E i \in 1..Len(acts) :
    \/ acts[i][1] \in EnvvarOps \ {"envvar_unset"} /\ acts[i][3][1] = "n"
    \/ acts[i][1] \in ModuleOps /\ ModArgs(acts[i]) = <<"!">>

Script(env, o, s, interp, hdr, body, sheb) ==
    LET none == [shebang |-> "F", defs |-> "F"] IN
    IF interp \notin {"bash", "python"}
    THEN [o |-> o, env |-> env,
          r |-> IF Raises(o.c.ecl, "SERIOUS") THEN <<"err", "ValueError">> ELSE <<"refused">>]
    ELSE LET k == IF body THEN Known(env, o, s, "gen") ELSE [o |-> o, err |-> ""]
             acts == IF body /\ k.err = "" THEN ActsOf(k.o, s) ELSE <<>>
             w == World(env)
             runs == IF interp = "bash" THEN BashRun({[w |-> w, err |-> ""]}, env.exe, acts, 1)
                     ELSE LET x == ApplyFrom(w, env.exe, 0, acts, 1, 0) IN {[w |-> x.w, err |-> x.err]}
         IN [o |-> k.o, env |-> env,
             r |-> IF k.err # "" THEN <<"err", k.err>>
                   ELSE IF Unwritable(acts) THEN <<"err", "TypeError">>
                   ELSE <<"ok", [empty |-> IF hdr \/ body THEN "F" ELSE "T",
                                 shebang |-> IF sheb /\ (hdr \/ body) THEN "T" ELSE "F",
                                 defs |-> IF hdr THEN "T" ELSE "F",
                                 runs |-> {<<IF x.err = "" THEN "F" ELSE "T", x.w.vars, x.w.log>> : x \in runs}]>>]

\* --------------------------------------------------------------- listings
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
Shown(x) == IF x[1] = "n" THEN "None" ELSE x[2]
Ref(n) == "${" \o n \o "}"
\* what the listing says about one action
Line(a) ==
    LET n == Shown(a[2]) v == Shown(a[3]) IN
    CASE a[1] = "module_load" -> IF NoVal(a[3]) THEN n \o " (default)" ELSE n \o "/" \o v
      [] a[1] = "module_purge" -> ""
      [] a[1] = "module_swap" -> n \o " " \o v
      [] a[1] \in {"module_unload", "envvar_assert_not_empty", "envvar_unset"} -> n
      [] a[1] = "module_use" -> v
      [] a[1] = "envvar_append" -> n \o "=\"" \o Ref(n) \o ":" \o v \o "\""
      [] a[1] = "envvar_prepend" -> n \o "=\"" \o v \o ":" \o Ref(n) \o "\""
      [] a[1] = "envvar_remove_path_entry" -> "remove path `" \o v \o "` from `" \o n \o "`"
      [] a[1] = "envvar_remove_substr" -> "remove string `" \o v \o "` from `" \o Ref(n) \o "`"
      [] a[1] \in {"envvar_set", "envvar_set_if_empty", "envvar_find_in_path"} -> n \o "=\"" \o v \o "\""
\* an operation written without one of its operands has no agreed listing
Whole(a) == /\ a[1] \in {"module_load", "module_unload", "module_swap"} => a[2][1] # "n"
            /\ a[1] \notin {"module_load", "module_purge", "module_unload", "envvar_assert_not_empty", "envvar_unset"} => a[3][1] # "n"
Listing(acts) ==
    LET w == CHOOSE m \in 14..40 : /\ \A i \in 1..Len(acts) : Len(acts[i][1]) <= m
                                   /\ m = 14 \/ \E i \in 1..Len(acts) : Len(acts[i][1]) = m
    IN [i \in 1..Len(acts) |-> "--> " \o acts[i][1] \o Blanks(w - Len(acts[i][1])) \o " : " \o Line(acts[i]) \o "\n"]
\* the variables shown for a list of filters (none: all)
VarLines(vs, all, filters, only) ==
    LET Hit(n) == \E j \in 1..Len(filters) : Contains(n, filters[j])
        sel == SelectSeq(vs, LAMBDA x : all \/ ~only \/ Hit(x[1]))
    IN [i \in 1..Len(sel) |-> sel[i][1] \o (IF all \/ Hit(sel[i][1]) THEN " = " \o sel[i][2] ELSE "") \o "\n"]

\* -------------------------------------------------------------- the object
SENew(env, a) == [c |-> NewObj(a[1], a[2], a[3], Handlers), acts |-> <<>>]

SEDo(env, o, op, a) ==
    CASE op = "apply" -> Apply(env, o, a[1])
      \* the caller cuts a recorded list down to its first actions
      [] op = "keep" -> IF ~HasKey(o.acts, a[1]) THEN [o |-> o, env |-> env, r |-> <<"ok", "none">>]
                        ELSE [o |-> [o EXCEPT !.acts = Put(@, <<a[1], SubSeq(ActsOf(o, a[1]), 1, IF a[2] < Len(ActsOf(o, a[1])) THEN a[2] ELSE Len(ActsOf(o, a[1])))>>)],
                              env |-> env, r |-> <<"ok", "kept">>]
      [] op = "actions" -> [o |-> o, env |-> env,
                            r |-> <<"ok", IF HasKey(o.acts, a[1]) THEN ActsOf(o, a[1]) ELSE <<"none">>>>]
      [] op = "script" -> Script(env, o, a[1], a[2], B(a[3]), B(a[4]), B(a[5]))
      [] op = "module" -> LET x == ModRun(World(env), env.exe, a[1] \o (IF Len(a[2]) = 1 THEN WordsOf(a[2][1]) ELSE a[2]))
                          IN [o |-> o, env |-> Into(env, x.w),
                              r |-> IF x.err # "" THEN <<"err", x.err, x.w.vars, x.w.log>>
                                    ELSE <<"ok", ToString(x.code), x.w.vars, x.w.log>>]
      [] op = "pretty" -> LET k == Known(env, o, a[1], "apply")
                          IN [o |-> k.o, env |-> env, r |-> IF k.err # "" THEN <<"err", k.err>> ELSE IF \E i \in 1..Len(ActsOf(k.o, a[1])) : ~Whole(ActsOf(k.o, a[1])[i]) THEN <<"any", "">>
                                                           ELSE <<"ok", Listing(ActsOf(k.o, a[1]))>>]
      [] op = "showvars" -> [o |-> o, env |-> env, r |-> <<"ok", VarLines(env.vars, B(a[1]), a[2], B(a[3]))>>]
      [] op = "vars" -> [o |-> o, env |-> [env EXCEPT !.vars = a], r |-> <<"ok", "-">>]
      [] op = "plan" -> [o |-> o, env |-> [env EXCEPT !.plan = a], r |-> <<"ok", "-">>]
      [] op = "disk" -> [o |-> o, env |-> [env EXCEPT !.disk = a], r |-> <<"ok", "-">>]
      [] OTHER -> LET q == Do(env.disk, o.c, op, a)
                      f == Fold(q.ev, 1, IF op \in {"set_paths", "set_delims"} THEN <<>> ELSE o.acts, <<>>)
                  IN [o |-> [c |-> q.o, acts |-> f.acts], env |-> env,
                      r |-> IF op = "parse" /\ q.r[1] = "ok" THEN <<"ok", f.cur>> ELSE q.r]

\* -------------------------------------------------- agreement with a reply
Pairs(m) == {<<m[i][1], m[i][2]>> : i \in 1..Len(m)}
SameLog(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ Pairs(b[i][2]) \subseteq Pairs(a[i][2])
                                         /\ \A j \in 1..Len(a[i][2]) : a[i][2][j][1] \in {"A", "B", "C", "M1"} =>
                                                HasKey(b[i][2], a[i][2][j][1])
ErrOK(exp, classes) == exp = "*" \/ \E i \in 1..Len(classes) : classes[i] = exp
SEAgree(op, exp, got) ==
    IF exp[1] = "any" THEN TRUE
    ELSE IF exp[1] # got[1] THEN FALSE
    ELSE IF exp[1] = "refused" THEN TRUE
    ELSE IF exp[1] = "err" THEN ErrOK(exp[2], got[2]) /\
            (op \in {"apply", "module"} => Pairs(exp[3]) = Pairs(got[3]) /\ SameLog(exp[4], got[4]))
    ELSE CASE op \in {"apply", "module"} -> exp[2] = got[2] /\ Pairs(exp[3]) = Pairs(got[3]) /\ SameLog(exp[4], got[4])
           [] op = "script" -> LET e == exp[2] g == got[2] IN
                 /\ e.empty = g.empty /\ e.shebang = g.shebang /\ e.defs = g.defs /\ g.pure = "T"
                 /\ \E x \in e.runs : x[1] = g.failed /\ Pairs(x[2]) = Pairs(g.vars) /\ SameLog(x[3], g.log)
           [] op = "showvars" -> /\ Len(exp[2]) = Len(got[2])
                                 /\ {exp[2][i] : i \in 1..Len(exp[2])} = {got[2][i] : i \in 1..Len(got[2])}
           [] op = "pretty" -> Join(exp[2], "") = got[2]
           [] op = "items_all" -> {ToJson(exp[2][i]) : i \in 1..Len(exp[2])} = {ToJson(got[2][i]) : i \in 1..Len(got[2])}
           [] OTHER -> ToJson(exp[2]) = ToJson(got[2])
=============================================================================
