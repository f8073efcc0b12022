------------------------------- MODULE MC_Env -------------------------------
(***************************************************************************)
(* All short sections of SetEnvironment over a small vocabulary, with what *)
(* parsing, applying and the generated scripts do.  Every behaviour is     *)
(* printed with the replies it prescribes and replayed in the real code.   *)
(*   Mode 1 (S02, S03): environment operations, from several environments  *)
(*   Mode 2 (S01): the recorded actions, with removals and `use`           *)
(*   Mode 3 (S04): module operations, failing ones included, every level   *)
(*   Mode 4 (S05): the module command by itself                            *)
(*   Mode 5 (S07): listings of actions and variables                       *)
(* /R stands for the scratch directory of the replay.                      *)
(***************************************************************************)
EXTENDS SetEnv, TLC
CONSTANTS Mode, MaxLen, Deep
VARIABLES env, obj, hist, plans
vars == <<env, obj, hist, plans>>

S(k, v) == <<k, "s", v>>
N(k) == <<k, "n", "">>
Bins == "/R/bin1:/R/bin2:/R/sysbin"
Exe == <<"/R/bin1/tool", "/R/bin1/modulecmd", "/R/bin2/tool", "/R/bin2/tool2">>
Env(secs, vs, pl) == [disk |-> <<<<"f", "file", <<<<"=:", "", secs>>>>>>>>, vars |-> vs, exe |-> Exe, plan |-> pl]
\* distinct keys: a number is added as another parameter
Num(os) == [i \in 1..Len(os) |-> [os[i] EXCEPT ![1] = IF StartsWith(@, "use ") THEN @ ELSE @ \o " n" \o ToString(i)]]
Seqs(A, n) == UNION {[1..k -> A] : k \in 1..n}

\* ----------------------------------------------------------------- Mode 1
Acts1 == {S("envvar-set A", "x"), S("envvar-set A", "$B"), S("envvar-set A", ""), S("envvar-set B", "${A}:1"),
          S("envvar-set-if-empty A", "y"), S("envvar-append A", "x"), S("envvar-append A", "${A}"), S("envvar-prepend A", "$B"),
          S("envvar-prepend B", "x"), N("envvar-unset A"), S("envvar-unset B", "x"), S("envvar-remove-substr A", "x"),
          S("envvar-remove-path-entry A", "x"), S("envvar-remove-path-entry A", "$B"), S("envvar-find-in-path C", "tool2"),
          S("envvar-find-in-path C", "none"), N("envvar-assert-not-empty A"), S("envvar-assert-not-empty B", "m")}
More1 == {S("envvar-set D", "a b's"), S("envvar-append PATH", "/R/x"), S("envvar-remove-path-entry PATH", "/R/bin1"),
          S("envvar-find-in-path C", "tool"), S("envvar-set A", "$UNSETVAR.x"), S("envvar-remove-substr B", "1")}
Vars1 == {<<<<"PATH", Bins>>>> \o a \o b \o <<<<"OTHER", "o">>>> :
            a \in {<<>>, <<<<"A", "">>>>, <<<<"A", "x:yx:x">>>>}, b \in {<<>>, <<<<"B", "x">>>>}}
Init1 == \E os \in Seqs(IF Deep THEN Acts1 \cup More1 ELSE Acts1, MaxLen) \cup Seqs(More1, 1), vs \in Vars1 :
            env = Env(<<<<"S", Num(os)>>>>, vs, <<>>)
Ops1 == <<<<"script", <<"S", "bash", "T", "T", "F", "text", "F">>>>, <<"script", <<"S", "python", "T", "T", "F", "text", "F">>>>,
          <<"apply", <<"S">>>>, <<"actions", <<"S">>>>, <<"apply", <<"S">>>>>>

\* ----------------------------------------------------------------- Mode 2
Acts2 == {S("envvar-set A", "x"), S("envvar-append B", "A"), S("envvar-set AB", "A"), N("envvar-remove A"),
          S("module-load gcc", "9"), S("module-swap g", "gcc/9"), S("module-use", "/gcc"), N("module-purge"), N("module-remove gcc"),
          N("module-remove g"), N("use X")}
Init2 == \E os \in Seqs(Acts2, MaxLen), x \in {<<S("envvar-set A", "2"), N("module-remove gcc")>>, <<N("envvar-remove A"), S("module-load g", "")>>} :
            env = Env(<<<<"S", Num(os)>>, <<"X", Num(x)>>>>, <<<<"PATH", Bins>>>>, <<>>)
Ops2 == <<<<"parse", <<"X", "T", "T">>>>, <<"parse", <<"S", "T", "T">>>>, <<"actions", <<"S">>>>, <<"actions", <<"X">>>>, <<"parse", <<"S", "T", "T">>>>,
          <<"actions", <<"S">>>>>>

\* ----------------------------------------------------------------- Mode 3
Plan(c, b, e, m) == [code |-> c, bad |-> b, emits |-> e, ml |-> m]
Sets == <<<<"set", "M1", "on">>, <<"unset", "B">>>>
Plans == {Plan(0, "F", Sets, ""), Plan(0, "F", Sets, "F"), Plan(0, "F", Sets, "T"), Plan(3, "F", Sets, ""), Plan(0, "T", Sets, ""),
          Plan(2, "T", Sets, "F"), Plan(0, "F", <<<<"set", "M1", "half">>, <<"raise">>>>, "")}
Acts3 == {S("module-load gcc", "9"), N("module-unload gcc"), S("module-swap a", "b"), N("module-purge"), S("envvar-set A", "$M1"), N("module-load")}
Init3 == \E os \in Seqs(Acts3, MaxLen), pl \in [1..2 -> Plans], path \in {Bins, "/R/bin2"} :
            /\ path # Bins => pl[1] = pl[2]
            /\ env = Env(<<<<"S", Num(os)>>>>, <<<<"PATH", path>>, <<"B", "b">>>>, pl)
Ops3 == <<<<"apply", <<"S">>>>>>

\* ----------------------------------------------------------------- Mode 4
Cmds == {<<<<"load">>, <<"gcc">>>>, <<<<"load">>, <<"a b">>>>, <<<<"swap">>, <<"a b", "c">>>>, <<<<"purge">>, <<>>>>, <<<<"load", "x y">>, <<"z">>>>}
AllPlans == {Plan(c, b, e, m) : c \in {0, 1, 5, 255}, b \in {"T", "F"}, e \in {<<>>, Sets, <<<<"raise">>>>, <<<<"set", "A", "1">>, <<"raise">>, <<"set", "A", "2">>>>},
                                m \in {"", "T", "F"}}
Init4 == \E p \in AllPlans, path \in {Bins, "/R/bin2", "/R/bin2:/R/bin1"} :
            env = Env(<<<<"S", <<>>>>>>, <<<<"PATH", path>>, <<"B", "b">>>>, <<p>>)

\* ----------------------------------------------------------------- Mode 5
Acts5 == {S("envvar-set A", "x"), S("envvar-set-if-empty A", "$B"), S("envvar-append A", "x:y"), S("envvar-prepend A", ""), N("envvar-unset A"),
          S("envvar-remove-substr A", "x"), S("envvar-remove-path-entry A", "x"), S("envvar-find-in-path C", "tool"), N("envvar-assert-not-empty A"),
          S("envvar-assert-not-empty B", "m"), N("envvar-set B"), S("module-load gcc", "9"), S("module-load gcc", ""), N("module-load gcc"),
          S("module-swap a", "b"), N("module-swap a"), N("module-unload gcc"), S("module-use", "/m"), N("module-purge"), N("envvar-remove A"),
          N("module-remove gcc"), N("use X")}
Init5 == \E os \in Seqs(Acts5, MaxLen), vs \in {<<<<"PATH", "/R/bin1">>, <<"AB", "">>>>, <<<<"A", "1\n2">>, <<"PATH", "/R/bin1">>, <<"B", " ">>>>} :
            env = Env(<<<<"S", Num(os)>>, <<"X", <<S("module-load m", ""), S("envvar-remove-path-entry A", "/")>>>>>>, vs, <<>>)
Ops5 == <<<<"pretty", <<"S">>>>, <<"actions", <<"S">>>>, <<"showvars", <<"T", <<>>, "T">>>>, <<"showvars", <<"F", <<"A", "Z">>, "T">>>>,
          <<"showvars", <<"F", <<"B">>, "F">>>>, <<"showvars", <<"F", <<>>, "T">>>>, <<"pretty", <<"S">>>>, <<"pretty", <<"NO">>>>>>

Init == /\ CASE Mode = 5 -> Init5 [] Mode = 1 -> Init1 [] Mode = 2 -> Init2 [] Mode = 3 -> Init3 [] Mode = 4 -> Init4
        /\ \E ecl \in IF Mode = 3 THEN {1, 3, 4} ELSE {4} : obj = SENew(env, <<<<"f">>, "DEFAULT", ecl>>)
        /\ hist = <<>> /\ plans = env.plan
Ops == CASE Mode = 5 -> Ops5 [] Mode = 1 -> Ops1 [] Mode = 2 -> Ops2 [] Mode = 3 -> Ops3
Choices == IF Mode = 4 THEN {<<"module", <<c[1], c[2], IF Len(c[1]) > 1 THEN "T" ELSE "F">>>> : c \in Cmds}
           ELSE {Ops[Len(hist) + 1]}
NOps == IF Mode = 4 THEN 2 ELSE Len(Ops)
Start == IF hist = <<>> THEN env.vars ELSE hist[1][4]
Next == /\ Len(hist) < NOps
        /\ \E c \in Choices :
             LET x == SEDo(env, obj, c[1], c[2])
                 h == Append(hist, <<c[1], c[2], x.r, env.vars>>)
             IN /\ obj' = x.o /\ env' = x.env /\ hist' = h /\ UNCHANGED plans
                /\ (Len(h) < NOps \/ PrintT("CASE " \o ToJson([disk |-> env.disk, vars |-> Start, plan |-> plans, ecl |-> obj.c.ecl,
                                             steps |-> [i \in 1..Len(h) |-> SubSeq(h[i], 1, 3)]])))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Opts == env.disk[1][3][1][3][1][2]
Done(op) == hist # <<>> /\ hist[Len(hist)][1] = op
Reply == hist[Len(hist)][3]
Before == hist[Len(hist)][4]
Named(n) == \E i \in 1..Len(Opts) : LET p == Split(Opts[i][1], " ") IN Len(p) > 1 /\ p[2] = n
\* S02: variables that no action names stay as they are
Frame == Mode = 1 /\ Done("apply") =>
    \A n \in {"A", "B", "OTHER", "PATH"} : ~Named(n) =>
        /\ Has(Before, n) = Has(env.vars, n)
        /\ Has(Before, n) => ValueOf(Before, n) = ValueOf(env.vars, n)
\* S02: the result of the last action alone
Ops1Last == IF Opts = <<>> THEN "" ELSE LET p == Split(Opts[Len(Opts)][1], " ") IN p[1] \o " " \o p[2]
Effects == Mode = 1 /\ Done("apply") /\ Reply[1] = "ok" =>
    LET v == Opts[Len(Opts)][3] IN
    /\ Ops1Last = "envvar-set A" /\ v = "x" => Has(env.vars, "A") /\ ValueOf(env.vars, "A") = "x"
    /\ Ops1Last = "envvar-unset A" => ~Has(env.vars, "A")
    /\ Ops1Last = "envvar-remove-path-entry A" /\ v = "x" /\ Has(env.vars, "A") => ~Contains(":" \o ValueOf(env.vars, "A") \o ":", ":x:")
    /\ Ops1Last = "envvar-remove-substr A" /\ Has(env.vars, "A") => ~HasChar(ValueOf(env.vars, "A"), "x")
    /\ Ops1Last \in {"envvar-assert-not-empty A", "envvar-set-if-empty A"} => Has(env.vars, "A") /\ ValueOf(env.vars, "A") # ""
    /\ Ops1Last = "envvar-find-in-path C" => ValueOf(env.vars, "C") \in {"", "/R/bin1/tool", "/R/bin2/tool", "/R/bin2/tool2"}
\* S03: applying does what the Python script does, and that is among what the bash script may do
SameEffect == Mode = 1 /\ Len(hist) = 3 /\ hist[2][3][1] = "ok" =>
    LET out == <<IF Reply[1] = "ok" THEN "F" ELSE "T", Pairs(env.vars)>>
        Runs(r) == {<<x[1], Pairs(x[2])>> : x \in r[2].runs}
    IN Runs(hist[2][3]) = {out} /\ out \in Runs(hist[1][3])
\* S01: a removal leaves nothing of the kind before it, and takes nothing that comes after it
ActsIn == IF Reply[1] = "ok" THEN Reply[2] ELSE <<>>
Pruned == Mode = 2 /\ Done("parse") /\ Len(hist) = 2 =>
    LET n == Len(Opts)
        p == IF n = 0 THEN "" ELSE Split(Opts[n][1], " ")[1] \o " " \o (Split(Opts[n][1], " ") \o <<"">>)[2]
    IN /\ p = "envvar-remove A" => \A i \in 1..Len(ActsIn) : ActsIn[i][2][2] # "A"
       /\ p = "module-remove g" => \A i \in 1..Len(ActsIn) : ActsIn[i][1] \in EnvvarOps \/ (ActsIn[i][2][2] # "g" /\ ~Contains(ActsIn[i][3][2], "g"))
       /\ p \notin {"envvar-remove A", "module-remove g", "module-remove gcc", "use X", ""} =>
            ActsIn # <<>> /\ ToLower(Replace(Split(Opts[n][1], " ")[1], "-", "_")) = ActsIn[Len(ActsIn)][1]
\* S01: parsing again, or another section first, changes nothing
Same == Mode = 2 /\ Len(hist) = 6 => /\ ToJson(hist[2][3]) = ToJson(hist[5][3]) /\ ToJson(hist[3][3]) = ToJson(hist[6][3])
                                     /\ ToJson(hist[2][3][2]) = ToJson(hist[3][3][2])
\* S04: at level 4 and more nothing after a failed module command is done; below, the result is nonzero and everything was done
Failures == Mode = 3 /\ Done("apply") =>
    LET log == Reply[Len(Reply)]
        failed == \E i \in 1..Len(log) : i <= 2 /\ (plans[i].code # 0 \/ plans[i].bad = "T" \/ plans[i].ml = "F")
        nomod == \A i \in 1..Len(Opts) : StartsWith(Opts[i][1], "envvar")
    IN /\ Reply[1] = "ok" => (Reply[2] = "0") = ~failed
       /\ obj.c.ecl >= 4 /\ failed => Reply[1] = "err"
       /\ nomod => log = <<>> /\ Reply[1] = "ok"
\* S07: one line for each action, in order, the same every time
Listed == Mode = 5 =>
    /\ Done("actions") /\ hist[1][3][1] = "ok" =>
        LET l == hist[1][3][2] IN
        /\ Len(l) = Len(Reply[2])
        /\ \A i \in 1..Len(l) : StartsWith(l[i], "--> " \o Reply[2][i][1] \o " ") 
              /\ (Reply[2][i][2][1] = "s" /\ Reply[2][i][1] \notin {"module_purge", "module_use"} => Contains(l[i], Reply[2][i][2][2]))
    /\ Len(hist) = 7 => ToJson(hist[1][3]) = ToJson(hist[7][3])
    /\ Len(hist) = 8 => Reply[1] = "err"
\* S07: a value is shown only for a name that was asked for
Shows == Mode = 5 /\ Done("showvars") => \A i \in 1..Len(Reply[2]) :
    LET a == hist[Len(hist)][2] n == Split(Replace(Reply[2][i], "\n", ""), " ")[1] IN
    (a[1] = "T" \/ \E j \in 1..Len(a[2]) : Contains(n, a[2][j])) = Contains(Reply[2][i], " = ")
\* S05: emitted commands count only on success
OnlyOnSuccess == Mode = 4 /\ Len(hist) = 1 =>
    LET p == plans[1] IN
    /\ (p.code # 0 \/ p.bad = "T") => Pairs(env.vars) = Pairs(Before)
    /\ Reply[1] = "ok" /\ Reply[2] = "0" => p.code = 0 /\ p.bad = "F" /\ p.ml # "F"
    /\ ValueOf(Before, "PATH") = "/R/bin2" => Reply[1] = "err" /\ Reply[2] = "FileNotFoundError"
=============================================================================
