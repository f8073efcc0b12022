------------------------------- MODULE MC_Wrap ------------------------------
(***************************************************************************)
(* All short histories of sourcing the wrappers in one shell.  The second  *)
(* environment needs what the first one sets, so that the outcome depends  *)
(* on the history.                                                         *)
(***************************************************************************)
EXTENDS Wrap
CONSTANTS MaxOps
VARIABLES env, hist
vars == <<env, hist>>

File(n, secs) == <<n, "file", <<<<"=:", "", secs>>>>>>
S(k, v) == <<k, "s", v>>
N(k) == <<k, "n", "">>
LE == "le/loadenv/load-env.ini"
GC == "gc/src/gen-config.ini"
LE2 == "gc/LoadEnv/loadenv/load-env.ini"
Points(d) == <<S("supported-systems", d \o "s.ini"), S("supported-envs", d \o "e.ini"), S("environment-specs", d \o "p.ini")>>
Disk == <<File(LE, <<<<"load-env", Points("../../")>>>>),
          File(LE2, <<<<"load-env", Points("../../../no/")>>>>),
          File(GC, <<<<"gen-config", <<S("supported-config-flags", "../../f.ini"), S("config-specs", "../../c.ini")>>>>, <<"load-env", Points("../../")>>>>),
          File("s.ini", <<<<"s1", <<N("h1")>>>>, <<"s2", <<N("h2")>>>>>>),
          File("e.ini", <<<<"s1", <<S("e1", "al"), N("e2"), N("e3")>>>>, <<"s2", <<N("e1")>>>>>>),
          File("p.ini", <<<<"s1_e1", <<S("envvar-set A", "1 2"), S("envvar-prepend P1", "/x")>>>>,
                          <<"s1_e2", <<N("envvar-assert-not-empty A"), S("envvar-append A", "${P1}"), S("module-load gcc", "9"), N("envvar-unset B")>>>>,
                          <<"s1_e3", <<N("module-purge"), N("envvar-assert-not-empty NOPE")>>>>,
                          <<"s2_e1", <<S("envvar-set C", "c")>>>>>>),
          File("odd.ini", <<<<"s1_e1", <<S("envvar-set A", "odd"), N("odd")>>>>>>),
          File("f.ini", <<<<"configure-flags", <<S("F1", "SELECT_ONE\na\nab")>>>>>>),
          File("c.ini", <<<<"s1_e1_a", <<>>>>, <<"s1_e2_a", <<>>>>>>)>>
Base == <<<<"B", "old">>, <<"HOME", "/R/home">>, <<"P1", "/p">>, <<"PATH", "/R/bin1:/R/sysbin:/usr/bin:/bin">>, <<"USER", "/U">>>>

ShL(b, force, list, ci, again, how) ==
    [make |-> <<"lm", LE, b, force, "", "", IF how = "odd" THEN "odd.ini" ELSE "", list>>, source |-> <<"load", ci, "F", again, IF how = "odd" THEN "" ELSE how, LE2>>]
ShC(b, frag, ci, src, again) ==
    [make |-> <<"gm", GC, b, "F", <<"", "", "", "", "">>, "out/f", "T", <<"F", "F", "F", frag>>, "sv/a">>, source |-> <<"config", ci, src, again, "", LE2>>]
Commands == {ShL("al", "F", "F", "T", "F", ""), ShL("e1", "F", "F", "F", "T", ""), ShL("e2_x", "F", "F", "T", "F", ""), ShL("e2", "F", "F", "F", "F", ""),
             ShL("zz", "F", "F", "T", "F", ""), ShL("e3", "F", "F", "T", "F", ""), ShL("s2_e1", "T", "F", "T", "F", ""), ShL("s1", "F", "T", "T", "F", ""),
             ShL("e1", "F", "F", "T", "F", "none"), ShL("e1", "F", "F", "T", "F", "bad"), ShL("e1", "F", "F", "T", "F", "odd"),
             ShC("e1", "F", "T", "T", "F"), ShC("s1_e1_a", "T", "T", "F", "F"), ShC("e2", "F", "T", "T", "F"), ShC("e1_a", "F", "F", "T", "T"),
             ShC("e1", "F", "T", "F", "F"), ShC("e1", "T", "T", "T", "F"), ShC("nope", "F", "T", "T", "F")}

Init == /\ hist = <<>>
        /\ \E b \in {<<>>, <<<<"LOAD_ENV_INTERACTIVE_MODE", "True">>>>, <<<<"LOAD_ENV_INTERACTIVE_MODE", "">>>>} :
            env = [disk |-> Disk, vars |-> Base \o b, exe |-> <<"/R/bin1/modulecmd">>, plan |-> <<>>, host |-> "h1", root |-> "/R", outs |-> <<>>]
Next == /\ Len(hist) < MaxOps
        /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].r[1] = "ok"
        /\ \E c \in Commands :
             LET o == Make(env, c.make).o
                 x == ShDo(env, o, "source", c.source)
                 h == Append(hist, [make |-> c.make, source |-> c.source, r |-> x.r, outs |-> x.env.outs])
             IN /\ hist' = h /\ env' = x.env
                \* alone in the busy shells
                /\ Len(env.vars) = 5 \/ hist = <<>> \/ ~HasKey(env.vars, "LOAD_ENV_INTERACTIVE_MODE")
                /\ (Len(h) < MaxOps /\ x.r[1] = "ok" /\ ~HasKey(env.vars, "LOAD_ENV_INTERACTIVE_MODE")) \/ PrintT("CASE " \o ToJson([vars |-> IF hist = <<>> THEN env.vars ELSE Base, disk |-> Disk, steps |-> h]))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Last1 == hist[Len(hist)]
Alive == hist # <<>> /\ Last1.r[1] = "ok"
Before == hist[Len(hist) - 1].r[3]
Now == Last1.r[3]
AskedList == Last1.source[1] = "load" /\ ToJson(Last1.make[8]) = ToJson("T")
AskedFrag == Last1.source[1] = "config" /\ Last1.make[8][4] = "T"
Cmakes == SelectSeq(Last1.r[4], LAMBDA x : x[1][1] = "cmake")
\* nothing happens to the caller's variables when sourcing fails, or when they go to a subshell
Untouched == Alive /\ Len(hist) > 1 /\ (Last1.r[2] # "0" \/ Last1.source[2] = "F") => Pairs(Now) = Pairs(Before)
\* success in the caller's shell means that the environment is the loaded one
LoadedOk == Alive /\ Last1.r[2] = "0" /\ Last1.source[2] = "T" /\ ~AskedList =>
    /\ HasKey(Now, "LOADED_ENV_NAME")
    /\ ValueOf(Now, "LOADED_ENV_NAME") \in {"s1_e1", "s1_e2", "s2_e1"}
    /\ ValueOf(Now, "LOADED_ENV_NAME") = "s1_e1" => ValueOf(Now, "A") = "1 2"
\* cmake runs exactly once, last, for a configuration with source directory and without fragment
CmakeOnce == Alive =>
    IF Last1.source[1] = "config" /\ Last1.r[2] = "0" /\ ~AskedFrag
    THEN Len(Cmakes) = 1 /\ Last1.r[4][Len(Last1.r[4])] = Cmakes[1] /\ Cmakes[1][1][5] = "/R/srcdir"
         /\ HasKey(Cmakes[1][2], "LOADED_ENV_NAME")
    ELSE Cmakes = <<>>
\* a second environment is refused inside a subshell
OnlyOne == Alive /\ Last1.r[5] # <<>> /\ Last1.source[4] = "T" => Last1.r[5][2] = "1" /\ Last1.r[5][3] = "same"
=============================================================================
