------------------------------- MODULE MC_Kw --------------------------------
(***************************************************************************)
(* All short histories of the keyword tools over small configurations.     *)
(* Each behaviour is printed with the replies it prescribes and replayed   *)
(* in the real code; the invariants state the listed properties without    *)
(* reference to how Keywords computes them.                                *)
(***************************************************************************)
EXTENDS Keywords
CONSTANTS Mode, MaxOps, Deep
VARIABLES env, obj, hist
vars == <<env, obj, hist>>

File(n, secs) == <<n, "file", <<<<"=:", "", secs>>>>>>
S(k, v) == <<k, "s", v>>
N(k) == <<k, "n", "">>
Env(disk, host) == [disk |-> disk, vars |-> <<>>, exe |-> <<>>, plan |-> <<>>, host |-> host, root |-> "/R", outs |-> <<>>]
Joins(W, sep, n) == UNION {{Join(s, sep) : s \in [1..k -> W]} : k \in 1..n}
Names2(W) == {""} \cup Joins(W, "_", 2)

\* ----------------------------------------------------------- K01: values
Lines1 == {"a", "b", "a#b", "a # c", "b c", "b_c", "SELECT_ONE", "k1", "k2", "#a"}
Texts == Lines1 \cup {x \o "\n" \o y : x \in Lines1 \cup {""}, y \in Lines1 \ {"#a"}}
         \cup {x \o "\n\n" \o y : x \in {"a", "a#b"}, y \in {"a", "b"}}
         \cup {x \o "\n" \o y \o "\n" \o z : x \in {"", "a", "a#b"}, y \in {"b", "a#"}, z \in {"a", "b", "k2"}}
Init1 == \E t \in Texts, u \in {S("k2", "a"), N("k2"), S("k2", "b #x")} :
            /\ env = Env(<<File("f", <<<<"s", <<S("k1", t), u>>>>>>)>>, "h")
            /\ hist = <<<<"make", <<"kw", "f">>, Ok("-")>>>>
            /\ obj = [k |-> "kw", file |-> "f"]
Ops1 == {<<"values", <<"s", "k1">>>>, <<"values", <<"s", "k2">>>>, <<"key", <<"s", "a">>>>, <<"key", <<"s", "b">>>>, <<"key", <<"s", "x">>>>}

\* ----------------------------------------------------------- K02: system
Pats == {"h", "h1", "^h$", "x|1"}
Init2 == \E P1 \in (IF Deep THEN SUBSET Pats ELSE {{}} \cup {{p} : p \in Pats}), P2 \in {{}, {"h"}, {"h1"}, {".*"}}, host \in {"h", "h1", "xh", "z"},
            b \in Names2({"s1", "s2", "S1", "z"}), force \in {"T", "F"}, d \in {TRUE, FALSE} :
            /\ env = Env(<<File("f", (IF d THEN <<<<"DEFAULT", <<N("zz")>>>>>> ELSE <<>>)
                                     \o <<<<"s1", [i \in 1..Cardinality(P1) |-> N(SetSeq(P1)[i])]>>,
                                          <<"s2", [i \in 1..Cardinality(P2) |-> N(SetSeq(P2)[i])]>>>>)>>, host)
            /\ hist = <<<<"make", <<"ds", b, "f", force>>, Ok("-")>>>>
            /\ obj = [k |-> "ds", build |-> b, file |-> "f", force |-> B(force)]
Ops2 == {<<"system", <<>>>>}

\* ---------------------------------------------------------- K03: options
Flags3 == <<File("f", <<<<"configure-flags", <<S("F1", "SELECT_ONE\na\nab"), S("F2", "SELECT_MANY\nc\nb\nB")>>>>>>)>>
Builds3 == Names2({"a", "ab", "b", "c", "B", "z", "F1"}) \cup {"b_c_B", "c_b_a_z", "a_ab_b", "a-b_c", "F2_a_b", "b_F1_ab"}
Init3 == \E b \in {"", "a_b", "a_ab", "b_c"} :
            /\ env = Env(Flags3, "h")
            /\ hist = <<<<"make", <<"ck", b, "f">>, Ok("-")>>>>
            /\ obj = [k |-> "ck", build |-> b, file |-> "f"]
Ops3 == {<<"selected", <<>>>>, <<"selstr", <<>>>>} \cup {<<"set_build", <<b>>>> : b \in Builds3}

\* ------------------------------------------------------ K04: environment
Tables == {<<S("g", "al"), N("g-1"), S("g_o", "a.b")>>,
           <<N("g-1"), S("axb", "g\nal_1"), N("o")>>,
           <<S("a.b", "g"), S("o_g", "o\nal")>>,
           <<S("g", "al"), S("o", "al")>>,
           <<S("o", "g-1\nal\nl")>>}
Pieces == {"g", "g-1", "o", "a.b", "axb", "al"}
Builds4 == Pieces \cup {x \o sep \o y : x \in Pieces \cup {""}, y \in Pieces, sep \in {"_", "-"}}
           \cup {x \o "_" \o y \o sep \o z : x \in Pieces, y \in Pieces, z \in {"g", "o", "al"}, sep \in {"_", "-", "__"}}
Init4 == \E t \in Tables, b \in Builds4 :
            LET e == Env(<<File("f", <<<<"S", t>>, <<"T", <<N("g")>>>>>>)>>, "h")
                m == Make(e, <<"ek", b, "S", "f">>)
            IN /\ env = e
               /\ hist = <<<<"make", <<"ek", b, "S", "f">>, m.r>>>>
               /\ obj = m.o
Ops4 == {<<"envname", <<>>>>}

\* ----------------------------------------------------------- K05: loader
Disk5 == <<File("load-env.ini", <<<<"load-env", <<S("supported-systems", "s.ini"), S("supported-envs", "./e.ini"), S("environment-specs", "p.ini")>>>>>>),
           File("s.ini", <<<<"s1", <<N("h1")>>>>, <<"s2", <<N("h")>>>>>>),
           File("s3.ini", <<<<"s1", <<N("h")>>>>, <<"s2", <<>>>>>>),
           File("e.ini", <<<<"s1", <<S("g", "al"), N("g_o")>>>>, <<"s2", <<S("g-1", "al\nz"), N("g")>>>>>>),
           File("p.ini", <<<<"s1_g", <<S("envvar-set A", "1")>>>>>>)>>
Builds5 == {"g", "al", "g_o", "s1_g_x", "s2_al", "x_s2", "s1_s2", "z_g-1", ""}
Init5 == \E b \in {"g", "s2_al_x", "s1_s2"}, force \in {"T", "F"}, sf \in {"", "s3.ini"}, host \in {"h1", "h2"} :
            LET e == Env(Disk5, host)
                a == <<"le", "load-env.ini", b, force, sf, "", "", "F">>
                m == Make(e, a)
            IN /\ env = e
               /\ hist = <<<<"make", a, m.r>>>>
               /\ obj = m.o
Ops5 == {<<"system", <<>>>>, <<"envname", <<>>>>, <<"stripped", <<>>>>} \cup {<<"set_build", <<b>>>> : b \in Builds5}

\* -------------------------------------------------------- K06: GenConfig
Specs6 == {<<<<"COMMON", <<>>>>, <<"s1_g_a_b", <<>>>>, <<"s2_g_a_b_c", <<>>>>>>,
           <<<<"s1_g_b_a", <<>>>>>>, <<<<"s1_g_a_b", <<>>>>, <<"s1_nope_a_b", <<>>>>>>, <<<<"s1_g_a_ab", <<>>>>>>, <<>>}
Init6 == \E sp \in Specs6, b \in {"g", "s1_g_c_b", "s2_al", "g_a_ab"}, force \in {"T", "F"}, host \in {"h1", "h2"} :
            LET e == Env(<<File("gen-config.ini", <<<<"gen-config", <<S("supported-config-flags", "f.ini"), S("config-specs", "c.ini")>>>>,
                                                     <<"load-env", <<S("supported-systems", "s.ini"), S("supported-envs", "e.ini"), S("environment-specs", "p.ini")>>>>>>),
                           File("f.ini", <<<<"configure-flags", <<S("F1", "SELECT_ONE\na\nab"), S("F2", "SELECT_MANY\nb\nc")>>>>>>),
                           File("c.ini", sp)>> \o SubSeq(Disk5, 2, 5), host)
                a == <<"gc", "gen-config.ini", b, force, <<"", "", "", "", "">>, "out/f", "F">>
            IN /\ env = e
               /\ hist = <<<<"make", a, Ok("-")>>>>
               /\ obj = Make(e, a).o
Ops6 == {<<"complete", <<>>>>, <<"validate", <<>>>>, <<"flags", <<>>>>, <<"listconfigs", <<>>>>}

\* ----------------------------------------------- K07: the command line tools
Init7 == \E sp \in Specs6, b \in {"g", "s2_al"}, force \in {"T", "F"}, m \in [1..4 -> {"T", "F"}] :
            LET e == Env(<<File("gen-config.ini", <<<<"gen-config", <<S("supported-config-flags", "f.ini"), S("config-specs", "c.ini")>>>>,
                                                     <<"load-env", <<S("supported-systems", "s.ini"), S("supported-envs", "e.ini"), S("environment-specs", "p.ini")>>>>>>),
                           File("f.ini", <<<<"configure-flags", <<S("F1", "SELECT_ONE\na\nab"), S("F2", "SELECT_MANY\nb\nc")>>>>>>),
                           File("c.ini", sp)>> \o SubSeq(Disk5, 2, 5), "h1")
                a == <<"gm", "gen-config.ini", b, force, <<"", "", "", "", "">>, "out/f", "F", m, "sv/a">>
            IN /\ env = e
               /\ hist = <<<<"make", a, Ok("-")>>>>
               /\ obj = Make(e, a).o
Ops7 == {<<"gcmain", <<"y">>>>, <<"gcmain", <<"n">>>>, <<"outs", <<>>>>}

\* ------------------------------------ K06: fragments, written on consent only
Olds == {<<>>, <<<<"out/f", "">>>>, <<<<"out/f", "old">>>>}
Init8 == \E sp \in {<<<<"s1_g_a_b", <<>>>>, <<"s2_g_a_b_c", <<>>>>>>, <<<<"s1_g_b_a", <<>>>>>>}, b \in {"g", "s1_g_c_b", "g_a_ab"}, yes \in {"T", "F"}, old \in Olds :
            LET e == [Env(<<File("gen-config.ini", <<<<"gen-config", <<S("supported-config-flags", "f.ini"), S("config-specs", "c.ini")>>>>,
                                                     <<"load-env", <<S("supported-systems", "s.ini"), S("supported-envs", "e.ini"), S("environment-specs", "p.ini")>>>>>>),
                           File("f.ini", <<<<"configure-flags", <<S("F1", "SELECT_ONE\na\nab"), S("F2", "SELECT_MANY\nb\nc")>>>>>>),
                           File("c.ini", sp)>> \o SubSeq(Disk5, 2, 5), "h1") EXCEPT !.outs = old]
                a == <<"gc", "gen-config.ini", b, "F", <<"", "", "", "", "">>, "out/f", yes>>
            IN /\ env = e
               /\ hist = <<<<"make", a, Ok("-")>>, <<"outs", <<>>, Ok(old)>>>>
               /\ obj = Make(e, a).o
Ops8 == {<<"fragment", x>> : x \in {<<"y">>, <<"n">>, <<"nope">>, <<"Yes">>, <<"q", "N">>, <<"q", "maybe", "yikes">>, <<"1", "no">>}}
        \cup {<<"outs", <<>>>>, <<"validate", <<>>>>}

Init == CASE Mode = 8 -> Init8 [] Mode = 7 -> Init7 [] Mode = 1 -> Init1 [] Mode = 2 -> Init2 [] Mode = 3 -> Init3 [] Mode = 4 -> Init4 [] Mode = 5 -> Init5 [] Mode = 6 -> Init6
Ops == CASE Mode = 8 -> Ops8 [] Mode = 7 -> Ops7 [] Mode = 1 -> Ops1 [] Mode = 2 -> Ops2 [] Mode = 3 -> Ops3 [] Mode = 4 -> Ops4 [] Mode = 5 -> Ops5 [] Mode = 6 -> Ops6

Next == /\ Len(hist) <= MaxOps /\ obj.k # "dead"
        /\ \E c \in Ops :
             LET x == KWDo(env, obj, c[1], c[2])
                 h == Append(hist, <<c[1], c[2], x.r>>)
             IN /\ ~(c[1] = "set_build" /\ (Len(h) = MaxOps + 1 \/ hist[Len(hist)][1] = "set_build"))
                /\ obj' = x.o /\ hist' = h /\ env' = x.env
                /\ (Len(h) <= MaxOps \/ PrintT("CASE " \o ToJson([disk |-> env.disk, host |-> env.host, steps |-> h])))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
LastStep == hist[Len(hist)]
Asked(op) == LastStep[1] = op
Good6 == LastStep[3][1] = "ok"

\* K01: what is returned is free of comments, blanks, repetitions and keys
ValuesSound == Asked("values") /\ Good6 =>
    LET v == LastStep[3][2] IN
    /\ \A i, j \in 1..Len(v) : v[i] = v[j] => i = j
    /\ \A i \in 1..Len(v) : /\ v[i] # "" /\ v[i] = Strip(v[i]) /\ ~HasChar(v[i], "#") /\ ~HasChar(v[i], " ")
                            /\ v[i] \notin {"k1", "k2"}
KeySound == Asked("key") /\ Good6 =>
    LET k == LastStep[3][2] IN InSeq(LastStep[2][2], Values(env, "f", "s", k)[2])

\* K02: the answer is a system that the build name or the host asks for; the build name wins
SystemSound == Mode = 2 /\ Asked("system") =>
    LET w == WordSet(ToLower(obj.build)) \cap {"s1", "s2"} IN
    IF Good6 THEN /\ Cardinality(w) <= 1
                  /\ (w # {} => w = {LastStep[3][2]})
                  /\ (~obj.force \/ w = {} => FromHost(env, "f", env.host)[2][2] = LastStep[3][2])
    ELSE Cardinality(w) = 2 \/ (w = {} /\ FromHost(env, "f", env.host)[2][1] = "n") \/ ~obj.force
\* K02/K03/K04/K05: asking again gives the same answer
Stable == Mode \notin {7, 8} => \A i, j \in 2..Len(hist) :
    (i < j /\ hist[i][1] = hist[j][1] /\ hist[i][2] = hist[j][2] /\ hist[i][1] # "set_build" /\ \A k \in i..j : hist[k][1] # "set_build")
       => ToJson(hist[i][3]) = ToJson(hist[j][3])

\* K03: every flag once, in order; options of that flag; named, or the default
SelectionSound == Asked("selected") /\ Good6 =>
    LET s == LastStep[3][2]
        o1 == {"a", "ab"}
        o2 == {"b", "c", "B"}
        w == WordSet(obj.build)
    IN /\ Len(s) = 2 /\ s[1][1] = "F1" /\ s[2][1] = "F2"
       /\ Len(s[1]) = 3 /\ s[1][3] \in o1 /\ (IF w \cap o1 = {} THEN s[1][3] = "a" ELSE w \cap o1 = {s[1][3]})
       /\ {s[2][i] : i \in 3..Len(s[2])} = (IF w \cap o2 = {} THEN {"c"} ELSE w \cap o2)
SelectionErrs == Asked("selected") /\ ~Good6 => {"a", "ab"} \subseteq WordSet(obj.build)
\* K03/K05: after a change of the build name everything is as for a new object
Fresh == (Asked("selected") \/ Asked("selstr") \/ Asked("envname") \/ Asked("stripped") \/ Asked("system")) /\ Mode \in {3, 5} =>
    LET a == hist[1][2]
        new == IF Mode = 3 THEN [a EXCEPT ![2] = obj.build] ELSE [a EXCEPT ![3] = obj.build]
    IN ToJson(KWDo(env, Make(env, new).o, LastStep[1], <<>>).r) = ToJson(LastStep[3])

\* K04: a name bounded in the build name, and no longer one is
LongestSound == Mode = 4 /\ Asked("envname") /\ Good6 =>
    LET t == Sec(env, "f", "S")[2]
        names == {t[i][1] : i \in 1..Len(t)}
        als == UNION {{ValueList(t[i][3])[j] : j \in 1..Len(ValueList(t[i][3]))} : i \in 1..Len(t)}
        pad == "_" \o Replace(obj.build, "_", "__") \o "_"      \* every boundary doubled
        In(n) == Contains(pad, "_" \o Replace(n, "_", "__") \o "_")
        got == SubSeq(LastStep[3][2], 3, Len(LastStep[3][2]))
    IN /\ SubSeq(LastStep[3][2], 1, 2) = "S_" /\ got \in names
       /\ IF \E n \in names : In(n) THEN In(got) /\ \A n \in names : In(n) => Len(n) <= Len(got)
          ELSE \E a \in als : In(a) /\ InSeq(a, Values(env, "f", "S", got)[2]) /\ \A c \in als : In(c) => Len(c) <= Len(a)

\* K05: the words dropped are exactly the system, environment and alias words
StrippedSound == Asked("stripped") /\ Good6 =>
    LET drop == LET t == LETable(env, obj)[2] IN {t[1][i] : i \in 1..Len(t[1])} \cup {t[2][i] : i \in 1..Len(t[2])} \cup {"s1", "s2"}
    IN SelectSeq(Split(obj.build, "_"), LAMBDA x : x \notin drop)
       = (IF LastStep[3][2] = "" THEN SelectSeq(Split(obj.build, "_"), LAMBDA x : x = "" /\ x \notin drop)
          ELSE Split(LastStep[3][2], "_"))

\* K07: what was written names a configuration that the specifications were checked for, and only on consent
Written == Mode = 7 /\ env.outs # <<>> =>
    /\ GCValidate(env, obj)[1] = "ok" /\ obj.modes = <<"F", "F", "F", "T">>
    /\ env.outs = <<<<"out/f", "c.ini|" \o GCComplete(env, obj)[2] \o "|cmake_fragment\nsecond">>>>
Refused == Asked("gcmain") /\ LastStep[3][1] = "exit" /\ LastStep[3][2] = "fail" /\ obj.modes[1] = "F" /\ obj.modes[4] = "T"
           /\ GCValidate(env, obj)[1] = "ok" /\ GCComplete(env, obj)[1] = "ok" /\ obj.modes[2] = "F"
           => LastStep[2] = <<"n">> /\ env.outs # <<>>

\* K06: without consent nothing changes; what is there is either what was there or the fragment
Consent == Mode = 8 /\ env.outs # hist[2][3][2] =>
    /\ \/ hist[1][2][7] = "T" \/ hist[2][3][2] = <<>>
       \/ \E i \in 1..Len(hist) : hist[i][1] = "fragment" /\ hist[i][2][Len(hist[i][2])] \in {"y", "Yes", "yikes"}
    /\ GCValidate(env, obj)[1] = "ok"
    /\ env.outs = <<<<"out/f", "c.ini|" \o GCComplete(env, obj)[2] \o "|cmake_fragment\nsecond">>>>
\* K06: the complete configuration is a fixed point: asked for itself, it is itself
Canonical == Asked("complete") /\ Good6 =>
    GCComplete(env, [obj EXCEPT !.build = LastStep[3][2], !.force = TRUE]) = LastStep[3]
=============================================================================
