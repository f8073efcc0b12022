------------------------------ MODULE MC_Core -------------------------------
(***************************************************************************)
(* Bounded models of whole instances, each enumerated completely:          *)
(*   Mode 1  C12  handlers of every visibility and return value, edge      *)
(*                handlers included, at every level                        *)
(*   Mode 2  C05  every history of two instances with handlers that log,   *)
(*                scribble over their parameters, or fail                  *)
(*   Mode 3  C08  every list of files over a disk of fine, faulty and      *)
(*                missing files                                            *)
(*   Mode 4  C09  every small configuration, unrolled in every way         *)
(*   Mode 5  C10  every small set of sections, reported at every level     *)
(* A finished history is printed with its replies, to be replayed.         *)
(***************************************************************************)
EXTENDS CPE, Json

CONSTANTS Mode, Depth, Big

VARIABLES disk,   \* the files
          objs,   \* instance states
          hist,   \* the steps so far, with replies
          plan    \* Mode 2: unused; otherwise the calls still to be made
vars == <<disk, objs, hist, plan>>

File(n, secs) == <<n, "file", <<<<"=:", "", secs>>>>>>
Opt(k, v) == <<k, "s", v>>
No(k) == <<k, "n", "">>
NewStep(i, o) == <<i, "new", <<o.paths, o.dflt, o.ecl, o.H>>, <<"ok", "-">>, <<>>>>

\* ------------------------------------------------------------------ Mode 1
Disk1 == <<File("f", <<<<"A", <<Opt("k", "1"), Opt("op p", "x"), No("use B"), Opt("z", "9")>>>>,
                       <<"B", <<Opt("op", "y"), Opt("j", "2")>>>>>>)>>
Rvs == {"0", "1", "10", "11", "True", "False", "x", "x1", "x2", "x3"}
EdgeRvs == IF Big THEN {"0", "1", "11", "True", "x1"} ELSE {"0", "1", "11"}
Hs1 == {<<<<"op", v, d, a, r>>>> \o e \o f :
          v \in {"pub", "priv", "both"}, d \in {"d", "-"}, a \in {"log", "raise"}, r \in Rvs,
          e \in {<<>>} \cup {<<<<"initialize", "pub", "d", "log", x>>>> : x \in EdgeRvs},
          f \in {<<>>} \cup {<<<<"finalize", "pub", "d", "log", x>>>> : x \in EdgeRvs}}
\* an undecorated handler's result is not looked at, a raising one gives none
Useful(h) == (h[1][3] = "d" /\ h[1][4] = "log") \/ h[1][5] = "0"
Plan1 == <<<<1, "parse", <<"A", "T", "T">>>>, <<1, "last", <<>>>>, <<1, "getitem", <<"A">>>>, <<1, "parse", <<"B", "F", "F">>>>,
           <<1, "assert_sec", <<"B", "T">>>>, <<1, "known", <<>>>>, <<1, "get", <<"A">>>>>>

\* ------------------------------------------------------------------ Mode 2
Disk2 == <<File("f", <<<<"DEFAULT", <<Opt("d", "0"), Opt("log a", "D")>>>>,
                       <<"A", <<Opt("log a", "1"), No("use B"), Opt("vandal q", "2"), Opt("log b", "3"), Opt("k", "v")>>>>,
                       <<"B", <<Opt("vandal", "4"), Opt("log c", "5")>>>>,
                       <<"C", <<Opt("log a", "6"), No("use B"), Opt("boom", "7")>>>>>>)>>
H2 == <<<<"log", "pub", "d", "log", "0">>, <<"vandal", "priv", "d", "vandal", "0">>, <<"boom", "pub", "d", "raise", "0">>>>
Calls2(i) == {<<i, "parse", <<s, f, f>>>> : s \in {"A", "C"}, f \in {"T", "F"}} \cup
             {<<i, "scribble", <<"A", "T", "T">>>>, <<i, "getitem", <<"A">>>>, <<i, "getitem", <<"B">>>>, <<i, "unroll", <<"A", "T", "F">>>>} \cup
             (IF Big THEN {<<i, "mut", <<"A", "k", "s", "edited">>>>, <<i, "getitem", <<"C">>>>, <<i, "last", <<>>>>} ELSE {})
\* looked at after every history (the last result after a scribble is the caller's own doing)
Tail2 == <<<<1, "parse", <<"A", "T", "T">>>>, <<1, "last", <<>>>>, <<2, "parse", <<"A", "T", "T">>>>, <<2, "last", <<>>>>, <<1, "last", <<>>>>,
           <<1, "getitem", <<"A">>>>, <<2, "getitem", <<"A">>>>>>

\* ------------------------------------------------------------------ Mode 3
\* kinds of files; the texts behind them are those of the replay driver
FileKinds == <<
    <<"one", <<<<"=:", "", <<<<"A", <<Opt("k", "1"), Opt("m", "1")>>>>>>>>>>>>,
    <<"two", <<<<"=:", "", <<<<"B", <<Opt("j", "2")>>>>, <<"A", <<Opt("k", "2"), No("use B")>>>>>>>>>>>>,
    <<"three", <<<<"=:", "", <<<<"A", <<No("m"), Opt("n", "3")>>>>>>>>>>>>,
    <<"empty", <<<<"=:", "", <<>>>>>>>>,
    <<"bare", <<<<"=:", "", <<<<"A", <<>>>>, <<"C", <<>>>>>>>>>>>>,
    <<"dupopt", <<<<"=:", "DuplicateOptionError", <<>>>>>>>>,
    <<"dupsec", <<<<"=:", "DuplicateSectionError", <<>>>>>>>>,
    <<"nohead", <<<<"=:", "MissingSectionHeaderError", <<>>>>>>>>>>
Fine == {"one", "two", "three", "empty", "bare"}
Disk3 == [i \in 1..Len(FileKinds) |-> <<FileKinds[i][1], "file", FileKinds[i][2]>>] \o <<<<"gone", "none", <<>>>>, <<"dir", "dir", <<>>>>>>
Names3 == {Disk3[i][1] : i \in 1..Len(Disk3)}
Lists3 == LET S(n) == [1..n -> Names3] IN UNION {S(n) : n \in 1..Depth}
Second3 == IF Big THEN {<<"one">>, <<"two", "one">>} ELSE {<<"two", "one">>}
Plans3 == {<<<<1, "raw", <<>>>>, <<1, "getitem", <<"A">>>>, <<1, "sections", <<"no">>>>, <<1, "raw", <<>>>>, <<1, "len", <<>>>>,
            <<1, "set_paths", p>>, <<1, "raw", <<>>>>, <<1, "getitem", <<"A">>>>>> : p \in Second3} \cup
          {<<<<1, "getitem", <<"A">>>>, <<1, "has_section", <<"A">>>>, <<1, "items_all", <<>>>>, <<1, "unroll", <<"", "T", "T">>>>>>}

\* ------------------------------------------------------------------ Mode 4
Opts4 == IF Big THEN {Opt("k", "v"), Opt("k", "50%%"), Opt("k", "a\nb"), Opt("k w", "%(k)s"), Opt("k", ""), No("n"), No("use B"), Opt("op x", "1"),
                      Opt("q", "\"quoted\""), Opt("boom", "1")}
         ELSE {Opt("k", "v"), Opt("k", "50%%"), Opt("k", "a\nb"), Opt("k w", "%(k)s"), No("n"), No("use B"), Opt("op x", "1"), Opt("boom", "1")}
Lists4 == {<<>>} \cup {<<x>> : x \in Opts4} \cup {<<x, y>> : x, y \in Opts4}
Good4(l) == Len(l) < 2 \/ l[1][1] # l[2][1]
Disks4 == {<<File("f", d \o <<<<"A", l>>, <<"B", m>>>>)>> :
             d \in {<<>>, <<<<"DEFAULT", <<Opt("k", "d")>>>>>>}, l \in {x \in Lists4 : Good4(x)},
             m \in {<<>>, <<Opt("k", "b"), Opt("z", "%%")>>} \cup (IF Big THEN {<<No("use A")>>} ELSE {})}
H4 == <<<<"op", "pub", "d", "log", "0">>, <<"boom", "pub", "d", "raise", "0">>>>
Plan4 == <<<<1, "unroll", <<"", "T", "T">>>>, <<1, "ecl", <<>>>>, <<1, "unroll", <<"A", "F", "F">>>>, <<1, "write", <<"", "F", "F">>>>, <<1, "ecl", <<>>>>,
           <<1, "getitem", <<"A">>>>, <<1, "write", <<"A", "T", "T">>>>, <<1, "unroll", <<"", "T", "F">>>>>>

\* ------------------------------------------------------------------ Mode 5
Opts5 == {<<>>, <<Opt("op", "1")>>, <<Opt("k", "1")>>, <<No("use B")>>, <<No("use A"), Opt("op", "2")>>, <<Opt("op", "1"), No("k")>>}
         \cup (IF Big THEN {<<No("use B"), No("use C")>>, <<No("use C"), Opt("k", "")>>, <<No("use MISSING")>>} ELSE {})
Disks5 == {<<File("f", d \o <<<<"A", a>>, <<"B", b>>, <<"C", c>>>>)>> :
             d \in {<<>>, <<<<"DEFAULT", <<>>>>>>, <<<<"DEFAULT", <<Opt("op", "0")>>>>>>, <<<<"DEFAULT", <<Opt("k", "0")>>>>>>},
             a \in Opts5, b \in Opts5, c \in Opts5}
H5 == <<<<"op", "pub", "d", "log", "0">>>>
Plan5 == <<<<1, "assert_sec", <<"A", "T">>>>, <<1, "assert_sec", <<"A", "F">>>>, <<1, "assert_file", <<>>>>, <<1, "assert_sec", <<"B", "T">>>>,
           <<1, "getitem", <<"A">>>>>>

\* ---------------------------------------------------------------------------
Start(d, o, p) == disk = d /\ objs = <<o>> /\ plan = p /\ hist = <<NewStep(1, o)>>
Init ==
    CASE Mode = 1 -> \E h \in {x \in Hs1 : Useful(x)}, e \in 0..5 : Start(Disk1, NewObj(<<"f">>, "DEFAULT", e, h), Plan1)
      [] Mode = 2 -> /\ disk = Disk2 /\ plan = <<>>
                     /\ objs = <<NewObj(<<"f">>, "DEFAULT", 4, H2), NewObj(<<"f">>, "DEFAULT", 4, H2)>>
                     /\ hist = <<NewStep(1, objs[1]), NewStep(2, objs[2])>>
      [] Mode = 3 -> \E p \in Lists3, x \in Plans3 : Start(Disk3, NewObj(p, "DEFAULT", 4, <<>>), x)
      [] Mode = 4 -> \E d \in Disks4, e \in IF Depth > 0 THEN {0, 3, 5} ELSE {4} : Start(d, NewObj(<<"f">>, "DEFAULT", e, H4), Plan4)
      [] Mode = 5 -> \E d \in Disks5, e \in IF Big THEN {0, 2, 3, 5} ELSE {2, 3} : Start(d, NewObj(<<"f">>, "DEFAULT", e, H5), Plan5)

Call(s) ==
    LET x == Do(disk, objs[s[1]], s[2], s[3])
    IN /\ objs' = [objs EXCEPT ![s[1]] = x.o]
       /\ hist' = Append(hist, <<s[1], s[2], s[3], x.r, x.ev>>)
       /\ disk' = disk

Free == /\ Mode = 2 /\ plan = <<>> /\ Len(hist) < Depth + 2
        /\ \E i \in {1, 2} : \E s \in Calls2(i) :
             /\ Call(s)
             /\ plan' = IF Len(hist') = Depth + 2 THEN Tail2 ELSE <<>>
Planned == /\ plan # <<>> /\ Call(Head(plan)) /\ plan' = Tail(plan)
           /\ IF plan' = <<>> THEN PrintT("CASE " \o ToJson([disk |-> IF Mode = 3 THEN <<>> ELSE disk, steps |-> hist'])) ELSE TRUE
Next == Free \/ Planned
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
LastStep == hist[Len(hist)]
Failed == LastStep[4][1] = "err"
O == objs[1]
\* C12: what a parse of A reports follows from the values its handlers return
OkRv(e, r) == r \in {"0", "False"} \/ (r \in {"1", "10", "True"} /\ e < 5)
Codes ==
    (Mode = 1 /\ LastStep[2] = "parse" /\ LastStep[3][1] = "A") =>
      LET h == O.H[1]
          edges == {O.H[i][5] : i \in {j \in 1..Len(O.H) : O.H[j][1] \in {"initialize", "finalize"}}}
          fine == /\ \A r \in edges : OkRv(O.ecl, r)
                  /\ ~(h[2] = "both" /\ O.ecl >= 3)
                  /\ h[4] # "raise" /\ (h[3] = "d" => OkRv(O.ecl, h[5]))
      IN fine <=> ~Failed
\* C05: a parse of A always gives the log of A alone
Isolated ==
    (Mode = 2 /\ LastStep[2] = "parse" /\ LastStep[3] = <<"A", "T", "T">>) =>
      LastStep[4] = <<"ok", Parse([cfg |-> Cfg(objs[LastStep[1]]), dflt |-> "DEFAULT", H |-> H2, ecl |-> 4, root |-> "A", init |-> TRUE, fin |-> TRUE]).log>>
\* C08: reading succeeds exactly if every file can be read
ReadsAll ==
    (Mode = 3 /\ LastStep[2] = "raw") => (Failed <=> \E i \in 1..Len(O.paths) : O.paths[i] \notin Fine)
\* C09: unrolling never changes the level
LevelKept == (Mode = 4 /\ LastStep[2] = "ecl") => LastStep[4][2] = ToString(O.ecl)
\* C10: no report means nothing is left over
Reported ==
    (Mode = 5 /\ LastStep[2] = "assert_sec" /\ ~Failed) =>
       ((LastStep[4][2] = "0") <=> (DataOf(O, LastStep[3][1]) = <<>>))
=============================================================================
