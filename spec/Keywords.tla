------------------------------ MODULE Keywords ------------------------------
(***************************************************************************)
(* The tools built on the parser: keyword values, the choice of a system,  *)
(* of configuration options and of an environment, and the two programs    *)
(* LoadEnv and GenConfig that put these together.                          *)
(*                                                                         *)
(* Every result is a function of the files, the host name and the build    *)
(* name that is in force: an instance is only its parameters               *)
(*   [k |-> "kw", file]                     KeywordParser                  *)
(*   [k |-> "ds", build, file, force]       DetermineSystem                *)
(*   [k |-> "ck", build, file]              ConfigKeywordParser            *)
(*   [k |-> "ek", build, sys, file]         EnvKeywordParser               *)
(*   [k |-> "le", build, force, sf, ef, pf] LoadEnv                        *)
(*   [k |-> "gc", ini, build, force, over, frag, yes, wrote]  GenConfig    *)
(*   [k |-> "dead"]                         a construction that failed     *)
(* so whatever was asked before, successfully or not, cannot matter.       *)
(*                                                                         *)
(* env adds to that of SetEnv: host, root (the directory the names of the  *)
(* disk are relative to) and outs, the text files the programs write.      *)
(* Replies: <<"ok", x>>, <<"err", class>>, and <<"exit", how, names>> with *)
(* how "zero" or "fail" and names that the message has to mention;         *)
(* <<"report", "fail", <<list, about>>>> is an exit whose message lists    *)
(* exactly the first names and mentions the second ones,                   *)
(* <<"errs", class, <<list, about>>>> an error of the same kind.           *)
(***************************************************************************)
EXTENDS SetEnv, Regex

Exit(names) == <<"exit", "fail", names>>
Quoted(x) == "'" \o x \o "'"
Offends(names, about) == <<"report", "fail", <<names, about>>>>
Errs(names, about) == <<"errs", "ValueError", <<names, about>>>>
IsOk(r) == r[1] = "ok"

\* the (resolved) section of a file; its section names
Sec(env, f, s) == TLCEval(Section(env.disk, NewObj(<<f>>, "DEFAULT", 4, <<>>), s).r)
SecList(env, f) == Names(env.disk, NewObj(<<f>>, "DEFAULT", 4, <<>>)).r

RECURSIVE FirstBad(_, _, _)
\* the first reply of F(1..n) that is not ok, or <<>>
FirstBad(F(_), i, n) == IF i > n THEN <<>> ELSE LET r == F(i) IN IF IsOk(r) THEN FirstBad(F, i + 1, n) ELSE r
RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)
Flat(ss) == FlatFrom(ss, 1)
InSeq(x, seq) == \E i \in 1..Len(seq) : seq[i] = x
Dups(seq) == {seq[i] : i \in {j \in 1..Len(seq) : \E k \in 1..(j - 1) : seq[k] = seq[j]}}

\* ------------------------------------------------------- keyword values
CutAt(s, c) == LET p == FindFrom(s, c, 1) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
ValueList(t) == LET ls == Split(t, "\n")
                IN SelectSeq(TLCEval([i \in 1..Len(ls) |-> Strip(CutAt(ls[i], "#"))]), LAMBDA v : v # "")
Selectors == {"SELECT_ONE", "SELECT_MANY"}
Improper(v) == v \notin Selectors /\ \E i \in 1..Len(v) : Ch(v, i) \in Blank \cup {"_"}

\* the values of an entry of a section's map, validated
Checked(s, m, i) ==
    LET vs == ValueList(m[i][3])
        dup == Dups(vs)
        imp == {v \in {vs[j] : j \in 1..Len(vs)} : Improper(v)}
        key == {v \in {vs[j] : j \in 1..Len(vs)} : HasKey(m, v)}
    IN IF dup # {} THEN Offends(SetSeq(dup), <<Quoted(s), Quoted(m[i][1])>>)
       ELSE IF imp # {} THEN Offends(SetSeq(imp), <<>>)
       ELSE IF key # {} THEN Offends(SetSeq(key), <<Quoted(s)>>)
       ELSE Ok(vs)

Values(env, f, s, k) ==
    LET q == Sec(env, f, s) IN
    IF ~IsOk(q) THEN q
    ELSE IF ~HasKey(q[2], k) THEN Err("KeyError")
    ELSE Checked(s, q[2], PosOf(q[2], k))

KeyFor(env, f, s, v) ==
    LET q == Sec(env, f, s) IN
    IF ~IsOk(q) THEN q
    ELSE LET m == q[2]
             bad == FirstBad(LAMBDA i : Checked(s, m, i), 1, Len(m))
             hits == {i \in 1..Len(m) : InSeq(v, ValueList(m[i][3]))}
         IN IF bad # <<>> THEN bad
            ELSE IF hits = {} THEN Exit(<<Quoted(v), Quoted(s)>>)
            ELSE Ok(m[CHOOSE i \in hits : \A j \in hits : j <= i][1])

\* ------------------------------------------------------------ the system
SysNames(env, f) ==
    LET q == SecList(env, f) IN IF IsOk(q) THEN Ok(SelectSeq(q[2], LAMBDA s : s # "DEFAULT")) ELSE q

\* the pattern a key stands for
PatternOf(k) == SubSeq(k, 1, FirstNotIn(k, {c \in CharSet(k) : c \notin Blank \cup {"#"}}, 1) - 1)

RECURSIVE HostFrom(_, _, _, _, _)
HostFrom(env, f, host, names, i) ==
    IF i > Len(names) THEN Ok(<<"n", "">>)
    ELSE LET q == Sec(env, f, names[i]) IN
         IF ~IsOk(q) THEN q
         ELSE LET hit == TLCEval([j \in 1..Len(q[2]) |-> Found(PatternOf(q[2][j][1]), host)]) IN
              IF \E j \in 1..Len(hit) : hit[j] = "bad" THEN Err("*")
              ELSE IF \E j \in 1..Len(hit) : hit[j] = "T" THEN Ok(<<"s", names[i]>>)
              ELSE HostFrom(env, f, host, names, i + 1)
FromHost(env, f, host) == LET n == SysNames(env, f) IN IF IsOk(n) THEN HostFrom(env, f, host, n[2], 1) ELSE n

WordSet(b) == LET w == Split(b, "_") IN {w[i] : i \in 1..Len(w)}
FromBuild(env, f, build) ==
    LET n == SysNames(env, f) IN
    IF ~IsOk(n) THEN n
    ELSE LET hits == SelectSeq(n[2], LAMBDA s : s \in WordSet(ToLower(build))) IN
         IF Len(hits) > 1 THEN Offends(hits, <<>>)
         ELSE IF hits = <<>> THEN Ok(<<"n", "">>) ELSE Ok(<<"s", hits[1]>>)

System(env, f, build, force) ==
    LET h == FromHost(env, f, env.host)
        b == FromBuild(env, f, build)
    IN IF ~IsOk(h) THEN h
       ELSE IF ~IsOk(b) THEN b
       ELSE IF b[2][1] = "n" THEN (IF h[2][1] = "n" THEN Exit(<<Quoted(env.host)>>) ELSE Ok(h[2][2]))
       ELSE IF h[2] # b[2] /\ ~force THEN Exit(<<Quoted(env.host), Quoted(b[2][2])>> \o IF h[2][1] = "n" THEN <<>> ELSE <<Quoted(h[2][2])>>)
       ELSE Ok(b[2][2])

\* ----------------------------------------------- the configuration options
CF == "configure-flags"
\* <<type, options>> of the i-th flag of map m
Flag(m, i) ==
    LET c == Checked(CF, m, i) IN
    IF ~IsOk(c) THEN c
    ELSE IF c[2] = <<>> THEN Err("*")
    ELSE IF c[2][1] \notin Selectors THEN Errs(<<>>, <<Quoted(m[i][1])>>)
    ELSE Ok(<<c[2][1], Tail(c[2])>>)

AllOptions(m) ==
    LET fs == TLCEval([i \in 1..Len(m) |-> Flag(m, i)])
        bad == FirstBad(LAMBDA i : fs[i], 1, Len(m))
    IN IF bad # <<>> THEN bad ELSE Ok(Flat([i \in 1..Len(m) |-> fs[i][2][2]]))

Choice(m, i, build) ==
    LET g == Flag(m, i)
        t == g[2][1]
        os == g[2][2]
        hit == SelectSeq(os, LAMBDA x : x \in WordSet(build))
    IN IF t = "SELECT_ONE" /\ Len(hit) > 1 THEN Errs(hit, <<Quoted(m[i][1])>>)
       ELSE IF Len(hit) > 1 THEN Ok(<<"list">> \o SortStrings(hit))
       ELSE IF hit # <<>> THEN Ok(<<"one", hit[1]>>)
       ELSE IF os = <<>> THEN Err("*")
       ELSE Ok(<<"one", os[1]>>)

Selected(m, build) ==
    LET all == AllOptions(m) IN
    IF ~IsOk(all) THEN all
    ELSE IF Dups(all[2]) # {} THEN Offends(SetSeq(Dups(all[2])), <<>>)
    ELSE LET cs == TLCEval([i \in 1..Len(m) |-> Choice(m, i, build)])
             bad == FirstBad(LAMBDA i : cs[i], 1, Len(m))
         IN IF bad # <<>> THEN bad
            ELSE Ok([i \in 1..Len(m) |-> <<m[i][1]>> \o cs[i][2]])

SelectedStr(m, build) ==
    LET s == Selected(m, build) IN
    IF ~IsOk(s) THEN s
    ELSE Ok(Concat(Flat([i \in 1..Len(s[2]) |-> [j \in 1..(Len(s[2][i]) - 2) |-> "_" \o s[2][i][j + 2]]])))

\* options()[0] of every flag, in order; stops at the first that fails
IsDefault(m, x) ==
    LET One(i) == LET g == Flag(m, i) IN IF ~IsOk(g) THEN g ELSE IF g[2][2] = <<>> THEN Err("*") ELSE g
        bad == FirstBad(One, 1, Len(m))
    IN IF bad # <<>> THEN bad
       ELSE Ok(IF \E i \in 1..Len(m) : Flag(m, i)[2][2][1] = x THEN "T" ELSE "F")

\* what the overview of the flags lists: every flag, then its options
FlagItems(m) ==
    LET bad == FirstBad(LAMBDA i : Flag(m, i), 1, Len(m))
        Opts(os) == [j \in 1..Len(os) |-> IF j = 1 THEN os[j] \o " (default)" ELSE os[j]]
    IN IF bad # <<>> THEN bad
       ELSE Ok(Flat([i \in 1..Len(m) |-> <<m[i][1]>> \o Opts(Flag(m, i)[2][2])]))

\* -------------------------------------------------------- the environment
\* longest first, in the given order among equally long ones
RECURSIVE InsLen(_, _)
InsLen(seq, x) == IF seq = <<>> THEN <<x>>
                  ELSE IF Len(Head(seq)) < Len(x) THEN <<x>> \o seq
                  ELSE <<Head(seq)>> \o InsLen(Tail(seq), x)
RECURSIVE ByLen(_)
ByLen(seq) == IF seq = <<>> THEN <<>> ELSE InsLen(ByLen(Front(seq)), Last(seq))

Bounded(build, n) == \E i \in 1..(Len(build) - Len(n) + 1) :
    /\ AtPos(build, n, i)
    /\ i = 1 \/ Ch(build, i - 1) = "_"
    /\ i + Len(n) = Len(build) + 1 \/ Ch(build, i + Len(n)) = "_"

\* the environments of a system: ok <<names, aliases>>, the map itself third
EnvTable(env, f, sys) ==
    LET q == Sec(env, f, sys) IN
    IF ~IsOk(q) THEN q
    ELSE LET m == q[2]
             bad == FirstBad(LAMBDA i : Checked(sys, m, i), 1, Len(m))
         IN IF bad # <<>> THEN bad
            ELSE LET al == Flat(TLCEval([i \in 1..Len(m) |-> Checked(sys, m, i)[2]]))
                 IN IF Dups(al) # {} THEN Offends(SetSeq(Dups(al)), <<Quoted(sys)>>)
                    ELSE Ok(<<ByLen(Keys(m)), ByLen(al), m>>)

\* what the overview of the environments lists
EnvItems(t) ==
    LET names == SortStrings(t[1])
        One(n) == <<n>> \o SortStrings(ValueList(t[3][PosOf(t[3], n)][3]))
    IN Flat([i \in 1..Len(names) |-> One(names[i])])

Qualified(t, sys, build) ==
    LET ns == SelectSeq(t[1], LAMBDA n : Bounded(build, n))
        as == SelectSeq(t[2], LAMBDA n : Bounded(build, n))
        m == t[3]
    IN IF ns # <<>> THEN Ok(sys \o "_" \o ns[1])
       ELSE IF as = <<>> THEN Offends(EnvItems(t), <<Quoted(sys), Quoted(build)>>)
       ELSE Ok(sys \o "_" \o m[CHOOSE i \in 1..Len(m) : InSeq(as[1], ValueList(m[i][3]))][1])

\* ----------------------------------------------------------- file names
RECURSIVE Norm(_, _, _)
Norm(ws, i, out) == IF i > Len(ws) THEN out
                    ELSE IF ws[i] \in {"", "."} THEN Norm(ws, i + 1, out)
                    ELSE IF ws[i] = ".." THEN Norm(ws, i + 1, IF out = <<>> THEN out ELSE Front(out))
                    ELSE Norm(ws, i + 1, Append(out, ws[i]))
\* the file that value v of configuration file ini (relative to root) names
PathIn(env, ini, v) ==
    IF StartsWith(v, env.root \o "/") THEN Join(Norm(Split(SubSeq(v, Len(env.root) + 2, Len(v)), "/"), 1, <<>>), "/")
    ELSE IF StartsWith(v, "/") THEN "/"
    ELSE Join(Norm(Front(Split(ini, "/")) \o Split(v, "/"), 1, <<>>), "/")
Exists(env, f) == HasKey(env.disk, f) /\ env.disk[PosOf(env.disk, f)][2] # "none"

\* the values of the listed keys of a section as files, or an error
Files(env, ini, s, ks, must) ==
    LET q == Sec(env, ini, s)
        One(i) == IF ~HasKey(q[2], ks[i]) THEN Errs(<<>>, <<ks[i]>>)
                  ELSE LET e == q[2][PosOf(q[2], ks[i])] IN
                       IF e[3] = "" THEN Errs(<<>>, <<ks[i]>>)
                       ELSE LET f == PathIn(env, ini, e[3]) IN
                            IF must /\ ~Exists(env, f) THEN Errs(<<>>, <<ks[i]>>) ELSE Ok(f)
    IN IF ~IsOk(q) THEN (IF q[2] = "KeyError" THEN Err("ValueError") ELSE q)
       ELSE LET bad == FirstBad(One, 1, Len(ks))
            IN IF bad # <<>> THEN bad ELSE Ok([i \in 1..Len(ks) |-> One(i)[2]])
LEKeys == <<"supported-systems", "supported-envs", "environment-specs">>
Over(given, conf) == IF given = "" THEN conf ELSE given

\* ------------------------------------------------------------- LoadEnv
LESystem(env, o) == System(env, o.sf, o.build, o.force)
LETable(env, o) == LET s == LESystem(env, o) IN IF IsOk(s) THEN EnvTable(env, o.ef, s[2]) ELSE s
LEName(env, o) ==
    LET t == LETable(env, o) IN IF IsOk(t) THEN Qualified(t[2], LESystem(env, o)[2], o.build) ELSE t
LEStripped(env, o) ==
    LET t == LETable(env, o) IN
    IF ~IsOk(t) THEN t
    ELSE Ok(Join(SelectSeq(Split(o.build, "_"),
                           LAMBDA w : /\ ~InSeq(w, t[2][1]) /\ ~InSeq(w, t[2][2])
                                      /\ ~InSeq(w, SysNames(env, o.sf)[2])), "_"))
\* the environment specifications, all of whose sections must be handled: <<SetEnv object>>
LESpecs(env, o) ==
    LET q == SEDo(env, SENew(env, <<<<o.pf>>, "DEFAULT", 5>>), "assert_file", <<>>)
    IN IF IsOk(q.r) THEN Ok(<<q.o>>) ELSE q.r
LEApply(env, o) ==
    LET p == LESpecs(env, o)
        n == LEName(env, o)
        fail(r) == [o |-> o, env |-> env, r |-> <<r[1], r[2], env.vars, <<>>>>]
    IN IF ~IsOk(p) THEN fail(p)
       ELSE IF ~IsOk(n) THEN fail(n)
       ELSE LET x == Apply(env, p[2][1], n[2])
            IN [o |-> o, env |-> x.env,
                r |-> IF x.r[1] = "ok" /\ x.r[2] # "0" THEN <<"err", "RuntimeError", x.r[3], x.r[4]>> ELSE x.r]
LEWrite(env, o) ==
    LET p == LESpecs(env, o)
        n == LEName(env, o)
    IN IF ~IsOk(p) THEN p
       ELSE IF ~IsOk(n) THEN n
       ELSE LET x == Script(env, p[2][1], n[2], "bash", TRUE, TRUE, TRUE).r
                Named(y) == IF y[1] = "T" THEN y ELSE <<y[1], Put(y[2], <<"LOADED_ENV_NAME", n[2]>>), y[3]>>
            IN IF ~IsOk(x) THEN x ELSE Ok([runs |-> {Named(y) : y \in x[2].runs}])

LEMake(env, a) ==     \* ini, build, force, and the files given on the command line
    LET f == Files(env, a[1], "load-env", LEKeys, FALSE) IN
    IF ~IsOk(f) THEN [o |-> [k |-> "dead"], r |-> f]
    ELSE [o |-> [k |-> "le", build |-> a[2], force |-> B(a[3]), sf |-> Over(a[4], f[2][1]), ef |-> Over(a[5], f[2][2]),
                 pf |-> Over(a[6], f[2][3])], r |-> Ok("-")]

\* ------------------------------------------------------------ GenConfig
\* the files it works with: <<flags, specs, systems, envs, environment specs>>
GCFiles(env, o) ==
    LET l == SecList(env, o.ini)
        g == Files(env, o.ini, "gen-config", <<"supported-config-flags", "config-specs">>, TRUE)
        e == Files(env, o.ini, "load-env", LEKeys, TRUE)
    IN IF ~IsOk(l) THEN l
       ELSE IF ~InSeq("gen-config", l[2]) \/ ~InSeq("load-env", l[2]) THEN Err("ValueError")
       ELSE IF ~IsOk(g) THEN g
       ELSE IF ~IsOk(e) THEN e
       ELSE LET c == g[2] \o e[2] IN Ok([i \in 1..5 |-> Over(o.over[i], c[i])])
\* the flags map, then the loader for a build name
GCMap(env, o) == LET f == GCFiles(env, o) IN IF IsOk(f) THEN Sec(env, f[2][1], CF) ELSE f
GCLoader(f, build, force) ==
    [k |-> "le", build |-> build, force |-> force, sf |-> f[3], ef |-> f[4], pf |-> f[5]]
GCComplete(env, o) ==
    LET m == GCMap(env, o) IN
    IF ~IsOk(m) THEN m
    ELSE LET n == LEName(env, GCLoader(GCFiles(env, o)[2], o.build, o.force))
             s == SelectedStr(m[2], o.build)
         IN IF ~IsOk(n) THEN n ELSE IF ~IsOk(s) THEN s ELSE Ok(n[2] \o s[2])
\* what a section of the specifications should be called
GCProper(env, m, f, name) ==
    LET s == SelectedStr(m, name)
        n == LEName(env, GCLoader(f, name, TRUE))
    IN IF ~IsOk(s) THEN s ELSE IF ~IsOk(n) THEN n ELSE Ok(n[2] \o s[2])
GCValidate(env, o) ==
    LET m == GCMap(env, o) IN
    IF ~IsOk(m) THEN m
    ELSE LET f == GCFiles(env, o)[2]
             l == SecList(env, f[2]) IN
         IF ~IsOk(l) THEN l
         ELSE LET ns == SelectSeq(l[2], LAMBDA n : ToUpper(n) # n)
                  ps == TLCEval([i \in 1..Len(ns) |-> GCProper(env, m[2], f, ns[i])])
                  bad == FirstBad(LAMBDA i : ps[i], 1, Len(ns))
              IN IF bad # <<>> THEN bad
                 ELSE IF \E i \in 1..Len(ns) : ps[i][2] # ns[i]
                      THEN Errs(<<>>, Flat([i \in 1..Len(ns) |-> IF ps[i][2] = ns[i] THEN <<>> ELSE <<"-  " \o ns[i], "-> " \o ps[i][2]>>]))
                 ELSE Ok("-")
\* the options of the complete configuration, as the option generator (given) lists them
GCOptions(env, o, kind) ==
    LET f == GCFiles(env, o)
        v == GCValidate(env, o)
        c == GCComplete(env, o)
    IN IF ~IsOk(f) THEN f ELSE IF ~IsOk(v) THEN v ELSE IF ~IsOk(c) THEN c
       ELSE Ok(<<f[2][2] \o "|" \o c[2] \o "|" \o kind, "second">>)
RECURSIVE Answer(_, _)
Answer(as, i) == IF ToLower(Ch(as[i], 1)) \in {"y", "n"} THEN ToLower(Ch(as[i], 1)) ELSE Answer(as, i + 1)
\* the fragment's folder is a file / the fragment itself is a folder
Under(outs, f) == \E i \in 1..Len(outs) : StartsWith(f, outs[i][1] \o "/")
Above(outs, f) == \E i \in 1..Len(outs) : StartsWith(outs[i][1], f \o "/")
GCFragment(env, o, answers) ==
    LET x == GCOptions(env, o, "cmake_fragment")
        same(r) == [o |-> o, env |-> env, r |-> r]
    IN IF o.wrote THEN same(Ok("-"))
       ELSE IF ~IsOk(x) THEN same(x)
       ELSE IF Under(env.outs, o.frag) THEN same(Err("OSError"))
       ELSE IF (HasKey(env.outs, o.frag) \/ Above(env.outs, o.frag)) /\ ~o.yes /\ Answer(answers, 1) = "n" THEN same(Exit(<<>>))
       ELSE IF Above(env.outs, o.frag) THEN same(Err("OSError"))
       ELSE [o |-> [o EXCEPT !.wrote = TRUE], env |-> [env EXCEPT !.outs = Put(@, <<o.frag, Join(x[2], "\n")>>)], r |-> Ok("-")]

\* -------------------------------------------------------------- actions
MapOr(env, o, F(_)) == LET q == Sec(env, o.file, CF) IN IF IsOk(q) THEN F(q[2]) ELSE q
Zero(r) == IF IsOk(r) THEN <<"exit", "zero", <<>>, r[2]>> ELSE r
FlagOf(env, o, x) ==
    LET q == Sec(env, o.file, CF) IN
    IF ~IsOk(q) THEN q ELSE IF ~HasKey(q[2], x) THEN Err("KeyError") ELSE Flag(q[2], PosOf(q[2], x))

Make(env, a) ==
    CASE a[1] = "kw" -> [o |-> [k |-> "kw", file |-> a[2]], r |-> Ok("-")]
      [] a[1] = "ds" -> [o |-> [k |-> "ds", build |-> a[2], file |-> a[3], force |-> B(a[4])], r |-> Ok("-")]
      [] a[1] = "ck" -> LET q == Sec(env, a[3], CF)
                        IN [o |-> IF IsOk(q) THEN [k |-> "ck", build |-> a[2], file |-> a[3]] ELSE [k |-> "dead"],
                            r |-> IF IsOk(q) THEN Ok("-") ELSE q]
      [] a[1] = "ek" -> LET t == EnvTable(env, a[4], a[3])
                        IN [o |-> IF IsOk(t) THEN [k |-> "ek", build |-> a[2], sys |-> a[3], file |-> a[4]] ELSE [k |-> "dead"],
                            r |-> IF IsOk(t) THEN Ok("-") ELSE t]
      [] a[1] = "le" -> LEMake(env, Tail(a))
      [] a[1] = "gc" -> [o |-> [k |-> "gc", ini |-> a[2], build |-> a[3], force |-> B(a[4]), over |-> a[5], frag |-> a[6],
                                yes |-> B(a[7]), wrote |-> FALSE], r |-> Ok("-")]
      \* the command line tools: only their arguments
      [] a[1] = "lm" -> [o |-> [k |-> "lm", le |-> SubSeq(a, 2, 7), list |-> B(a[8])], r |-> Ok("-")]
      [] a[1] = "gm" -> [o |-> [k |-> "gm", ini |-> a[2], build |-> a[3], force |-> B(a[4]), over |-> a[5], frag |-> a[6],
                                yes |-> B(a[7]), wrote |-> FALSE, modes |-> a[8], save |-> a[9]], r |-> Ok("-")]

Ask(env, o, op, a) ==
    CASE op = "values" -> Values(env, o.file, a[1], a[2])
      [] op = "key" -> KeyFor(env, o.file, a[1], a[2])
      \* DetermineSystem
      [] op = "system" -> IF o.k = "ds" THEN System(env, o.file, o.build, o.force) ELSE LESystem(env, o)
      [] op = "determine" -> LET s == System(env, o.file, o.build, o.force) IN IF IsOk(s) THEN Ok("-") ELSE s
      [] op = "fromhost" -> FromHost(env, o.file, a[1])
      [] op = "frombuild" -> FromBuild(env, o.file, o.build)
      [] op = "sysnames" -> SysNames(env, o.file)
      \* ConfigKeywordParser
      [] op = "selected" -> MapOr(env, o, LAMBDA m : Selected(m, o.build))
      [] op = "selstr" -> MapOr(env, o, LAMBDA m : SelectedStr(m, o.build))
      [] op = "isdefault" -> MapOr(env, o, LAMBDA m : IsDefault(m, a[1]))
      [] op = "options" -> FlagOf(env, o, a[1])
      [] op = "alloptions" -> MapOr(env, o, AllOptions)
      [] op = "flagitems" -> MapOr(env, o, FlagItems)
      \* EnvKeywordParser
      [] op = "envname" -> IF o.k = "ek" THEN Qualified(EnvTable(env, o.file, o.sys)[2], o.sys, o.build) ELSE LEName(env, o)
      [] op = "aliases" -> Ok(SortStrings(EnvTable(env, o.file, o.sys)[2][2]))
      [] op = "envitems" -> Ok(EnvItems(EnvTable(env, o.file, o.sys)[2]))
      \* LoadEnv
      [] op = "stripped" -> LEStripped(env, o)
      [] op = "listenvs" -> LET t == LETable(env, o) IN IF IsOk(t) THEN Zero(Ok(EnvItems(t[2]))) ELSE t
      [] op = "write" -> LEWrite(env, o)
      \* GenConfig
      [] op = "complete" -> GCComplete(env, o)
      [] op = "validate" -> GCValidate(env, o)
      [] op = "flags" -> GCOptions(env, o, "bash")
      [] op = "listflags" -> LET m == GCMap(env, o)
                                 r == IF IsOk(m) THEN FlagItems(m[2]) ELSE m
                             IN IF IsOk(r) THEN <<"exit", "fail", <<>>, r[2]>> ELSE r
      [] op = "listconfigs" -> LET f == GCFiles(env, o)
                                   s == LESystem(env, GCLoader(f[2], o.build, o.force))
                                   l == SecList(env, f[2][2])
                               IN IF ~IsOk(f) THEN f ELSE IF ~IsOk(s) THEN s ELSE IF ~IsOk(l) THEN l
                                  ELSE Zero(Ok(SelectSeq(l[2], LAMBDA n : StartsWith(n, s[2] \o "_"))))
      [] op = "leargs" -> LET f == GCFiles(env, o)
                          IN IF ~IsOk(f) THEN f
                             ELSE Ok(<<o.build, IF o.force THEN "T" ELSE "F", f[2][3], f[2][4], f[2][5]>>)

\* load_env: list, or apply and write the matching script (blocked: the requested
\* output cannot be written)
LEMain(env, o, blocked) ==
    LET m == LEMake(env, o.le)
        t == LETable(env, m.o)
        x == LEApply(env, m.o)
        s == LEWrite(x.env, m.o)
    IN IF ~IsOk(m.r) THEN [o |-> o, env |-> env, r |-> m.r \o <<env.vars, <<>>>>]
       ELSE IF o.list THEN [o |-> o, env |-> env, r |-> IF IsOk(t) THEN Zero(Ok(EnvItems(t[2]))) ELSE t]
       ELSE IF x.r[1] # "ok" \/ ~IsOk(s) THEN [o |-> o, env |-> x.env, r |-> x.r]
       ELSE IF blocked THEN [o |-> o, env |-> x.env, r |-> <<"err", "OSError", x.r[3], x.r[4]>>]
       ELSE [o |-> o, env |-> x.env, r |-> Append(x.r, s[2])]
\* gen_config: the first of what was asked for, otherwise the flags
GCMain(env, o, answers) ==
    LET want(i) == o.modes[i] = "T"
        same(r) == [o |-> o, env |-> env, r |-> r]
    IN IF want(1) THEN same(Ask(env, o, "listflags", <<>>))
       ELSE IF want(2) THEN same(Ask(env, o, "listconfigs", <<>>))
       ELSE IF want(3) THEN LET l == Ask(env, o, "leargs", <<>>)
                            IN same(IF IsOk(l) THEN Ok(<<SubSeq(o.save, 4, Len(o.save))>> \o l[2]) ELSE l)
       ELSE IF want(4) THEN LET f == GCFragment(env, o, answers) IN [f EXCEPT !.o = o]
       ELSE same(Ask(env, o, "flags", <<>>))

\* what a fresh object says while it makes its choice: one line per decision, with the names concerned
DSNotices(env, build, f, silent) ==
    LET h == FromHost(env, f, env.host)
        b == FromBuild(env, f, build)
    IN IF silent THEN <<>>
       ELSE (IF h[2][1] = "n" THEN <<>> ELSE <<<<Quoted(h[2][2]), Quoted(env.host)>>>>)
            \o (IF b[2][1] = "n" THEN <<>> ELSE <<<<Quoted(b[2][2]), Quoted(build)>>>>)
EKNotices(t, sys, build) ==
    LET ns == SelectSeq(t[1], LAMBDA n : Bounded(build, n))
        as == SelectSeq(t[2], LAMBDA n : Bounded(build, n))
        q == Qualified(t, sys, build)[2]
    IN IF ns # <<>> THEN <<<<Quoted(ns[1]), Quoted(build)>>>>
       ELSE <<<<Quoted(as[1]), Quoted(build), Quoted(SubSeq(q, Len(sys) + 2, Len(q)))>>>>
Announce(env, a) ==
    IF a[1] = "ds" THEN LET s == System(env, a[3], a[2], B(a[4]))
                        IN IF IsOk(s) THEN Ok(<<s[2], DSNotices(env, a[2], a[3], B(a[5]))>>) ELSE s
    ELSE LET t == EnvTable(env, a[4], a[3])
             q == Qualified(t[2], a[3], a[2])
         IN IF ~IsOk(t) THEN t ELSE IF ~IsOk(q) THEN q ELSE Ok(<<q[2], EKNotices(t[2], a[3], a[2])>>)

KWDo(env, o, op, a) ==
    CASE op = "announce" -> [o |-> o, env |-> env, r |-> Announce(env, a)]
      [] op = "make" -> LET x == Make(env, a) IN [o |-> x.o, env |-> env, r |-> x.r]
      [] op = "set_build" -> [o |-> [o EXCEPT !.build = a[1]], env |-> env, r |-> Ok("-")]
      [] op = "build" -> [o |-> o, env |-> env, r |-> Ok(o.build)]
      [] op = "apply" -> LEApply(env, o)
      [] op = "fragment" -> GCFragment(env, o, a)
      [] op = "lemain" -> LEMain(env, o, a # <<>>)
      [] op = "gcmain" -> GCMain(env, o, a)
      [] op \in {"vars", "plan"} -> SEDo(env, o, op, a)
      [] op = "outs" -> [o |-> o, env |-> env, r |-> Ok(env.outs)]
      [] OTHER -> [o |-> o, env |-> env, r |-> Ask(env, o, op, a)]

KWNew(env, a) == <<>>

\* wherever its lines were broken
Squash(t) == Replace(Replace(Replace(t, "\n", ""), "|", ""), " ", "")
Mentions(names, text) == LET t == Squash(text) IN \A i \in 1..Len(names) : Contains(t, Squash(names[i]))
KWApplied(exp, got) ==
    IF exp[1] = "exit" THEN exp[2] = got[2] /\ Pairs(exp[3]) = Pairs(got[3]) /\ SameLog(exp[4], got[4])
    ELSE SEAgree("apply", exp, got)
\* the entries that the lines of a message list
Bullet(line) == LET x == StripSet(line, {"|", " "}) IN
    IF StartsWith(x, "- ") /\ ~StartsWith(x, "- Supported ") THEN <<RStripSet(SubSeq(x, 3, Len(x)), Blank)>> ELSE <<>>
ValueSet(seq) == {seq[i] : i \in 1..Len(seq)}
Listed(text) == LET ls == Split(text, "\n") IN ValueSet(Flat([i \in 1..Len(ls) |-> Bullet(ls[i])]))
Frame == INSTANCE Msg
Reports(exp, text) ==
    /\ Frame!Block(text)
    /\ Mentions(exp[3][2], text)
    /\ (exp[1] = "report" \/ exp[3][1] # <<>>) => Listed(text) = {RStripSet(exp[3][1][i], Blank) : i \in 1..Len(exp[3][1])}
Plain(exp) == CASE exp[1] = "report" -> [exp EXCEPT ![1] = "exit"]
                [] exp[1] = "errs" -> [exp EXCEPT ![1] = "err"]
                [] OTHER -> exp
RECURSIVE KWAgree(_, _, _)
KWAgree(op, exp, got) ==
    IF exp[1] \in {"report", "errs"} THEN
         /\ Plain(exp)[1] = got[1]
         /\ IF op = "apply" \/ (op = "lemain" /\ Len(exp) = 4 /\ exp[2] # "zero") THEN KWAgree(op, Plain(exp), got)
            ELSE IF exp[1] = "errs" THEN ErrOK(exp[2], got[2]) ELSE exp[2] = got[2]
         /\ (op \notin {"apply", "lemain"}) => Len(got) > 2 /\ Reports(exp, got[3])
    ELSE IF exp[1] # got[1] THEN FALSE
    ELSE IF op = "lemain" /\ exp[1] = "ok" THEN
         /\ KWApplied(SubSeq(exp, 1, 4), SubSeq(got, 1, 4))
         /\ \E x \in exp[5].runs : x[1] = got[5].failed /\ Pairs(x[2]) = Pairs(got[5].vars) /\ SameLog(x[3], got[5].log)
    ELSE IF op = "apply" \/ (op = "lemain" /\ Len(exp) = 4 /\ exp[2] # "zero") THEN KWApplied(exp, got)
    ELSE IF exp[1] = "err" THEN ErrOK(exp[2], got[2])
    ELSE IF exp[1] = "exit" THEN /\ exp[2] = got[2] /\ Mentions(exp[3], got[3])
                                 /\ (exp[2] = "fail" /\ exp[3] # <<>>) => Frame!Block(got[3])
                                 /\ Len(exp) > 3 => ToJson(exp[4]) = ToJson(got[4])
    ELSE CASE op = "write" -> /\ got[2].same = "T" /\ got[2].last = "T" /\ got[2].pure = "T"
                              /\ \E x \in exp[2].runs : x[1] = got[2].failed /\ Pairs(x[2]) = Pairs(got[2].vars) /\ SameLog(x[3], got[2].log)
           [] op = "outs" -> Pairs(exp[2]) = Pairs(got[2])
           [] op = "announce" -> /\ exp[2][1] = got[2][1] /\ Len(exp[2][2]) = Len(got[2][2])
                                 /\ \A i \in 1..Len(exp[2][2]) : Mentions(exp[2][2][i], got[2][2][i])
           [] OTHER -> ToJson(exp[2]) = ToJson(got[2])
=============================================================================
