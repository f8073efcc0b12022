-------------------------------- MODULE CPE ---------------------------------
(***************************************************************************)
(* The ConfigParserEnhanced object as a state machine.                     *)
(*                                                                         *)
(* State: a disk (Ini) and a sequence of instances.  One instance o is     *)
(*   paths   list of files, or <<"?">> as long as none was given           *)
(*   delims  delimiter text            dflt  default section name          *)
(*   ecl     exception control level   H     handlers of its class         *)
(*   loaded  <<>> or <<cfg>>: the lazily loaded raw configuration          *)
(*   data    ordered map section -> resolved options (lazily filled)       *)
(*   done    the sections parsed so far                                    *)
(*   last    <<>> or <<log>>: result of the last successful parse          *)
(*                                                                         *)
(* Every public call is an action; Do(disk, o, op, args) gives the next    *)
(* instance state and the reply [o, r, ev]: r is <<"ok", ...>> or          *)
(* <<"err", class>> and ev the handler events the call caused.             *)
(***************************************************************************)
EXTENDS Resolve, TLC

NewObj(paths, dflt, ecl, H) ==
    [paths |-> paths, delims |-> "=:", dflt |-> dflt, ecl |-> ecl, H |-> H,
     loaded |-> <<>>, data |-> <<>>, done |-> {}, last |-> <<>>]

Err(c) == <<"err", c>>
Ok(x) == <<"ok", x>>
Res(o, r, ev) == [o |-> o, r |-> r, ev |-> ev]

Reset(o) == [o EXCEPT !.loaded = <<>>, !.data = <<>>, !.done = {}, !.last = <<>>]

\* ------------------------------------------------------- loading, lazily
\* <<err, o'>>
EnsureLoaded(disk, o) ==
    IF o.loaded # <<>> THEN <<"", o>>
    ELSE IF o.paths = <<"?">> THEN <<"ValueError", o>>
    ELSE LET l == Load(disk, o.paths, o.delims)
         IN IF l.err # "" THEN <<l.err, o>> ELSE <<"", [o EXCEPT !.loaded = <<l.cfg>>]>>

Cfg(o) == o.loaded[1]

DataOf(o, s) == o.data[PosOf(o.data, s)][2]
HasData(o, s) == HasKey(o.data, s)
WithData(o, s, m) == [o EXCEPT !.data = Put(@, <<s, m>>)]
RECURSIVE Touch(_, _)
\* sections entered during a parse exist (empty) in the lazy data
Touch(data, S) == IF S = {} THEN data
                  ELSE LET s == CHOOSE x \in S : TRUE
                       IN Touch(IF HasKey(data, s) THEN data ELSE Append(data, <<s, <<>>>>), S \ {s})

\* ------------------------------------------------------ parse_section(s)
\* [o, err, ev, log]
ParseSec(disk, o, s, init, fin) ==
    LET l == EnsureLoaded(disk, o) IN
    IF s = "" THEN [o |-> o, err |-> "ValueError", ev |-> <<>>, log |-> <<>>]
    ELSE IF l[1] # ""       \* the initialize handler may fail before the load does
         THEN LET e == RunEdge([ecl |-> o.ecl, H |-> o.H, root |-> s], "initialize", Empty).err
              IN [o |-> o, err |-> IF init /\ e # "" THEN "*" ELSE l[1], ev |-> <<<<"*">>>>, log |-> <<>>]
    ELSE LET o1 == l[2]
             a == Parse([cfg |-> Cfg(o1), dflt |-> o1.dflt, H |-> o1.H, ecl |-> o1.ecl,
                         root |-> s, init |-> init, fin |-> fin])
             old == IF HasData(o1, s) THEN DataOf(o1, s) ELSE <<>>
             new == PutAll(old, a.data, 1)
             d1 == Touch(o1.data, a.vis)
             d2 == IF HasKey(d1, s) \/ a.data # <<>> THEN Put(d1, <<s, new>>) ELSE d1
         IN IF a.err # ""       \* the section keeps what it had before
            THEN [o |-> [o1 EXCEPT !.data = Touch(@, a.vis \ {s}), !.done = @ \ {s}], err |-> a.err, ev |-> a.ev, log |-> a.log]
            ELSE [o |-> [o1 EXCEPT !.data = d2, !.done = @ \cup {s}, !.last = <<a.log>>],
                  err |-> "", ev |-> a.ev, log |-> a.log]

\* parse unless it was done already (or nothing of it is in the files)
EnsureParsed(disk, o, s, force) ==
    LET l == EnsureLoaded(disk, o)
        skip == [o |-> o, err |-> "", ev |-> <<>>, log |-> <<>>]
    IN IF s \in o.done /\ ~force THEN skip
       ELSE IF HasData(o, s) /\ l[1] # "" THEN [skip EXCEPT !.err = l[1]]
       ELSE IF HasData(o, s) /\ ~HasSec(Cfg(l[2]), s) THEN [skip EXCEPT !.o = l[2]]
       ELSE ParseSec(disk, o, s, TRUE, TRUE)

\* has_section: parse it if the files have it; then is it there?
\* [o, err, ev, has]
HasSection(disk, o, s) ==
    LET l == EnsureLoaded(disk, o) IN
    IF l[1] # "" THEN [o |-> o, err |-> l[1], ev |-> <<<<"*">>>>, has |-> FALSE]
    ELSE IF HasSec(Cfg(l[2]), s) /\ s \notin l[2].done
         THEN LET p == ParseSec(disk, l[2], s, TRUE, TRUE)
              IN [o |-> p.o, err |-> p.err, ev |-> p.ev, has |-> p.err = "" /\ HasData(p.o, s)]
    ELSE [o |-> l[2], err |-> "", ev |-> <<>>, has |-> HasData(l[2], s)]

Section(disk, o, s) ==      \* [], options()
    LET h == HasSection(disk, o, s)
    IN IF h.err # "" THEN Res(h.o, Err(h.err), h.ev)
       ELSE IF ~h.has THEN Res(h.o, Err("KeyError"), h.ev)
       ELSE Res(h.o, Ok(DataOf(h.o, s)), h.ev)

Get(disk, o, s) ==
    LET p == EnsureParsed(disk, o, s, FALSE)
    IN IF p.err # "" THEN Res(p.o, Err(p.err), p.ev)
       ELSE LET q == Section(disk, p.o, s) IN Res(q.o, q.r, p.ev \o q.ev)

GetOpt(disk, o, s, k) ==
    LET g == Get(disk, o, s)
    IN IF g.r[1] = "err" THEN g
       ELSE LET m == g.r[2] IN
            IF HasKey(m, k) THEN Res(g.o, Ok(SubSeq(m[PosOf(m, k)], 2, 3)), g.ev)
            ELSE Res(g.o, Err("KeyError"), g.ev)

HasOption(disk, o, s, k) ==
    LET p == EnsureParsed(disk, o, s, FALSE)
    IN IF p.err # "" THEN Res(p.o, Err(p.err), p.ev)
       ELSE Res(p.o, Ok(IF HasData(p.o, s) /\ HasKey(DataOf(p.o, s), k) THEN "T" ELSE "F"), p.ev)

\* parse a list of sections, stopping at the first failure; [o, err, ev]
RECURSIVE ParseList(_, _, _, _, _, _)
ParseList(disk, o, names, i, force, ev) ==
    IF i > Len(names) THEN [o |-> o, err |-> "", ev |-> ev]
    ELSE LET p == EnsureParsed(disk, o, names[i], force)
         IN IF p.err # "" THEN [o |-> p.o, err |-> p.err, ev |-> ev \o p.ev]
            ELSE ParseList(disk, p.o, names, i + 1, force, ev \o p.ev)

Loaded(disk, o, F(_)) == LET l == EnsureLoaded(disk, o)
                         IN IF l[1] # "" THEN Res(o, Err(l[1]), <<<<"*">>>>) ELSE F(l[2])

Names(disk, o) == Loaded(disk, o, LAMBDA x : Res(x, Ok(SecNames(Cfg(x))), <<>>))
NSecs(disk, o) == Loaded(disk, o, LAMBDA x : Res(x, Ok(ToString(Len(Cfg(x)))), <<>>))
Sections(disk, o, mode) ==
    IF mode = "no" THEN Names(disk, o)
    ELSE IF mode = "never" /\ Raises(o.ecl, "CATASTROPHIC") THEN Res(o, Err("ValueError"), <<>>)
    ELSE Loaded(disk, o, LAMBDA x :
           LET p == ParseList(disk, x, SecNames(Cfg(x)), 1, mode \in {"force", "Force", "FORCE"}, <<>>)
           IN IF p.err # "" THEN Res(p.o, Err(p.err), p.ev)
              ELSE Res(p.o, Ok(SecNames(Cfg(x))), p.ev))
ItemsAll(disk, o) ==
    Loaded(disk, o, LAMBDA x :
           LET p == ParseList(disk, x, SecNames(Cfg(x)), 1, FALSE, <<>>)
           IN IF p.err # "" THEN Res(p.o, Err(p.err), p.ev)
              ELSE Res(p.o, Ok([i \in 1..Len(p.o.data) |-> p.o.data[i]]), p.ev))

AddSection(o, s, force) ==
    LET o1 == IF force \/ ~HasData(o, s) THEN WithData(o, s, <<>>) ELSE o
    IN Res(o1, Ok(DataOf(o1, s)), <<>>)

SetOpt(disk, o, s, k, v) ==
    LET h == HasSection(disk, o, s)
    IN IF h.err # "" THEN Res(h.o, Err(h.err), h.ev)
       ELSE LET old == IF h.has THEN DataOf(h.o, s) ELSE <<>>
            IN Res(WithData(h.o, s, Put(old, <<k, v[1], v[2]>>)), Ok(v), h.ev)

\* mutate the mapping handed out for a section
MutOpt(disk, o, s, k, v) ==
    LET q == Section(disk, o, s)
    IN IF q.r[1] = "err" THEN q
       ELSE Res(WithData(q.o, s, Put(DataOf(q.o, s), <<k, v[1], v[2]>>)), Ok(v), q.ev)

ParseOp(disk, o, s, init, fin) ==
    LET p == ParseSec(disk, o, s, init, fin)
    IN IF p.err # "" THEN Res(p.o, Err(p.err), p.ev) ELSE Res(p.o, Ok(p.log), p.ev)

\* ------------------------------------------------------------- unrolling
Escaped(t) == Replace(Replace(t, "%", "%%"), "\n", "\n\t")
RECURSIVE Lines(_, _, _)
Lines(m, delim, i) == IF i > Len(m) THEN ""
                      ELSE Strip(m[i][1] \o delim \o Escaped(m[i][3])) \o "\n" \o Lines(m, delim, i + 1)
SecText(s, m, delim) == "[" \o s \o "]\n" \o Lines(m, delim, 1)

RECURSIVE UnrollSecs(_, _, _, _, _, _, _)
UnrollSecs(disk, o, names, i, delim, txt, ev) ==
    IF i > Len(names) THEN Res(o, Ok(txt), ev)
    ELSE LET q == Section(disk, o, names[i])
         IN IF q.r[1] = "err" THEN Res(q.o, q.r, ev \o q.ev)
            ELSE UnrollSecs(disk, q.o, names, i + 1, delim,
                            txt \o SecText(names[i], q.r[2], delim) \o "\n", ev \o q.ev)

\* section "" stands for all; base: parse with a fresh base-class instance
Unroll(disk, o, s, spaced, base) ==
    LET delim == IF spaced THEN " : " ELSE ":"
        w0 == IF base THEN [NewObj(o.paths, o.dflt, 0, <<>>) EXCEPT !.delims = o.delims]
              ELSE [o EXCEPT !.ecl = 0]
        l == EnsureLoaded(disk, w0)
    IN IF l[1] # "" THEN Res(o, Err(l[1]), <<<<"*">>>>)
       ELSE LET w == l[2]
                q == UnrollSecs(disk, w, IF s = "" THEN SecNames(Cfg(w)) ELSE <<s>>, 1, delim, "", <<>>)
                \* what was parsed at level 0 is parsed again when it is needed
                o2 == IF base THEN o ELSE [q.o EXCEPT !.ecl = o.ecl, !.done = @ \cap o.done]
            IN IF q.r[1] = "err" THEN Res(o2, q.r, IF base THEN <<>> ELSE q.ev)
               ELSE Res(o2, Ok(Strip(q.r[2]) \o "\n"), IF base THEN <<>> ELSE q.ev)

\* ------------------------------------------------------------ validation
AssertSec(disk, o, s, doraise) ==
    LET g == Get(disk, o, s)
    IN IF g.r[1] = "err" THEN g
       ELSE IF g.r[2] = <<>> THEN Res(g.o, Ok("0"), g.ev)
       ELSE IF doraise /\ Raises(o.ecl, "SERIOUS") THEN Res(g.o, Err("ValueError"), g.ev)
       ELSE Res(g.o, Ok("bad"), g.ev)

RECURSIVE AssertSecs(_, _, _, _, _, _)
AssertSecs(disk, o, names, i, bad, ev) ==
    IF i > Len(names) THEN Res(o, Ok(IF bad THEN "bad" ELSE "0"), ev)
    ELSE LET q == AssertSec(disk, o, names[i], FALSE)
         IN IF q.r[1] = "err" THEN Res(q.o, q.r, ev \o q.ev)
            ELSE AssertSecs(disk, q.o, names, i + 1, bad \/ q.r[2] = "bad", ev \o q.ev)
CheckFile(disk, o) == Loaded(disk, o, LAMBDA x : AssertSecs(disk, x, SecNames(Cfg(x)), 1, FALSE, <<>>))
AssertFile(disk, o) ==
    LET q == CheckFile(disk, o)
    IN IF q.r = Ok("bad") /\ Raises(o.ecl, "SERIOUS") THEN Res(q.o, Err("ValueError"), q.ev) ELSE q

\* what a report on a section, or on all ("") of a file, has to tell: the options that nobody handled
Unhandled(o, s) == LET d == DataOf(o, s) IN [i \in 1..Len(d) |-> d[i][1]]
RECURSIVE UnhandledIn(_, _, _)
UnhandledIn(o, names, i) == IF i > Len(names) THEN <<>> ELSE Unhandled(o, names[i]) \o UnhandledIn(o, names, i + 1)
Told(disk, o, s) ==
    LET q == IF s = "" THEN CheckFile(disk, o) ELSE AssertSec(disk, o, s, FALSE) IN
    IF q.r = Ok("0") THEN Res(q.o, Ok(<<"0">>), q.ev)
    ELSE IF q.r # Ok("bad") THEN q
    ELSE Res(q.o, Ok(<<"bad", IF s = "" THEN UnhandledIn(q.o, SecNames(Cfg(q.o)), 1) ELSE Unhandled(q.o, s)>>), q.ev)

KnownOps(o) == {Replace(o.H[i][1], "_", "-") : i \in {j \in 1..Len(o.H) : o.H[j][1] \notin {"initialize", "finalize"}}} \cup {"use"}

LastResult(o) == Res(o, Ok(IF o.last = <<>> THEN <<"none">> ELSE <<"log">> \o o.last[1]), <<>>)

\* ------------------------------------------------------- reconfiguration
SetPaths(o, ps) == Res([Reset(o) EXCEPT !.paths = ps], Ok("-"), <<>>)
SetDelims(o, d) == Res([Reset(o) EXCEPT !.delims = d], Ok("-"), <<>>)
Clamp(n) == IF n < 0 THEN 0 ELSE IF n > 5 THEN 5 ELSE n

\* --------------------------------------------------------------- actions
ReadOps == {"getitem", "options", "get", "getopt", "has_section", "has_option", "items", "items_all",
            "keys", "iter", "len", "sections", "parse_all", "known", "last", "ecl", "paths", "delims",
            "unroll", "write", "assert_sec", "assert_file", "parse", "raw"}
B(x) == x = "T"
Do(disk, o, op, a) ==
    CASE op = "getitem" -> Section(disk, o, a[1])
      [] op = "options" -> Section(disk, o, a[1])
      [] op = "items" -> Loaded(disk, o, LAMBDA x : Section(disk, x, a[1]))
      [] op = "get" -> Get(disk, o, a[1])
      [] op = "getopt" -> GetOpt(disk, o, a[1], a[2])
      [] op = "has_section" -> LET h == HasSection(disk, o, a[1])
                               IN IF h.err # "" THEN Res(h.o, Err(h.err), h.ev)
                                  ELSE Res(h.o, Ok(IF h.has THEN "T" ELSE "F"), h.ev)
      [] op = "has_option" -> HasOption(disk, o, a[1], a[2])
      [] op = "items_all" -> ItemsAll(disk, o)
      [] op = "keys" -> Names(disk, o)
      [] op = "iter" -> Names(disk, o)
      [] op = "len" -> NSecs(disk, o)
      [] op = "raw" -> Loaded(disk, o, LAMBDA x : Res(x, Ok([i \in 1..Len(Cfg(x)) |-> <<Cfg(x)[i][1], Cfg(x)[i][2]>>]), <<>>))
      [] op = "sections" -> Sections(disk, o, a[1])
      [] op = "parse_all" -> LET q == Sections(disk, o, "yes")
                             IN IF q.r[1] = "err" THEN q ELSE Res(q.o, Ok("-"), q.ev)
      [] op = "parse" -> ParseOp(disk, o, a[1], B(a[2]), B(a[3]))
      \* a parse whose caller then scribbles over the returned dictionary
      [] op = "scribble" -> ParseOp(disk, o, a[1], B(a[2]), B(a[3]))
      [] op = "last" -> LastResult(o)
      [] op = "add" -> AddSection(o, a[1], B(a[2]))
      [] op = "set" -> SetOpt(disk, o, a[1], a[2], <<a[3], a[4]>>)
      [] op = "mut" -> MutOpt(disk, o, a[1], a[2], <<a[3], a[4]>>)
      [] op = "unroll" -> Unroll(disk, o, a[1], B(a[2]), B(a[3]))
      [] op = "write" -> Unroll(disk, o, a[1], B(a[2]), B(a[3]))
      [] op = "assert_sec" -> AssertSec(disk, o, a[1], B(a[2]))
      [] op = "told" -> Told(disk, o, a[1])
      [] op = "assert_file" -> AssertFile(disk, o)
      [] op = "known" -> LET l == EnsureLoaded(disk, o)
                         IN IF l[1] # "" THEN Res(o, <<"any", "">>, <<>>) ELSE Res(l[2], Ok(KnownOps(o)), <<>>)
      [] op = "set_paths" -> SetPaths(o, a)
      [] op = "bad_paths" -> Res(o, Err("TypeError"), <<>>)
      [] op = "set_delims" -> SetDelims(o, a[1])
      [] op = "bad_delims" -> Res(o, Err("TypeError"), <<>>)
      [] op = "bad_parse" -> Res(o, Err("TypeError"), <<>>)
      [] op = "set_ecl" -> Res([o EXCEPT !.ecl = Clamp(a[1])], Ok("-"), <<>>)
      [] op = "set_dbg" -> Res(o, Ok("-"), <<>>)
      [] op = "ecl" -> Res(o, Ok(ToString(o.ecl)), <<>>)
      [] op = "paths" -> IF o.paths = <<"?">> THEN Res(o, Err("ValueError"), <<>>) ELSE Res(o, Ok(o.paths), <<>>)
      [] op = "delims" -> Res(o, Ok(o.delims), <<>>)
=============================================================================
