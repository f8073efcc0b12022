-------------------------------- MODULE Ini ---------------------------------
(***************************************************************************)
(* The raw configuration: what the standard ConfigParser delivers.         *)
(*                                                                         *)
(* A file form is <<err, secs>>: the class of the error reading that file  *)
(* alone raises ("" if none) and its sections <<name, opts>>, opts being   *)
(* <<key, tag, text>> triples with tag "s" (a string) or "n" (no value).   *)
(* The disk is a sequence of <<path, kind, forms>>, kind "file", "dir" or  *)
(* "none", forms a sequence of <<delimiters, err, secs>>.                  *)
(***************************************************************************)
EXTENDS Text

\* ---------------------------------------------------------- ordered maps
\* An ordered map is a sequence of <<key, ...>> tuples with distinct keys.
PosOf(m, k) == LET S == {i \in 1..Len(m) : m[i][1] = k}
               IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
HasKey(m, k) == \E i \in 1..Len(m) : m[i][1] = k
\* replace in place, or append: the position is that of the first visit
Put(m, e) == LET i == PosOf(m, e[1])
             IN IF i = 0 THEN Append(m, e) ELSE [m EXCEPT ![i] = e]
RECURSIVE PutAll(_, _, _)
PutAll(m, es, i) == IF i > Len(es) THEN m ELSE PutAll(Put(m, es[i]), es, i + 1)
Keys(m) == [i \in 1..Len(m) |-> m[i][1]]
DropKey(m, k) == SelectSeq(m, LAMBDA e : e[1] # k)

\* ---------------------------------------------------------------- loading
RECURSIVE MergeSecs(_, _, _)
MergeSecs(cfg, secs, i) ==
    IF i > Len(secs) THEN cfg
    ELSE LET s == secs[i]
             p == PosOf(cfg, s[1])
         IN MergeSecs(IF p = 0 THEN Append(cfg, s)
                      ELSE [cfg EXCEPT ![p] = <<s[1], PutAll(cfg[p][2], s[2], 1)>>],
                      secs, i + 1)

FormOf(file, delims) ==
    LET S == {j \in 1..Len(file[3]) : file[3][j][1] = delims}
    IN file[3][CHOOSE j \in S : TRUE]

RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(disk, paths, delims, cfg, i) ==
    IF i > Len(paths) THEN [err |-> "", cfg |-> cfg]
    ELSE LET f == FormOf(disk[PosOf(disk, paths[i])], delims)
         IN IF f[2] # "" THEN [err |-> f[2], cfg |-> <<>>]
            ELSE ReadAll(disk, paths, delims, MergeSecs(cfg, f[3], 1), i + 1)

\* The outcome of loading: either an error class or the merged configuration
Load(disk, paths, delims) ==
    IF paths = <<>> THEN [err |-> "ValueError", cfg |-> <<>>]
    ELSE IF \E i \in 1..Len(paths) :
               \/ ~HasKey(disk, paths[i])
               \/ disk[PosOf(disk, paths[i])][2] # "file"
         THEN [err |-> "OSError", cfg |-> <<>>]
    ELSE ReadAll(disk, paths, delims, <<>>, 1)

SecNames(cfg) == Keys(cfg)
HasSec(cfg, s) == HasKey(cfg, s)
OptsOf(cfg, s) == cfg[PosOf(cfg, s)][2]

\* ---------------------------------------------------------- interpolation
\* Basic interpolation of %(name)s and %% within one section.
\* Result [err, s].
RECURSIVE Interp(_, _, _, _, _)
Interp(opts, s, i, depth, out) ==
    IF depth > 10 THEN [err |-> "InterpolationDepthError", s |-> ""]
    ELSE LET p == FindFrom(s, "%", i) IN
      IF p = 0 THEN [err |-> "", s |-> out \o SubSeq(s, i, Len(s))]
      ELSE LET pre == out \o SubSeq(s, i, p - 1)
               c == IF p < Len(s) THEN Ch(s, p + 1) ELSE "" IN
        IF c = "%" THEN Interp(opts, s, p + 2, depth, pre \o "%")
        ELSE IF c = "(" THEN
           LET q == FindFrom(s, ")", p + 2) IN
           IF q = 0 \/ q = p + 2 \/ q = Len(s) THEN [err |-> "InterpolationSyntaxError", s |-> ""]
           ELSE IF Ch(s, q + 1) # "s" THEN [err |-> "InterpolationSyntaxError", s |-> ""]
           ELSE LET name == SubSeq(s, p + 2, q - 1) IN
             IF ~HasKey(opts, name) THEN [err |-> "InterpolationMissingOptionError", s |-> ""]
             ELSE LET o == opts[PosOf(opts, name)] IN
               IF o[2] = "n" THEN [err |-> "TypeError", s |-> ""]
               ELSE IF HasChar(o[3], "%")
                    THEN LET r == Interp(opts, o[3], 1, depth + 1, "") IN
                         IF r.err # "" THEN r
                         ELSE Interp(opts, s, q + 2, depth, pre \o r.s)
                    ELSE Interp(opts, s, q + 2, depth, pre \o o[3])
        ELSE [err |-> "InterpolationSyntaxError", s |-> ""]

\* What the parser sees for option o of a section with options opts:
\* [err, v] with v = <<"s", text>> or <<"n", "">>
Seen(opts, o) ==
    IF o[2] = "n" THEN [err |-> "", v |-> <<"n", "">>]
    ELSE LET r == Interp(opts, o[3], 1, 1, "")
         IN IF r.err # "" THEN [err |-> r.err, v |-> <<"n", "">>]
            ELSE [err |-> "", v |-> <<"s", StripSet(Strip(r.s), {"\""})>>]
=============================================================================
