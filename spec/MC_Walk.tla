------------------------------ MODULE MC_Walk -------------------------------
(***************************************************************************)
(* The parse as a machine that takes one step per option, with an explicit *)
(* stack of sections under expansion, checked against the recursive        *)
(* definition (Resolve!Parse) and against a declarative reading of what a  *)
(* resolved section is.  All configurations over a small alphabet.         *)
(* Each finished parse is printed with the result it prescribes, to be     *)
(* replayed in the real code.                                              *)
(***************************************************************************)
EXTENDS Resolve, Json, TLC

CONSTANTS Secs,      \* sequence of ordinary section names
          Alphabet,  \* sequence of option atoms: "k1", "op", "use X", ...
          MaxOpts,   \* options per ordinary section
          MaxDflt,   \* options of the default section (9: never present)
          Ecls,      \* exception control levels
          Roots,     \* sections to parse
          Flags      \* <<init, fin>> pairs

\* values for the constants, named in the .cfg files
SecsAB == <<"A", "B">>
SecsABC == <<"A", "B", "C">>
Alpha6 == <<"k1", "k2", "op x", "use A", "use B", "use DEFAULT">>
AlphaU == <<"k1", "use A", "use B", "use C">>
AlphaS == <<"k1", "op x", "use A", "use B", "use MISSING">>
FlagsTT == {<<TRUE, TRUE>>}
FlagsAll == {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>}

VARIABLES c, stack, a, pc
vars == <<c, stack, a, pc>>

Dflt == "DEFAULT"
H0 == <<<<"op", "pub", "d", "log", "0">>>>

Atom(s, x) == IF StartsWith(x, "use") THEN <<x, "n", "">> ELSE <<x, "s", s \o ":" \o x>>
Injective(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
SeqsUpTo(n) == {q \in UNION {[1..m -> 1..Len(Alphabet)] : m \in 0..n} : Injective(q)}
OptsFrom(s, q) == [i \in 1..Len(q) |-> Atom(s, Alphabet[q[i]])]

Configs ==
    LET ord == [1..Len(Secs) -> SeqsUpTo(MaxOpts)]
        Body(f) == [i \in 1..Len(Secs) |-> <<Secs[i], OptsFrom(Secs[i], f[i])>>]
    IN {Body(f) : f \in ord} \cup
       {<<<<Dflt, OptsFrom(Dflt, q)>>>> \o Body(f) : f \in ord, q \in IF MaxDflt = 9 THEN {} ELSE SeqsUpTo(MaxDflt)}

Init ==
    /\ \E cfg \in Configs, e \in Ecls, r \in Roots, fl \in Flags :
         c = [cfg |-> cfg, dflt |-> Dflt, H |-> H0, ecl |-> e, root |-> r, init |-> fl[1], fin |-> fl[2]]
    /\ stack = <<>>
    /\ a = Empty
    /\ pc = "start"

\* A frame: <<section, next option, the `use` event that opened it or <<>> >>
Enter(s, u) == <<s, 1, u>>
ActiveOf(st) == {st[i][1] : i \in 1..Len(st)}
              \cup (IF pc = "default" THEN {c.root} ELSE {})

Start ==
    /\ pc = "start"
    /\ LET a1 == IF c.init THEN RunEdge(c, "initialize", a) ELSE a IN
       IF c.init /\ c.root # c.dflt /\ HasSec(c.cfg, c.dflt)
       THEN pc' = "default" /\ stack' = <<Enter(c.dflt, <<>>)>> /\ a' = [a1 EXCEPT !.vis = @ \cup {c.dflt}]
       ELSE pc' = "goto_root" /\ stack' = <<>> /\ a' = a1
    /\ UNCHANGED c

GotoRoot ==
    /\ pc = "goto_root"
    /\ IF HasSec(c.cfg, c.root)
       THEN /\ pc' = "root" /\ stack' = <<Enter(c.root, <<>>)>>
            /\ a' = [a EXCEPT !.vis = @ \cup {c.root}]
       ELSE pc' = "done" /\ stack' = <<>> /\ a' = [a EXCEPT !.err = "KeyError"]
    /\ UNCHANGED c

Top == stack[Len(stack)]
Advance == [stack EXCEPT ![Len(stack)] = <<@[1], @[2] + 1, @[3]>>]

\* one option of the section on top of the stack
Opt ==
    /\ pc \in {"default", "root"} /\ stack # <<>>
    /\ Top[2] <= Len(OptsOf(c.cfg, Top[1]))
    /\ LET sec == Top[1]
           o == OptsOf(c.cfg, sec)[Top[2]]
           w == Shlex(o[1]).w
           v == Seen(OptsOf(c.cfg, sec), o).v
       IN IF w[1] = "use"
          THEN LET t == w[2]
                   b == [a EXCEPT !.ev = Append(@, Ev("enter", "handler_use", "", c.root, "use", <<t>>, o[1], v, <<>>))]
                   x == Ev("exit", "handler_use", "", c.root, "use", <<t>>, o[1], v, <<>>)
               IN IF t \in ActiveOf(stack)
                  THEN IF c.ecl >= 5
                       THEN a' = [b EXCEPT !.err = "ValueError"] /\ pc' = "done" /\ stack' = <<>>
                       ELSE a' = [b EXCEPT !.ev = Append(@, x)] /\ stack' = Advance /\ pc' = pc
                  ELSE IF ~HasSec(c.cfg, t)
                       THEN a' = [b EXCEPT !.err = "KeyError"] /\ pc' = "done" /\ stack' = <<>>
                  ELSE a' = [b EXCEPT !.vis = @ \cup {t}] /\ stack' = Append(Advance, Enter(t, x)) /\ pc' = pc
          ELSE /\ a' = IF w[1] = "op"
                       THEN RunHandler(c, c.H[1], "handler_op", sec, "op", Tail(w), o[1], v, a)
                       ELSE Generic(c, o[1], v, a)
               /\ stack' = Advance /\ pc' = pc
    /\ UNCHANGED c

\* the section on top is finished
Leave ==
    /\ pc \in {"default", "root"} /\ stack # <<>>
    /\ Top[2] > Len(OptsOf(c.cfg, Top[1]))
    /\ stack' = Front(stack)
    /\ a' = IF Top[3] = <<>> THEN a ELSE [a EXCEPT !.ev = Append(@, Top[3])]
    /\ pc' = IF Len(stack) > 1 THEN pc ELSE IF pc = "default" THEN "goto_root" ELSE "finish"
    /\ UNCHANGED c

Finish ==
    /\ pc = "finish"
    /\ a' = IF c.fin THEN RunEdge(c, "finalize", a) ELSE a
    /\ pc' = "done" /\ UNCHANGED <<c, stack>>

Report ==
    /\ pc = "done"
    /\ PrintT("CASE " \o ToJson([cfg |-> c.cfg, ecl |-> c.ecl, root |-> c.root, init |-> c.init, fin |-> c.fin,
                                 err |-> a.err, data |-> a.data, ev |-> a.ev, log |-> a.log]))
    /\ pc' = "reported" /\ UNCHANGED <<c, stack, a>>

Next == Start \/ GotoRoot \/ Opt \/ Leave \/ Finish \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------- properties
\* C02: every parse comes to an end
Terminates == <>(pc = "reported")

\* no section is entered while it is being expanded: the stack is bounded
NoReentry ==
    /\ \A i, j \in 1..Len(stack) : i # j => stack[i][1] # stack[j][1]
    /\ Len(stack) <= Len(c.cfg)

\* the machine computes the recursive definition
Refines == pc = "done" => a = Parse(c)

\* C01, declaratively: visits in expansion order; the first visit gives the
\* position, the last one the value
RECURSIVE Visits(_, _), VisitsFrom(_, _, _)
VisitsFrom(s, act, i) ==
    LET os == OptsOf(c.cfg, s) IN
    IF i > Len(os) THEN <<>>
    ELSE LET w == WordsOf(os[i][1]) IN
         (IF w[1] = "use" THEN IF w[2] \in act THEN <<>> ELSE Visits(w[2], act)
          ELSE IF w[1] = "op" THEN <<>> ELSE <<os[i]>>) \o VisitsFrom(s, act, i + 1)
Visits(s, act) == VisitsFrom(s, act \cup {s}, 1)
AllVisits == (IF c.init /\ c.root # c.dflt /\ HasSec(c.cfg, c.dflt) THEN Visits(c.dflt, {c.root}) ELSE <<>>)
             \o Visits(c.root, {})
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Declarative ==
    (pc = "done" /\ a.err = "") =>
       LET V == AllVisits
           At(k) == {i \in 1..Len(V) : V[i][1] = k}
           ks == {V[i][1] : i \in 1..Len(V)}
       IN /\ {a.data[i][1] : i \in 1..Len(a.data)} = ks
          /\ Len(a.data) = Cardinality(ks)
          /\ \A i \in 1..Len(a.data) : a.data[i][3] = V[Max(At(a.data[i][1]))][3]
          /\ \A i, j \in 1..Len(a.data) : i < j => Min(At(a.data[i][1])) < Min(At(a.data[j][1]))

\* C03: enter/exit notifications are properly nested; initialize first,
\* finalize last, once each
RECURSIVE Nested(_, _, _)
Nested(ev, i, open) ==
    IF i > Len(ev) THEN open = <<>>
    ELSE CASE ev[i][1] = "enter" -> Nested(ev, i + 1, Append(open, <<ev[i][2], ev[i][7]>>))
           [] ev[i][1] = "exit" -> open # <<>> /\ Last(open) = <<ev[i][2], ev[i][7]>> /\ Nested(ev, i + 1, Front(open))
           [] OTHER -> Nested(ev, i + 1, open)
Count(ev, h) == Cardinality({i \in 1..Len(ev) : ev[i][1] = "call" /\ ev[i][2] = h})
WellFormed ==
    (pc = "done" /\ a.err = "") =>
       /\ Nested(a.ev, 1, <<>>)
       /\ Count(a.ev, "handler_initialize") = (IF c.init THEN 1 ELSE 0)
       /\ Count(a.ev, "handler_finalize") = (IF c.fin THEN 1 ELSE 0)
       /\ c.init => a.ev[2][2] = "handler_initialize"
       /\ c.fin => a.ev[Len(a.ev)][2] = "handler_finalize"
       /\ Len(a.log) = Count(a.ev, "handler_op")

\* C02: the level only matters for cutting: below 5 a cycle is never an error
OnlyCycles ==
    pc = "done" => (a.err = "ValueError" => c.ecl >= 5) /\ (c.ecl < 5 => a.err \in {"", "KeyError"})
=============================================================================
