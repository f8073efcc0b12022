------------------------------ MODULE Resolve -------------------------------
(***************************************************************************)
(* One parse of a root section: the depth-first walk over the `use` graph. *)
(*                                                                         *)
(* A context c fixes what does not change during a parse:                  *)
(*   cfg    the loaded configuration (Ini)                                 *)
(*   dflt   name of the default section                                    *)
(*   H      the handlers of the class: <<op, vis, deco, act, rv>> with vis *)
(*          "pub" | "priv" | "both", deco "d" if the handler is wrapped by *)
(*          the operation_handler decorator, act "log" | "none" | "raise" | "vandal" | *)
(*          "arg1" (does nothing but needs a parameter),                   *)
(*          rv the returned value ("x" stands for a non-integer)           *)
(*   ecl    exception control level                                        *)
(*   root   the section being parsed, init/fin the two flags               *)
(*                                                                         *)
(* The accumulator a is what a parse produces:                             *)
(*   ev     events, in order (see Ev)                                      *)
(*   data   resolved options of the root: <<key, tag, text>>               *)
(*   vis    sections that were entered                                     *)
(*   log    the shared dictionary (the list handlers append to)            *)
(*   err    "" or the class of the exception that ended the parse          *)
(***************************************************************************)
EXTENDS Ini

Ev(e, h, sec, root, op, params, k, v, log) == <<e, h, sec, root, op, params, k, v[1], v[2], log>>
NoV == <<"n", "">>

\* exception control: the level from which an event class raises
Required(cls) == CASE cls = "SILENT" -> 5 [] cls = "WARNING" -> 5 [] cls = "MINOR" -> 4
                   [] cls = "SERIOUS" -> 3 [] cls = "CRITICAL" -> 2 [] cls = "CATASTROPHIC" -> 0
Raises(ecl, cls) == ecl >= Required(cls)

HOf(H, op) == LET S == {i \in 1..Len(H) : H[i][1] = op} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

OpOf(word) == Replace(word, "-", "_")
IsOpWord(word) == word # "" /\ AllIn(word, WordChar \cup {"-"})

\* what a handler returned decides how the parse goes on
RvErr(c, rv) == IF StartsWith(rv, "x") THEN "TypeError"
                ELSE IF rv \in {"0", "False"} THEN ""
                ELSE IF rv \in {"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "-1", "-7", "True"}
                     THEN IF Raises(c.ecl, "WARNING") THEN "RuntimeError" ELSE ""
                ELSE "RuntimeError"

LogEntry(sec, op, params, v) == sec \o "|" \o op \o "|" \o Join(params, ",") \o "|" \o v[2]

\* a user-defined handler runs for one option
RunHandler(c, h, name, sec, op, params, k, v, a) ==
    LET deco == h[3] = "d"
        a1 == IF deco THEN [a EXCEPT !.ev = Append(@, Ev("enter", name, "", c.root, op, params, k, v, <<>>))] ELSE a
        a2 == [a1 EXCEPT !.ev = Append(@, Ev("call", name, sec, c.root, op, params, k, v, a.log))]
        a3 == IF h[4] = "log" THEN [a2 EXCEPT !.log = Append(@, LogEntry(sec, op, params, v))] ELSE a2
    IN IF h[4] = "raise" THEN [a2 EXCEPT !.err = "Boom"]
       ELSE IF h[4] = "arg1" /\ params = <<>> THEN [a2 EXCEPT !.err = "IndexError"]
       ELSE IF ~deco THEN a3
       ELSE LET a4 == [a3 EXCEPT !.ev = Append(@,
                           IF h[4] = "vandal"       \* the handler scribbled over its parameter object
                           THEN Ev("exit", name, "", c.root, "junk", Append(params, "junk"), "junk", <<"s", "junk">>, <<>>)
                           ELSE Ev("exit", name, "", c.root, op, params, k, v, <<>>))]
            IN [a4 EXCEPT !.err = RvErr(c, h[5])]

\* initialize and finalize handlers (overridden so that they are observable)
RunEdge(c, edge, a) ==
    LET name == "handler_" \o edge
        i == HOf(c.H, edge)
        h == IF i = 0 THEN <<edge, "pub", "d", "none", "0">> ELSE c.H[i]
        a1 == [a EXCEPT !.ev = @ \o <<Ev("enter", name, "", c.root, "", <<>>, "", NoV, <<>>),
                                      Ev("call", name, c.root, c.root, "", <<>>, "", NoV, a.log)>>]
        a2 == IF h[4] = "log" THEN [a1 EXCEPT !.log = Append(@, LogEntry(c.root, edge, <<>>, NoV))] ELSE a1
    IN IF h[4] = "raise" THEN [a1 EXCEPT !.err = "Boom"]
       ELSE [a2 EXCEPT !.ev = Append(@, Ev("exit", name, "", c.root, "", <<>>, "", NoV, <<>>)),
                       !.err = RvErr(c, h[5])]

Generic(c, k, v, a) ==
    [a EXCEPT !.data = Put(@, <<k, v[1], v[2]>>),
              !.ev = @ \o <<Ev("enter", "generic", "", c.root, "", <<>>, k, v, <<>>),
                            Ev("exit", "generic", "", c.root, "", <<>>, k, v, <<>>)>>]

RECURSIVE WalkSec(_, _, _, _), WalkOpts(_, _, _, _, _)

\* the `use` operation: expand the target unless it is being expanded already
Use(c, act, sec, params, k, v, a) ==
    LET a1 == [a EXCEPT !.ev = Append(@, Ev("enter", "handler_use", "", c.root, "use", params, k, v, <<>>))]
        Done(b) == IF b.err # "" THEN b
                   ELSE [b EXCEPT !.ev = Append(@, Ev("exit", "handler_use", "", c.root, "use", params, k, v, <<>>))]
    IN IF params = <<>> THEN [a1 EXCEPT !.err = "IndexError"]
       ELSE IF params[1] \in act
            THEN IF Raises(c.ecl, "WARNING") THEN [a1 EXCEPT !.err = "ValueError"] ELSE Done(a1)
       ELSE Done(WalkSec(c, act, params[1], a1))

\* one option of section sec
Option(c, act, sec, opts, o, a) ==
    LET k == Strip(o[1])
        s == Seen(opts, o)
        v == s.v
        t == Shlex(k)
    IN IF s.err # "" THEN [a EXCEPT !.err = s.err]
       ELSE IF ~t.ok THEN [a EXCEPT !.err = "ValueError"]
       ELSE IF ~IsOpWord(t.w[1]) THEN Generic(c, k, v, a)
       ELSE LET op == OpOf(t.w[1])
                params == Tail(t.w)
                i == HOf(c.H, op)
            IN IF i # 0 THEN
                    LET h == c.H[i] IN
                    IF h[2] = "both" /\ Raises(c.ecl, "SERIOUS")
                    THEN [a EXCEPT !.err = "AmbiguousHandlerError"]
                    ELSE RunHandler(c, h, IF h[2] = "priv" THEN "_handler_" \o op ELSE "handler_" \o op,
                                    sec, op, params, k, v, a)
               ELSE IF op = "use" THEN Use(c, act, sec, params, k, v, a)
               ELSE Generic(c, k, v, a)

WalkOpts(c, act, sec, i, a) ==
    IF a.err # "" THEN a
    ELSE LET opts == OptsOf(c.cfg, sec) IN
      IF i > Len(opts) THEN a
      ELSE WalkOpts(c, act, sec, i + 1, Option(c, act, sec, opts, opts[i], a))

WalkSec(c, act, sec, a) ==
    IF ~HasSec(c.cfg, sec) THEN [a EXCEPT !.err = "KeyError"]
    ELSE WalkOpts(c, act \cup {sec}, sec, 1, [a EXCEPT !.vis = @ \cup {sec}])

Empty == [ev |-> <<>>, data |-> <<>>, vis |-> {}, log |-> <<>>, err |-> ""]

\* a whole parse
Parse(c) ==
    LET a1 == IF c.init THEN RunEdge(c, "initialize", Empty) ELSE Empty
        a2 == IF a1.err # "" THEN a1 ELSE IF c.init /\ c.root # c.dflt /\ HasSec(c.cfg, c.dflt)
              THEN WalkSec(c, {c.root}, c.dflt, a1) ELSE a1
        a3 == IF a2.err # "" THEN a2 ELSE WalkSec(c, {}, c.root, a2)
    IN IF a3.err # "" \/ ~c.fin THEN a3 ELSE RunEdge(c, "finalize", a3)

\* The handlers that ran, without the enter/exit notifications
Calls(ev) == SelectSeq(ev, LAMBDA e : e[1] = "call")
=============================================================================
