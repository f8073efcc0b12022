-------------------------------- MODULE Msg ---------------------------------
(***************************************************************************)
(* The frame around every report of the environment tools.                 *)
(* The text is set line by line between two rules: its first line after    *)
(* the kind of message, further lines in the column of the first, then the *)
(* items of a list, one bullet each, then the extra lines.  No line of a   *)
(* report ends in blanks.                                                  *)
(***************************************************************************)
EXTENDS Text, TLC

Rule == "+==============================================================================+"
Ends == {" ", "\t"}
\* the lines of a text; a newline at its end begins no further line
Lines(t) == LET q == Split(t, "\n") IN IF q[Len(q)] = "" THEN Front(q) ELSE q
Body(msg, kind) == LET q == Lines(msg) IN [i \in 1..Len(q) |-> (IF i = 1 THEN kind \o ":  " ELSE "        ") \o q[i]]
Item(x) == "  - " \o x \o "\n"
Bullets(items) == Concat([i \in 1..Len(items) |-> Item(items[i])])

Framed(msg, kind, extras) ==
    LET inner == Body(msg, kind) \o Lines(extras)
        line(i) == RStripSet("|   " \o inner[i], Ends) \o "\n"
    IN "\n" \o Rule \o "\n" \o Concat([i \in 1..Len(inner) |-> line(i)]) \o Rule \o "\n"

\* a report is a framed block of its own: nothing escapes the frame, no line trails blanks
Block(text) == LET sh == Lines(text) IN
    /\ Len(sh) > 2 /\ sh[1] = "" /\ sh[2] = Rule /\ sh[Len(sh)] = Rule
    /\ \A i \in 3..(Len(sh) - 1) : StartsWith(sh[i], "|")
    /\ \A i \in 1..Len(sh) : RStripSet(sh[i], Ends) = sh[i]

\* a message is <<text, kind, extras>>, a list message <<text, items, kind, extras>>; an empty sequence leaves one out
Opt(q, d) == IF q = <<>> THEN d ELSE q[1]
NewInst(env, a) == <<>>
Do(env, o, op, a) ==
    [o |-> o, env |-> env,
     r |-> IF op = "msg" THEN <<"ok", Framed(a[1], Opt(a[2], "ERROR"), Opt(a[3], ""))>>
           ELSE <<"ok", Framed(a[1], Opt(a[3], "ERROR"), Bullets(a[2]) \o Opt(a[4], ""))>>]
=============================================================================
