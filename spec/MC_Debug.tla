------------------------------ MODULE MC_Debug ------------------------------
(***************************************************************************)
(* Debug output: all levels, messages, endings and prefixes, from every    *)
(* setting of two instances; complete.                                     *)
(***************************************************************************)
EXTENDS Control, Json
CONSTANTS Levels
VARIABLES objs, hist
vars == <<objs, hist>>
Msgs == {"", "m", "two\nlines", "[D-1] m", "%s {x}"}
Ends == {"\n", "", "--"}
Debugs == {<<"debug", <<n, m, e, p>>>> : n \in Levels \cup {-1}, m \in Msgs, e \in Ends, p \in {"T", "F"}}
Sets == {<<"dbg", <<"int", n>>>> : n \in Levels \cup {-2}} \cup {<<"dbg", <<"bad", c>>>> : c \in {"ValueError", "TypeError"}}
    \cup {<<"level", <<"int", n>>>> : n \in {0, 5}} \cup {<<"silent", <<"bool", "T">>>>}
Alphabet == Debugs \cup Sets \cup {<<"read", <<>>>>, <<"event", <<"MINOR", "ValueError", <<"m">>>>>>}

Init == objs = <<NewCtl, NewCtl>> /\ hist = <<>>
Next == \E c \in Alphabet :
          LET x == Do(<<>>, objs[1], c[1], c[2]) IN
          /\ objs' = [objs EXCEPT ![1] = x.o]
          /\ hist' = IF x.o = objs[1] THEN hist ELSE Append(hist, c)
          /\ PrintT("CASE " \o ToJson([hist |-> hist, call |-> c, r |-> x.r, other |-> Do(<<>>, objs[2], "read", <<>>).r]))
Spec == Init /\ [][Next]_vars
View == objs

Out(o, c) == Do(<<>>, o, c[1], c[2]).r[2]
\* a message is shown at every level from its own on, and then always the same text
Gate == \A c \in Debugs : \A d \in Levels :
          LET o == [objs[1] EXCEPT !.dbg = d] IN
          Out(o, c) = IF d < c[2][1] THEN "" ELSE Out([o EXCEPT !.dbg = 1000], c)
\* events do not depend on the debug level, messages on nothing else
Neutral == \A d \in Levels : \A t \in EventTypes :
             Do(<<>>, [objs[1] EXCEPT !.dbg = d], "event", <<t, "KeyError", <<>>>>).r = Do(<<>>, objs[1], "event", <<t, "KeyError", <<>>>>).r
Alone == \A c \in Debugs : Out(objs[1], c) = Out([NewCtl EXCEPT !.dbg = objs[1].dbg], c)
NotNegative == objs[1].dbg >= 0
Isolated == objs[2] = NewCtl
=============================================================================
