----------------------------- MODULE MC_Control -----------------------------
(* Two instances, all settings, all event classes: complete. *)
EXTENDS Control, Json
VARIABLES objs, hist
vars == <<objs, hist>>
Msgs == {<<>>, <<"msg">>, <<"">>, <<"two\nlines {x} %s">>}
Events == {<<"event", <<t, e, m>>>> : t \in EventTypes \cup {"minor", "Serious"}, e \in {"ValueError", "KeyError", "Custom"}, m \in Msgs}
Sets == {<<"level", v>> : v \in {<<"int", n>> : n \in -1..6} \cup {<<"bad", "ValueError">>, <<"bad", "TypeError">>}}
    \cup {<<op, v>> : op \in {"silent", "compact"}, v \in {<<"bool", "T">>, <<"bool", "F">>, <<"bad", "int">>, <<"bad", "str">>}}
Alphabet == Events \cup Sets \cup {<<"event", <<"NOPE", "ValueError", <<>>>>>>, <<"read", <<>>>>}

Init == objs = <<NewCtl, NewCtl>> /\ hist = <<>>
\* the first instance is exercised, the second one only watched
Next == \E c \in Alphabet :
          LET x == Do(<<>>, objs[1], c[1], c[2]) IN
          /\ objs' = [objs EXCEPT ![1] = x.o]
          /\ hist' = IF x.o = objs[1] THEN hist ELSE Append(hist, c)
          /\ PrintT("CASE " \o ToJson([hist |-> hist, call |-> c, r |-> x.r, other |-> Do(<<>>, objs[2], "read", <<>>).r]))
Spec == Init /\ [][Next]_vars
View == objs

Raised(t) == Do(<<>>, objs[1], "event", <<t, "ValueError", <<"m">>>>).r[1] = "err"
Weight == <<"SILENT", "WARNING", "MINOR", "SERIOUS", "CRITICAL", "CATASTROPHIC">>
\* the more severe an event, the earlier it raises; the most severe one always does
Monotone == \A i, j \in 1..6 : (i <= j /\ Raised(Weight[i])) => Raised(Weight[j])
AlwaysCatastrophic == Raised("CATASTROPHIC")
Isolated == objs[2] = NewCtl
InRange == objs[1].level \in 0..5
=============================================================================
