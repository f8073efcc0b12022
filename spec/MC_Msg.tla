------------------------------- MODULE MC_Msg -------------------------------
(***************************************************************************)
(* Every message of short texts over a letter, a blank and a newline.      *)
(***************************************************************************)
EXTENDS Msg, Json
CONSTANTS TextLen, ExtraLen, ItemLen
VARIABLES call

Alpha == {"a", " ", "\n"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE Texts(n - 1) \cup {t \o c : t \in Texts(n - 1), c \in Alpha}
Its == {<<>>} \cup {<<x>> : x \in Texts(ItemLen)} \cup {<<x, y>> : x \in Texts(1), y \in {"a", "b b", "a\n", ""}}
Rest(m) == {<<"msg", <<m, k, e>>>> : k \in {<<>>, <<"INFO">>}, e \in {<<>>} \cup {<<x>> : x \in Texts(ExtraLen)}}
           \cup IF Len(m) > ExtraLen THEN {}
                ELSE {<<"list", <<m, i, k, e>>>> : i \in Its, k \in {<<>>, <<"W">>}, e \in {<<>>} \cup {<<x>> : x \in Texts(ExtraLen)}}

\* one state per text, one per message with that text
Emit(c) == PrintT("CASE " \o ToJson([call |-> c, r |-> Do(<<>>, <<>>, c[1], c[2]).r]))
Init == call \in {<<"", m>> : m \in Texts(TextLen)}
Next == call[1] = "" /\ \E c \in Rest(call[2]) : call' = c /\ Emit(c)
Spec == Init /\ [][Next]_call

Reply == Do(<<>>, <<>>, call[1], call[2]).r[2]
Shown == Lines(Reply)
InFrame == call[1] # "" => Block(Reply)
\* every line of the text, every item and every extra line is shown, in order
AllShown == call[1] # "" =>
    LET sh == Shown
        extras == IF call[1] = "msg" THEN Opt(call[2][3], "") ELSE Opt(call[2][4], "")
        items == IF call[1] = "msg" THEN "" ELSE Bullets(call[2][2])
        want == Lines(call[2][1]) \o Lines(items \o extras)
    IN /\ Len(sh) = Len(want) + 3
       /\ \A i \in 1..Len(want) : LET t == RStripSet(want[i], Blank) IN
              SubSeq(sh[i + 2], Len(sh[i + 2]) - Len(t) + 1, Len(sh[i + 2])) = t
=============================================================================
