------------------------------- MODULE MC_Key -------------------------------
(***************************************************************************)
(* C04: every option key over an alphabet of characters, up to a length.   *)
(* A second definition of the shell's word splitting (a machine that takes *)
(* one character per step) is checked against Text!Shlex, and the option   *)
(* of every key is handled as Resolve prescribes; each case is printed to  *)
(* be replayed.                                                            *)
(***************************************************************************)
EXTENDS Resolve, Json, TLC

CONSTANTS Alphabet, MaxLen

AlphaQ == <<"o", "-", " ", "'", "\"", "\\">>
AlphaW == <<"o", "P", "_", "-", ".", " ", "1", "\t">>
AlphaT == <<"o", "p", "-", "_", " ", "'", "\"", "\\", ".">>

VARIABLES key, i, st, tok, words
vars == <<key, i, st, tok, words>>

H == <<<<"o", "pub", "d", "log", "0">>, <<"o_o", "priv", "d", "log", "0">>, <<"_", "pub", "d", "log", "0">>,
       <<"P", "pub", "d", "log", "0">>, <<"p_", "pub", "d", "log", "0">>>>

RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {""} ELSE {s \o Alphabet[j] : s \in Strs(n - 1), j \in 1..Len(Alphabet)}
\* keys as the standard library delivers them: no blanks around
Keys0 == {s \in UNION {Strs(n) : n \in 1..MaxLen} : s # "" /\ Strip(s) = s}

Init == key \in Keys0 /\ i = 1 /\ st = "between" /\ tok = "" /\ words = <<>>

\* one character
Step ==
    /\ st # "done" /\ i <= Len(key)
    /\ LET ch == Ch(key, i)
           white == ch \in {" ", "\t"}
           Take(t, x) == tok' = t /\ st' = x /\ words' = words
       IN CASE st = "between" /\ white -> Take("", "between")
            [] st = "word" /\ white -> tok' = "" /\ st' = "between" /\ words' = Append(words, tok)
            [] st \in {"between", "word"} /\ ch = "'" -> Take(tok, "single")
            [] st \in {"between", "word"} /\ ch = "\"" -> Take(tok, "double")
            [] st \in {"between", "word"} /\ ch = "\\" -> Take(tok, "escape")
            [] st \in {"between", "word"} /\ ~white /\ ch \notin {"'", "\"", "\\"} -> Take(tok \o ch, "word")
            [] st = "escape" -> Take(tok \o ch, "word")
            [] st = "single" -> IF ch = "'" THEN Take(tok, "word") ELSE Take(tok \o ch, "single")
            [] st = "double" -> IF ch = "\"" THEN Take(tok, "word")
                                ELSE IF ch = "\\" THEN Take(tok, "dqescape") ELSE Take(tok \o ch, "double")
            [] st = "dqescape" -> Take(IF ch \in {"\"", "\\"} THEN tok \o ch ELSE tok \o "\\" \o ch, "double")
    /\ i' = i + 1 /\ key' = key

Result == IF st \in {"single", "double", "escape", "dqescape"} THEN [ok |-> FALSE, w |-> <<>>]
          ELSE [ok |-> TRUE, w |-> IF st = "word" THEN Append(words, tok) ELSE words]

Ctx == [cfg |-> <<<<"A", <<<<key, "s", "v">>>>>>>>, dflt |-> "DEFAULT", H |-> H, ecl |-> 4, root |-> "A", init |-> TRUE, fin |-> TRUE]
Finish ==
    /\ st # "done" /\ i > Len(key)
    /\ Assert(Result = Shlex(key), <<"word splitting", key, Result>>)
    /\ LET a == Parse(Ctx)
       IN PrintT("CASE " \o ToJson([cfg |-> Ctx.cfg, H |-> H, ecl |-> 4, root |-> "A", init |-> TRUE, fin |-> TRUE,
                                    err |-> a.err, data |-> a.data, ev |-> a.ev, log |-> a.log]))
    /\ st' = "done" /\ UNCHANGED <<key, i, tok, words>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* an option is either handled (its key gone) or kept whole, never both or altered
HandledOrKept ==
    st = "done" =>
      LET a == Parse(Ctx) IN
      IF a.err # "" THEN a.err = "ValueError" /\ a.data = <<>> /\ a.log = <<>>
      ELSE \/ a.data = <<<<key, "s", "v">>>> /\ a.log = <<>>
           \/ a.data = <<>> /\ Len(a.log) = 1
\* a key of plain characters is the operation and its blank-separated words
Plain ==
    st = "done" /\ AllIn(key, WordChar \cup {" ", "-", ".", "\t"}) =>
      Shlex(key) = [ok |-> TRUE, w |-> WordsOf(key)]
=============================================================================
