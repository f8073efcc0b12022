-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Character-level text operations on TLC strings.  TLC evaluates Len,     *)
(* SubSeq and \o on strings, so a string is used as a sequence of          *)
(* one-character strings.  Everything here is a total function.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
CharSet(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

RECURSIVE JoinFrom(_, _, _)
JoinFrom(seq, sep, i) ==
    IF i > Len(seq) THEN ""
    ELSE IF i = Len(seq) THEN seq[i]
    ELSE seq[i] \o sep \o JoinFrom(seq, sep, i + 1)
Join(seq, sep) == JoinFrom(seq, sep, 1)
Concat(seq) == Join(seq, "")

Blank == {" ", "\t", "\n", "\r", "\f"}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
\* \w of the implementation's regular expressions, for the characters the
\* drivers use (ASCII, and the listed non-ASCII letters).
WordChar == CharSet(Lower) \cup CharSet(Upper) \cup CharSet(Digits) \cup {"_", "é", "λ", "Ж", "ß"}

RECURSIVE FirstNotIn(_, _, _)
FirstNotIn(s, cs, i) == IF i > Len(s) THEN i
                        ELSE IF Ch(s, i) \in cs THEN FirstNotIn(s, cs, i + 1) ELSE i
RECURSIVE LastNotIn(_, _, _)
LastNotIn(s, cs, i) == IF i < 1 THEN i
                       ELSE IF Ch(s, i) \in cs THEN LastNotIn(s, cs, i - 1) ELSE i
StripSet(s, cs) == LET a == FirstNotIn(s, cs, 1)
                       b == LastNotIn(s, cs, Len(s))
                   IN IF a > b THEN "" ELSE SubSeq(s, a, b)
RStripSet(s, cs) == SubSeq(s, 1, LastNotIn(s, cs, Len(s)))
Strip(s) == StripSet(s, Blank)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
AtPos(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

\* position of the first occurrence of p in s at or after i, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
                     ELSE FindFrom(s, p, i + 1)
Contains(s, p) == FindFrom(s, p, 1) # 0
HasChar(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

\* non-overlapping replacement from the left, p non-empty
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, p, r, i) ==
    LET j == FindFrom(s, p, i)
    IN IF j = 0 THEN SubSeq(s, i, Len(s))
       ELSE SubSeq(s, i, j - 1) \o r \o ReplaceFrom(s, p, r, j + Len(p))
Replace(s, p, r) == IF p = "" THEN s ELSE ReplaceFrom(s, p, r, 1)

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, p, i) ==
    LET j == FindFrom(s, p, i)
    IN IF j = 0 THEN <<SubSeq(s, i, Len(s))>>
       ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, p, j + Len(p))
Split(s, p) == SplitFrom(s, p, 1)

\* split at runs of blanks, without empty pieces (str.split())
WordsOf(s) == SelectSeq(Split(Replace(Replace(Replace(s, "\t", " "), "\n", " "), "\r", " "), " "),
                        LAMBDA w : w # "")

LowerChar(c) == LET j == FindFrom(Upper, c, 1)
                IN IF c = "" THEN c ELSE IF j = 0 THEN c ELSE Ch(Lower, j)
ToLower(s) == Concat([i \in 1..Len(s) |-> LowerChar(Ch(s, i))])
UpperChar(c) == LET j == FindFrom(Lower, c, 1)
                IN IF c = "" THEN c ELSE IF j = 0 THEN c ELSE Ch(Upper, j)
ToUpper(s) == Concat([i \in 1..Len(s) |-> UpperChar(Ch(s, i))])

\* the order of the characters the drivers use in names that get sorted
Order == "!#$%&+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharLess(a, b) == FindFrom(Order, a, 1) < FindFrom(Order, b, 1)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE
                     ELSE IF i > Len(a) THEN TRUE
                     ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1)
                     ELSE CharLess(Ch(a, i), Ch(b, i))
StrLess(a, b) == LessFrom(a, b, 1)
RECURSIVE InsertSorted(_, _)
InsertSorted(seq, x) == IF seq = <<>> THEN <<x>>
                        ELSE IF StrLess(x, Head(seq)) THEN <<x>> \o seq
                        ELSE <<Head(seq)>> \o InsertSorted(Tail(seq), x)
RECURSIVE SortStrings(_)
SortStrings(seq) == IF seq = <<>> THEN <<>>
                    ELSE InsertSorted(SortStrings(Front(seq)), Last(seq))

(***************************************************************************)
(* POSIX shell word splitting (quotes, escapes, no comments), as a state   *)
(* machine over the characters.  Result [ok |-> BOOLEAN, w |-> words].     *)
(*   st: "ws" between words, "w" in a word, "'" or "\"" in quotes,         *)
(*       "\\" after a backslash (es is the state to return to)             *)
(***************************************************************************)
RECURSIVE ShScan(_, _, _, _, _, _, _)
ShScan(s, i, st, es, tok, q, ws) ==
    IF i > Len(s)
    THEN IF st \in {"'", "\"", "\\"} THEN [ok |-> FALSE, w |-> <<>>]
         ELSE [ok |-> TRUE, w |-> IF st = "w" /\ (tok # "" \/ q) THEN Append(ws, tok) ELSE ws]
    ELSE LET c == Ch(s, i) IN
      CASE st = "ws" ->
             IF c \in {" ", "\t", "\r", "\n"} THEN ShScan(s, i + 1, "ws", es, "", FALSE, ws)
             ELSE IF c \in {"'", "\""} THEN ShScan(s, i + 1, c, "w", "", TRUE, ws)
             ELSE IF c = "\\" THEN ShScan(s, i + 1, "\\", "w", "", FALSE, ws)
             ELSE ShScan(s, i + 1, "w", es, c, FALSE, ws)
        [] st = "w" ->
             IF c \in {" ", "\t", "\r", "\n"}
             THEN ShScan(s, i + 1, "ws", es, "", FALSE,
                         IF tok # "" \/ q THEN Append(ws, tok) ELSE ws)
             ELSE IF c \in {"'", "\""} THEN ShScan(s, i + 1, c, "w", tok, TRUE, ws)
             ELSE IF c = "\\" THEN ShScan(s, i + 1, "\\", "w", tok, q, ws)
             ELSE ShScan(s, i + 1, "w", es, tok \o c, q, ws)
        [] st = "'" ->
             IF c = "'" THEN ShScan(s, i + 1, "w", es, tok, TRUE, ws)
             ELSE ShScan(s, i + 1, "'", es, tok \o c, TRUE, ws)
        [] st = "\"" ->
             IF c = "\"" THEN ShScan(s, i + 1, "w", es, tok, TRUE, ws)
             ELSE IF c = "\\" THEN ShScan(s, i + 1, "\\", "\"", tok, TRUE, ws)
             ELSE ShScan(s, i + 1, "\"", es, tok \o c, TRUE, ws)
        [] st = "\\" ->
             IF es = "\"" /\ c # "\\" /\ c # "\""
             THEN ShScan(s, i + 1, "\"", es, tok \o "\\" \o c, q, ws)
             ELSE ShScan(s, i + 1, es, es, tok \o c, q, ws)
Shlex(s) == ShScan(s, 1, "ws", "w", "", FALSE, <<>>)

AllIn(s, cs) == \A i \in 1..Len(s) : Ch(s, i) \in cs
=============================================================================
