------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* The regular expressions of supported-systems.ini: characters, ".",      *)
(* classes, escapes, groups, alternation, "*", "+", "?", "^" and "$".      *)
(* A pattern is parsed to a tree; Ends(n, s, P) are the positions where a  *)
(* match of n in s started at a position of P can end.                     *)
(***************************************************************************)
EXTENDS Text

BadNode == [t |-> "bad"]
SetNode(cs, neg) == [t |-> "set", cs |-> cs, neg |-> neg]
EscNode(c) == IF c = "d" THEN SetNode(CharSet(Digits), FALSE)
              ELSE IF c = "w" THEN SetNode(WordChar, FALSE)
              ELSE SetNode({c}, FALSE)

\* members of a class from position i up to "]": [ok, cs, i]
RECURSIVE ClassFrom(_, _, _)
ClassFrom(p, i, cs) ==
    IF i > Len(p) THEN [ok |-> FALSE, cs |-> cs, i |-> i]
    ELSE LET c == Ch(p, i) IN
      IF c = "]" THEN [ok |-> TRUE, cs |-> cs, i |-> i + 1]
      ELSE IF i + 2 <= Len(p) /\ Ch(p, i + 1) = "-" /\ Ch(p, i + 2) # "]"
           THEN LET a == FindFrom(Order, c, 1)
                    b == FindFrom(Order, Ch(p, i + 2), 1)
                IN IF a > b THEN [ok |-> FALSE, cs |-> cs, i |-> i]
                   ELSE ClassFrom(p, i + 3, cs \cup {Ch(Order, j) : j \in a..b})
      ELSE ClassFrom(p, i + 1, cs \cup {c})

\* alternatives / sequence / one item with its repetition: [n, i]
RECURSIVE AltAt(_, _), SeqAt(_, _, _), AtomAt(_, _), RepAt(_, _, _)
AtomAt(p, i) ==
    LET c == Ch(p, i) IN
    CASE c = "." -> [n |-> SetNode({"\n"}, TRUE), i |-> i + 1]
      [] c = "^" -> [n |-> [t |-> "bol"], i |-> i + 1]
      [] c = "$" -> [n |-> [t |-> "eol"], i |-> i + 1]
      [] c \in {"*", "+", "?"} -> [n |-> BadNode, i |-> Len(p) + 1]
      [] c = "\\" -> IF i = Len(p) THEN [n |-> BadNode, i |-> i + 1] ELSE [n |-> EscNode(Ch(p, i + 1)), i |-> i + 2]
      [] c = "[" -> LET neg == i < Len(p) /\ Ch(p, i + 1) = "^"
                        k == ClassFrom(p, IF neg THEN i + 2 ELSE i + 1, {})
                    IN IF k.ok THEN [n |-> SetNode(k.cs, neg), i |-> k.i] ELSE [n |-> BadNode, i |-> Len(p) + 1]
      [] c = "(" -> LET a == AltAt(p, i + 1)
                    IN IF a.i <= Len(p) /\ Ch(p, a.i) = ")" THEN [n |-> a.n, i |-> a.i + 1]
                       ELSE [n |-> BadNode, i |-> Len(p) + 1]
      [] OTHER -> [n |-> SetNode({c}, FALSE), i |-> i + 1]
RepAt(n, p, i) ==
    IF i > Len(p) THEN [n |-> n, i |-> i]
    ELSE IF Ch(p, i) = "*" THEN [n |-> [t |-> "star", a |-> n], i |-> i + 1]
    ELSE IF Ch(p, i) = "+" THEN [n |-> [t |-> "cat", a |-> n, b |-> [t |-> "star", a |-> n]], i |-> i + 1]
    ELSE IF Ch(p, i) = "?" THEN [n |-> [t |-> "alt", a |-> n, b |-> [t |-> "empty"]], i |-> i + 1]
    ELSE [n |-> n, i |-> i]
SeqAt(p, i, n) ==
    IF i > Len(p) THEN [n |-> n, i |-> i]
    ELSE IF Ch(p, i) \in {"|", ")"} THEN [n |-> n, i |-> i]
    ELSE LET a == AtomAt(p, i)
             r == RepAt(a.n, p, a.i)
         IN SeqAt(p, r.i, [t |-> "cat", a |-> n, b |-> r.n])
AltAt(p, i) ==
    LET s == SeqAt(p, i, [t |-> "empty"]) IN
    IF s.i <= Len(p) /\ Ch(p, s.i) = "|"
    THEN LET r == AltAt(p, s.i + 1) IN [n |-> [t |-> "alt", a |-> s.n, b |-> r.n], i |-> r.i]
    ELSE s
Tree(p) == LET a == AltAt(p, 1) IN IF a.i <= Len(p) THEN BadNode ELSE a.n

RECURSIVE IsBad(_)
IsBad(n) == CASE n.t = "bad" -> TRUE
              [] n.t \in {"cat", "alt"} -> IsBad(n.a) \/ IsBad(n.b)
              [] n.t = "star" -> IsBad(n.a)
              [] OTHER -> FALSE

RECURSIVE Ends(_, _, _), StarEnds(_, _, _)
StarEnds(n, s, P) == LET Q == P \cup Ends(n, s, P) IN IF Q = P THEN P ELSE StarEnds(n, s, Q)
Ends(n, s, P) ==
    CASE n.t = "empty" -> P
      [] n.t = "set" -> {i + 1 : i \in {j \in P : j <= Len(s) /\ ((Ch(s, j) \in n.cs) # n.neg)}}
      [] n.t = "bol" -> P \cap {1}
      [] n.t = "eol" -> P \cap {Len(s) + 1}
      [] n.t = "cat" -> Ends(n.b, s, Ends(n.a, s, P))
      [] n.t = "alt" -> Ends(n.a, s, P) \cup Ends(n.b, s, P)
      [] n.t = "star" -> StarEnds(n.a, s, P)

\* "T" found, "F" not found, "bad" not a regular expression
Found(p, s) == LET n == Tree(p)
               IN IF IsBad(n) THEN "bad" ELSE IF Ends(n, s, 1..(Len(s) + 1)) # {} THEN "T" ELSE "F"
=============================================================================
