------------------------------- MODULE EnvOps -------------------------------
(***************************************************************************)
(* Operations on environment variables.  The environment is an ordered map *)
(* <<name, value>>; exe is the sequence of executable files that exist.    *)
(***************************************************************************)
EXTENDS Ini

Has(env, n) == HasKey(env, n)
ValueOf(env, n) == env[PosOf(env, n)][2]
IdStart == CharSet(Lower) \cup CharSet(Upper) \cup {"_"}
IdChar == IdStart \cup CharSet(Digits)
IsId(s) == s # "" /\ Ch(s, 1) \in IdStart /\ AllIn(s, IdChar)

\* `$name` and `${name}`; a reference to a variable that is not set is left
\* alone, or (empty) dropped
RECURSIVE ExpandFrom(_, _, _, _)
ExpandFrom(env, s, i, drop) ==
    LET p == FindFrom(s, "$", i) IN
    IF p = 0 THEN SubSeq(s, i, Len(s))
    ELSE LET pre == SubSeq(s, i, p - 1)
             c == IF p < Len(s) THEN Ch(s, p + 1) ELSE ""
             q == IF c = "{" THEN FindFrom(s, "}", p + 2)
                  ELSE IF c \in IdChar THEN FirstNotIn(s, IdChar, p + 1) - 1 ELSE 0
             name == IF c = "{" THEN SubSeq(s, p + 2, q - 1) ELSE SubSeq(s, p + 1, q)
         IN IF c = "" \/ q = 0 THEN pre \o "$" \o ExpandFrom(env, s, p + 1, drop)
            ELSE pre \o (IF Has(env, name) THEN ValueOf(env, name)
                         ELSE IF drop /\ IsId(name) THEN "" ELSE SubSeq(s, p, q))
                     \o ExpandFrom(env, s, q + 1, drop)
Expand(env, s) == ExpandFrom(env, s, 1, FALSE)

\* first entry of PATH that has the executable
RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(dirs, exe, f, i) ==
    IF i > Len(dirs) THEN ""
    ELSE LET p == dirs[i] \o "/" \o f
         IN IF \E k \in 1..Len(exe) : exe[k] = p THEN p ELSE SearchFrom(dirs, exe, f, i + 1)
Search(env, exe, f) ==
    IF f = "" \/ ~Has(env, "PATH") THEN ""
    ELSE IF Ch(f, 1) = "/" THEN (IF \E k \in 1..Len(exe) : exe[k] = f THEN f ELSE "")
    ELSE SearchFrom(Split(ValueOf(env, "PATH"), ":"), exe, f, 1)

Good(env) == [env |-> env, err |-> ""]
Bad(env, c) == [env |-> env, err |-> c]

\* the operation with its expanded value x
Operate(env, exe, op, n, x) ==
    LET has == Has(env, n)
        old == ValueOf(env, n)
        To(y) == Good(Put(env, <<n, y>>))
    IN CASE op = "envvar_set" -> To(x)
         [] op = "envvar_set_if_empty" -> IF has /\ old # "" THEN Good(env) ELSE To(x)
         [] op = "envvar_append" -> To(IF has THEN old \o ":" \o x ELSE x)
         [] op = "envvar_prepend" -> To(IF has THEN x \o ":" \o old ELSE x)
         [] op = "envvar_unset" -> Good(DropKey(env, n))
         [] op = "envvar_remove_substr" -> IF has THEN To(Replace(old, x, "")) ELSE Good(env)
         [] op = "envvar_remove_path_entry" ->
                IF has THEN To(Join(SelectSeq(Split(old, ":"), LAMBDA e : e # x), ":")) ELSE Good(env)
         [] op = "envvar_find_in_path" -> To(Search(env, exe, x))
         [] op = "envvar_assert_not_empty" -> IF has /\ old # "" THEN Good(env) ELSE Bad(env, "ValueError")

\* v = <<tag, text>>; a missing value is refused
EnvApply(env, exe, op, n, v) ==
    IF op = "envvar_unset" THEN Operate(env, exe, op, n, "")
    ELSE IF v[1] = "n" THEN Bad(env, "TypeError")
    ELSE Operate(env, exe, op, n, Expand(env, v[2]))

(***************************************************************************)
(* The generated bash script: the set of outcomes that are accepted for    *)
(* one operation.  The first is the specified one; the others are exactly  *)
(* the deviations recorded in known-findings.txt.                          *)
(***************************************************************************)
Trim1(s) == LET a == IF StartsWith(s, ":1") THEN SubSeq(s, 3, Len(s)) ELSE s
                n == Len(a)
            IN IF n >= 2 /\ SubSeq(a, n - 1, n) = ":1" THEN SubSeq(a, 1, n - 2) ELSE a
BashPathRemoval(v, x) == Trim1(Replace(":" \o v \o ":", ":" \o x \o ":", ":"))
BashApply(env, exe, op, n, v) ==
    IF v[1] = "n" /\ op # "envvar_unset" THEN {Bad(env, "TypeError")}
    ELSE LET xs == {Expand(env, v[2]), ExpandFrom(env, v[2], 1, TRUE)}
             old == IF Has(env, n) THEN ValueOf(env, n) ELSE ""
         IN UNION {{Operate(env, exe, op, n, x)} \cup
              (CASE op \in {"envvar_append", "envvar_prepend"} -> IF x = "" THEN {Bad(env, "exit")} ELSE {}
                 [] op = "envvar_remove_substr" ->
                      IF x = "" THEN {Bad(env, "exit")}
                      ELSE IF ~Has(env, n) THEN {Good(Put(env, <<n, "">>))} ELSE {}
                 [] op = "envvar_remove_path_entry" ->
                      IF x = "" THEN {Bad(env, "exit")} ELSE {Good(Put(env, <<n, BashPathRemoval(old, x)>>))}
                 [] OTHER -> {}) : x \in xs}
=============================================================================
