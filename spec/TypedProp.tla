----------------------------- MODULE TypedProp ------------------------------
(***************************************************************************)
(* A typed property of one instance.                                       *)
(*                                                                         *)
(* Values are <<type, payload>>: <<"int", n>>, <<"bool", "True">>,          *)
(* <<"str", s>>, <<"list", items>>, <<"tuple", items>>, <<"dict", keys>>,    *)
(* <<"float", whole>> (a float with fraction .5), <<"none", "">>; items and *)
(* keys are strings.  <<"nest", items>> is a list whose only element is the *)
(* list of the items; it is changed in place inside the inner list.        *)
(*                                                                         *)
(* A declaration d: types, dflt (<<>> or <<value>>), factory (<<>> or       *)
(* <<value>>), req, conv, trans, valid.                                    *)
(* State of the property in one instance: <<>> unassigned, or              *)
(* <<"default"|"set", value>>.                                             *)
(***************************************************************************)
EXTENDS Text, TLC

IsA(v, t) == v[1] = t \/ (t = "int" /\ v[1] = "bool") \/ (t = "list" /\ v[1] = "nest")

E(c) == [err |-> c, v |-> <<"none", "">>]
V(v) == [err |-> "", v |-> v]

IsDigits(s) == s # "" /\ AllIn(s, CharSet(Digits))
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, acc * 10 + FindFrom(Digits, Ch(s, i), 1) - 1)
Repr(items) == Join([i \in 1..Len(items) |-> "'" \o items[i] \o "'"], ", ")

\* the internal type: int, str, list, dict (a call of the type)
Convert(t, v) ==
    CASE t = "" -> V(v)
      [] t = "int" ->
           (CASE v[1] = "int" -> V(v)
              [] v[1] = "bool" -> V(<<"int", IF v[2] = "True" THEN 1 ELSE 0>>)
              [] v[1] = "float" -> V(<<"int", v[2]>>)
              [] v[1] = "str" -> LET s == Strip(v[2]) IN
                    IF IsDigits(s) THEN V(<<"int", NumFrom(s, 1, 0)>>)
                    ELSE IF Len(s) > 1 /\ Ch(s, 1) = "-" /\ IsDigits(SubSeq(s, 2, Len(s))) THEN V(<<"int", 0 - NumFrom(s, 2, 0)>>)
                    ELSE E("ValueError")
              [] OTHER -> E("TypeError"))
      [] t = "str" ->
           (CASE v[1] = "str" -> V(v)
              [] v[1] = "int" -> V(<<"str", ToString(v[2])>>)
              [] v[1] = "bool" -> V(<<"str", v[2]>>)
              [] v[1] = "none" -> V(<<"str", "None">>)
              [] v[1] = "float" -> V(<<"str", ToString(v[2]) \o ".5">>)
              [] v[1] = "list" -> V(<<"str", "[" \o Repr(v[2]) \o "]">>)
              [] v[1] = "tuple" -> V(<<"str", IF Len(v[2]) = 1 THEN "(" \o Repr(v[2]) \o ",)" ELSE "(" \o Repr(v[2]) \o ")">>)
              [] OTHER -> E("*"))
      [] t = "list" ->
           (CASE v[1] \in {"list", "tuple", "dict"} -> V(<<"list", v[2]>>)
              [] v[1] = "nest" -> V(v)
              [] v[1] = "str" -> V(<<"list", Chars(v[2])>>)
              [] OTHER -> E("TypeError"))

Transform(t, v) ==
    CASE t = "" -> V(v)
      [] t = "upper" -> IF v[1] = "str" THEN V(<<"str", ToUpper(v[2])>>) ELSE E("AttributeError")
      [] t = "double" ->
           (CASE v[1] = "int" -> V(<<"int", 2 * v[2]>>)
              [] v[1] = "bool" -> V(<<"int", IF v[2] = "True" THEN 2 ELSE 0>>)
              [] v[1] \in {"str", "list", "tuple"} -> V(<<v[1], v[2] \o v[2]>>)
              [] OTHER -> E("*"))
      [] t = "tostr" -> Convert("str", v)
      [] t = "boom" -> E("Boom")
      [] t = "uncallable" -> E("TypeError")

Truthy(v) == CASE v[1] = "int" -> v[2] # 0 [] v[1] = "bool" -> v[2] = "True" [] v[1] = "none" -> FALSE
               [] v[1] = "float" -> TRUE [] v[1] = "str" -> v[2] # "" [] v[1] = "nest" -> TRUE [] OTHER -> v[2] # <<>>
\* "" if accepted
Validate(t, v) ==
    CASE t = "" -> ""
      [] t = "truthy" -> IF Truthy(v) THEN "" ELSE "ValueError"
      [] t = "pos" -> IF v[1] = "int" THEN (IF v[2] > 0 THEN "" ELSE "ValueError")
                      ELSE IF v[1] = "bool" THEN (IF v[2] = "True" THEN "" ELSE "ValueError")
                      ELSE IF v[1] = "float" THEN (IF v[2] >= 0 THEN "" ELSE "ValueError")
                      ELSE "TypeError"
      [] t = "len2" -> IF v[1] \in {"str", "list", "tuple", "dict"} THEN (IF Len(v[2]) = 2 THEN "" ELSE "ValueError")
                       ELSE IF v[1] = "nest" THEN "ValueError" ELSE "TypeError"
      [] t = "never" -> "ValueError"
      [] t = "boom" -> "Boom"
      [] t = "uncallable" -> "TypeError"

Res(o, r) == [o |-> o, r |-> r, env |-> <<>>]

\* what an assignment stores, or why it is refused
Assigned(d, v) ==
    IF ~\E i \in 1..Len(d.types) : IsA(v, d.types[i]) THEN E("TypeError")
    ELSE LET a == Convert(d.conv, v) IN
         IF a.err # "" THEN a
         ELSE LET b == Transform(d.trans, a.v) IN
              IF b.err # "" THEN b
              ELSE LET c == IF d.trans = "" THEN b ELSE Convert(d.conv, b.v) IN
                   IF c.err # "" THEN c
                   ELSE LET e == Validate(d.valid, c.v) IN IF e # "" THEN E(e) ELSE c

Set(d, st, v) == LET x == Assigned(d, v) IN
    IF x.err # "" THEN [st |-> st, r |-> <<"err", x.err>>] ELSE [st |-> <<"set", x.v>>, r |-> <<"ok", "-">>]

Get(d, st) ==
    IF d.req /\ (st = <<>> \/ st[1] # "set") THEN [st |-> st, r |-> <<"err", "UnboundLocalError">>]
    ELSE IF st # <<>> THEN [st |-> st, r |-> <<"ok", st[2]>>]
    ELSE LET v == IF d.dflt # <<>> THEN d.dflt[1] ELSE IF d.factory # <<>> THEN d.factory[1] ELSE <<"none", "">>
         IN [st |-> <<"default", v>>, r |-> <<"ok", v>>]

\* read it and change the list (or dict) that was handed out in place
Mutate(d, st, x) ==
    LET g == Get(d, st) IN
    IF g.r[1] = "err" THEN g
    ELSE IF g.r[2][1] \notin {"list", "dict", "nest"} THEN [g EXCEPT !.r = <<"ok", "immutable">>]
    ELSE LET v == g.r[2]
             n == IF v[1] \in {"list", "nest"} THEN Append(v[2], x)
                  ELSE IF \E i \in 1..Len(v[2]) : v[2][i] = x THEN v[2] ELSE Append(v[2], x)
         IN [st |-> <<g.st[1], <<v[1], n>>>>, r |-> <<"ok", "-">>]

\* An instance: one state per declared property; env is the declarations
NewInst(env, a) == [i \in 1..Len(env) |-> <<>>]
Do(env, o, op, a) ==
    LET i == a[1]
        x == CASE op = "get" -> Get(env[i], o[i])
               [] op = "set" -> Set(env[i], o[i], a[2])
               [] op = "mutate" -> Mutate(env[i], o[i], a[2])
               [] op = "del" -> [st |-> <<>>, r |-> <<"ok", "-">>]
    IN [o |-> [o EXCEPT ![i] = x.st], r |-> x.r, env |-> env]
=============================================================================
