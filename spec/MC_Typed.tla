------------------------------ MODULE MC_Typed ------------------------------
(***************************************************************************)
(* Every declaration over small sets of types, conversions, transforms and *)
(* validators; every history of one instance, with a second one watched.   *)
(***************************************************************************)
EXTENDS TypedProp, Json
CONSTANTS Convs, Transes, Valids
VARIABLES d, o, other, hist
vars == <<d, o, other, hist>>

I(n) == <<"int", n>>
St(s) == <<"str", s>>
L(q) == <<"list", q>>
Vals == {I(0), I(3), St(""), St("7"), St("ab"), L(<<"x">>), <<"bool", "True">>, <<"none", "">>}
Types == {<<"int">>, <<"str">>, <<"int", "str">>, <<"list", "str">>}
Defaults == {<<<<>>, <<>>>>, <<<<L(<<"q">>)>>, <<>>>>, <<<<<<"nest", <<"q">>>>>>, <<>>>>, <<<<>>, <<L(<<>>)>>>>, <<<<I(1)>>, <<I(2)>>>>}

Init == /\ \E ty \in Types, df \in Defaults, rq \in BOOLEAN, cv \in Convs, tr \in Transes, vl \in Valids :
             d = [types |-> ty, dflt |-> df[1], factory |-> df[2], req |-> rq, conv |-> cv, trans |-> tr, valid |-> vl]
        /\ o = <<>> /\ other = <<>> /\ hist = <<>>

Calls == {<<"set", <<1, v>>>> : v \in Vals} \cup {<<"get", <<1>>>>, <<"del", <<1>>>>, <<"mutate", <<1, "z">>>>}
Small == Len(hist) < 3
Step(c) == LET x == Do(<<d>>, <<o>>, c[1], c[2]) IN
    /\ o' = x.o[1]
    /\ hist' = Append(hist, c)
    /\ UNCHANGED <<d, other>>
    /\ PrintT("CASE " \o ToJson([decl |-> d, hist |-> hist, call |-> c, r |-> x.r, after |-> Get(d, x.o[1]).r, other |-> Get(d, other).r]))
Next == Small /\ \E c \in Calls : Step(c)
Spec == Init /\ [][Next]_vars
View == <<d, o>>

\* a refused assignment leaves the property as it was
Atomic == \A v \in Vals : LET x == Set(d, o, v) IN x.r[1] = "err" => x.st = o
\* whatever is stored by assignment passes the validator
Valid == (o # <<>> /\ o[1] = "set" /\ ~\E i \in 1..Len(hist) : hist[i][1] = "mutate") => Validate(d.valid, o[2]) = ""
\* reading is stable
Stable == Get(d, Get(d, o).st).r = Get(d, o).r
=============================================================================
