------------------------------ MODULE MC_Hist -------------------------------
(***************************************************************************)
(* All histories of one instance over a small disk: the reachable instance *)
(* states are finite, so the exploration is complete for this disk and     *)
(* this alphabet of calls.  `hist` (how the state was reached first) is    *)
(* hidden by a VIEW; it is printed with every call so that the real class  *)
(* can be driven along every transition.                                   *)
(***************************************************************************)
EXTENDS CPE, Json

CONSTANTS Ecls,        \* levels an instance may start with
          WithEdits,   \* explicit edits in the alphabet
          WithSwitch,  \* reconfiguration in the alphabet
          Which        \* which disk

VARIABLES o, hist, edited
vars == <<o, hist, edited>>

\* ------------------------------------------------------------ the disks
S(t) == <<"s", t>>
Opt(k, v) == <<k, "s", v>>
U(t) == <<"use " \o t, "n", "">>
File(n, secs) == <<n, "file", <<<<"=:", "", secs>>>>>>
Bad(n, e) == <<n, "file", <<<<"=:", e, <<>>>>>>>>

DiskA == <<File("f", <<<<"A", <<Opt("k1", "a1"), U("B"), Opt("op p", "x")>>>>,
                       <<"B", <<Opt("k1", "b1"), Opt("k2", "b2"), U("A")>>>>,
                       <<"BAD", <<Opt("k3", "c3"), U("MISSING")>>>>>>),
           File("g", <<<<"DEFAULT", <<Opt("d", "0")>>>>,
                       <<"A", <<Opt("k9", "g9")>>>>,
                       <<"BAD", <<Opt("k3", "fine")>>>>>>),
           Bad("h", "DuplicateOptionError")>>
DiskB == <<File("f", <<<<"DEFAULT", <<Opt("d", "0"), U("A")>>>>,
                       <<"A", <<Opt("k1", "a1"), Opt("op", "x")>>>>,
                       <<"B", <<U("A"), Opt("d", "1"), Opt("boom", "x")>>>>>>),
           File("g", <<<<"A", <<Opt("k1", "g1")>>>>>>),
           <<"h", "none", <<>>>>>>
Disk == IF Which = "A" THEN DiskA ELSE DiskB
SecsOf == IF Which = "A" THEN {"A", "B", "BAD", "MISSING"} ELSE {"A", "B", "DEFAULT", "MISSING"}
Hs == <<<<"op", "pub", "d", "log", "0">>, <<"boom", "priv", "d", "raise", "0">>>>

\* ---------------------------------------------------------- the alphabet
SecCalls == {<<op, <<s>>>> : op \in {"getitem", "get", "has_section", "options", "items"}, s \in SecsOf}
ReadCalls == SecCalls
    \cup {<<"parse", <<s, "T", "T">>>> : s \in SecsOf}
    \cup {<<"getopt", <<s, k>>>> : s \in {"A", "MISSING"}, k \in {"k1", "zz"}}
    \cup {<<"has_option", <<s, k>>>> : s \in {"A", "B"}, k \in {"k1", "zz"}}
    \cup {<<"assert_sec", <<s, d>>>> : s \in {"A", "B"}, d \in {"T", "F"}}
    \cup {<<"unroll", <<s, "T", b>>>> : s \in {"", "A", "MISSING"}, b \in {"T", "F"}}
    \cup {<<"sections", <<m>>>> : m \in {"no", "yes", "force"}}
    \cup {<<op, <<>>>> : op \in {"items_all", "keys", "len", "iter", "last", "assert_file", "raw", "ecl", "paths"}}
Edits == {<<"set", <<s, "new", "s", "edited">>>> : s \in {"A", "NEW"}}
    \cup {<<"mut", <<"A", "k1", "s", "edited">>>>}
    \cup {<<"add", <<"NEW", f>>>> : f \in {"F", "T"}}
Switches == {<<"set_paths", p>> : p \in {<<"f">>, <<"g">>, <<"f", "g">>, <<"h">>}}
    \cup {<<"bad_paths", <<"int">>>>, <<"bad_delims", <<>>>>}
CallSet == ReadCalls \cup (IF WithEdits THEN Edits ELSE {}) \cup (IF WithSwitch THEN Switches ELSE {})

Init == /\ \E e \in Ecls : o = NewObj(<<"f">>, "DEFAULT", e, Hs)
        /\ hist = <<>>
        /\ edited = FALSE

Step(call) ==
    LET x == Do(Disk, o, call[1], call[2])
    IN /\ o' = x.o
       /\ hist' = Append(hist, call)
       /\ edited' = ((edited \/ call \in Edits) /\ call[1] # "set_paths")
       /\ PrintT("CASE " \o ToJson([disk |-> Which, ecl |-> o.ecl, hist |-> hist, call |-> call, r |-> x.r, ev |-> x.ev]))

Next == \E call \in CallSet : Step(call)
Spec == Init /\ [][Next]_vars
View == <<o, edited>>

\* ------------------------------------------------------------- properties
Fresh == NewObj(o.paths, o.dflt, o.ecl, o.H)

\* C06: whatever was called before, a reading call answers as on a fresh
\* instance (until the caller edits)
\* (items_all is a mapping: compared as a set of sections)
Same(call, r1, r2) ==
    IF r1[1] # r2[1] THEN FALSE
    ELSE IF call[1] = "items_all" /\ r1[1] = "ok"
         THEN {ToJson(r1[2][i]) : i \in 1..Len(r1[2])} = {ToJson(r2[2][i]) : i \in 1..Len(r2[2])}
    ELSE ToJson(r1[2]) = ToJson(r2[2])
Transparent ==
    ~edited => \A call \in ReadCalls :
                 call[1] = "last" \/ Same(call, Do(Disk, o, call[1], call[2]).r, Do(Disk, Fresh, call[1], call[2]).r)

\* C06: a section is parsed by a reading call at most once
AtMostOnce ==
    \A call \in SecCalls :
       LET ev == Do(Disk, o, call[1], call[2]).ev
       IN call[2][1] \in o.done => Len(SelectSeq(ev, LAMBDA e : e[1] = "call")) = 0

\* C06/C08: a call that fails on a fresh instance never succeeds later
NeverHidden ==
    ~edited => \A call \in SecCalls :
       Do(Disk, Fresh, call[1], call[2]).r[1] = "err" => Do(Disk, o, call[1], call[2]).r[1] = "err"

\* C07: assigning the file list, whatever happened before, gives a fresh instance
Reborn == \A p \in {<<"f">>, <<"g">>, <<"f", "g">>, <<"h">>} :
             Do(Disk, o, "set_paths", p).o = NewObj(p, o.dflt, o.ecl, o.H)

\* C09: unrolling with the base class changes nothing, without it neither
\* settings nor results
UnrollPure == \A s \in {"", "A", "MISSING"} :
    /\ Do(Disk, o, "unroll", <<s, "T", "T">>).o = o
    /\ Do(Disk, o, "unroll", <<s, "T", "F">>).o.ecl = o.ecl

\* C07/C08: rejected assignments change nothing
RejectPure == /\ Do(Disk, o, "bad_paths", <<"int">>).o = o
              /\ Do(Disk, o, "bad_delims", <<>>).o = o
=============================================================================
