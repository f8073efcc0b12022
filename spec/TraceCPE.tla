------------------------------ MODULE TraceCPE ------------------------------
(***************************************************************************)
(* Trace validation: every recorded history of the real class has to be a  *)
(* behaviour of CPE.  The batch is a JSON array of                         *)
(*   [id, disk, steps], a step being <<inst, op, args, reply, events>>.    *)
(* Each trace is one initial state; one transition consumes one step.      *)
(* Exactly one verdict line is printed per trace.                          *)
(***************************************************************************)
EXTENDS CPE, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid,   \* which trace
          l,     \* steps consumed
          objs,  \* instance states
          disk,  \* the disk (files may change between calls)
          bad    \* <<>> or <<expected reply, expected events>> of the failing step
vars == <<tid, l, objs, disk, bad>>

Init == /\ tid \in 1..Len(Batch)
        /\ l = 0
        /\ objs = <<>>
        /\ disk = Batch[tid].disk
        /\ bad = <<>>

Steps == Batch[tid].steps
Wild == <<<<"*">>>>

\* an error reply carries the class and its ancestors
ReplyOK(op, exp, got) ==
    IF exp[1] = "any" THEN TRUE
    ELSE IF exp[1] # got[1] THEN FALSE
    ELSE IF exp[1] = "err" THEN exp[2] = "*" \/ \E i \in 1..Len(got[2]) : got[2][i] = exp[2]
    ELSE CASE op = "told" /\ exp[2][1] = "bad" ->
                  \* got is <<"bad", entries told, entries that may be told besides>>
                  /\ Len(got[2]) = 3 /\ {exp[2][2][i] : i \in 1..Len(exp[2][2])} \subseteq {got[2][2][i] : i \in 1..Len(got[2][2])}
                  /\ {got[2][2][i] : i \in 1..Len(got[2][2])} \ {got[2][3][i] : i \in 1..Len(got[2][3])}
                     \subseteq {exp[2][2][i] : i \in 1..Len(exp[2][2])}
           [] op = "known" -> exp[2] = {got[2][i] : i \in 1..Len(got[2])}
           [] op = "items_all" -> {ToJson(exp[2][i]) : i \in 1..Len(exp[2])} = {ToJson(got[2][i]) : i \in 1..Len(got[2])}
           [] OTHER -> ToJson(exp[2]) = ToJson(got[2])
EvOK(exp, got) ==
    \/ ToJson(got) = ToJson(Wild)
    \/ \E i \in 1..Len(exp) : exp[i] = <<"*">>
    \/ ToJson(exp) = ToJson(got)

\* the instance state and reply the specification gives for a step
Outcome(s) ==
    IF s[2] = "new" THEN Res(NewObj(s[3][1], s[3][2], s[3][3], s[3][4]), Ok("-"), <<>>)
    ELSE Do(disk, objs[s[1]], s[2], s[3])

Consume ==
    /\ bad = <<>> /\ l \in 0..(Len(Steps) - 1)
    /\ LET s == Steps[l + 1] IN
       IF s[2] = "disk"          \* the files changed
       THEN disk' = s[3] /\ l' = l + 1 /\ UNCHANGED <<objs, bad>>
       ELSE LET x == Outcome(s)
                k == s[1] IN
            /\ l' = l + 1
            /\ disk' = disk
            /\ objs' = IF k > Len(objs) THEN Append(objs, x.o) ELSE [objs EXCEPT ![k] = x.o]
            /\ bad' = IF ReplyOK(s[2], x.r, s[4]) /\ EvOK(x.ev, s[5]) THEN <<>> ELSE <<x.r, x.ev>>
    /\ tid' = tid

Report ==
    /\ l >= 0 /\ (bad # <<>> \/ l = Len(Steps))
    /\ PrintT("VERDICT " \o ToJson([id |-> Batch[tid].id, ok |-> bad = <<>>, step |-> l, exp |-> bad]))
    /\ l' = -1 /\ UNCHANGED <<tid, objs, disk, bad>>

Next == Consume \/ Report
Spec == Init /\ [][Next]_vars

\* What holds in every state of every accepted history
Sane == \A i \in 1..Len(objs) :
          LET o == objs[i] IN
          /\ o.ecl \in 0..5
          /\ (o.loaded = <<>> => o.done = {} /\ o.last = <<>>)
          /\ \A s \in o.done : o.loaded # <<>> /\ HasSec(Cfg(o), s) /\ HasKey(o.data, s)
=============================================================================
