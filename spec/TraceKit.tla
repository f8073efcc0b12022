------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation for any of the object specifications.  A batch is a    *)
(* sequence of [id, env, steps]; a step is <<instance, op, args, reply>>.  *)
(*   NewOf(env, args)          state of a new instance                     *)
(*   DoOp(env, o, op, args)    [o |-> next state, r |-> reply, env |-> next*)
(*                             state of what the instances share]          *)
(*   Agree(op, exp, got)       does the recorded reply match               *)
(* Instance 0 stands for a change of the surroundings.                     *)
(* Each trace is an initial state, each transition consumes one step, and  *)
(* exactly one verdict is printed per trace.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Batch, NewOf(_, _), DoOp(_, _, _, _), Agree(_, _, _)
VARIABLES tid, l, objs, env, bad
vars == <<tid, l, objs, env, bad>>

Init == /\ tid \in 1..Len(Batch)
        /\ l = 0
        /\ objs = <<>>
        /\ env = Batch[tid].env
        /\ bad = <<>>

Steps == Batch[tid].steps

Consume ==
    /\ bad = <<>> /\ l \in 0..(Len(Steps) - 1)
    /\ LET s == Steps[l + 1]
           k == s[1]
           x == IF s[2] = "new" THEN [o |-> NewOf(env, s[3]), r |-> <<"ok", "-">>, env |-> env]
                ELSE DoOp(env, IF k = 0 \/ k > Len(objs) THEN <<>> ELSE objs[k], s[2], s[3])
       IN /\ l' = l + 1
          /\ env' = x.env
          /\ objs' = IF k = 0 THEN objs ELSE IF k > Len(objs) THEN Append(objs, x.o) ELSE [objs EXCEPT ![k] = x.o]
          /\ bad' = IF Agree(s[2], x.r, s[4]) THEN <<>> ELSE <<x.r>>
    /\ tid' = tid

Report ==
    /\ l >= 0 /\ (bad # <<>> \/ l = Len(Steps))
    /\ PrintT("VERDICT " \o ToJson([id |-> Batch[tid].id, ok |-> bad = <<>>, step |-> l, exp |-> bad]))
    /\ l' = -1 /\ UNCHANGED <<tid, objs, env, bad>>

Next == Consume \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
