------------------------------ MODULE Control -------------------------------
(***************************************************************************)
(* Exception control and debug output of one instance.                     *)
(* State: level 0..5, silent, compact, dbg >= 0.                           *)
(* Replies: <<"ok", x>> or <<"err", class, message>>; message <<>> if the   *)
(* exception carries none.                                                 *)
(***************************************************************************)
EXTENDS Text, TLC

NewCtl == [level |-> 4, silent |-> FALSE, compact |-> FALSE, dbg |-> 0]

Required(cls) == CASE cls = "SILENT" -> 5 [] cls = "WARNING" -> 5 [] cls = "MINOR" -> 4
                   [] cls = "SERIOUS" -> 3 [] cls = "CRITICAL" -> 2 [] cls = "CATASTROPHIC" -> 0
EventTypes == {"SILENT", "WARNING", "MINOR", "SERIOUS", "CRITICAL", "CATASTROPHIC"}
Clamp(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n

Res(o, r) == [o |-> o, r |-> r, env |-> <<>>]
Ok(x) == <<"ok", x>>
Err(c) == <<"err", c, <<"*">>>>       \* whatever the message

\* an assigned number: <<"int", n>> (also floats and digit strings, which
\* the driver gives as the integer they convert to) or <<"bad", class>>
SetLevel(o, v) == IF v[1] = "bad" THEN Res(o, Err(v[2]))
                  ELSE Res([o EXCEPT !.level = Clamp(v[2], 0, 5)], Ok("-"))
SetDebug(o, v) == IF v[1] = "bad" THEN Res(o, Err(v[2]))
                  ELSE Res([o EXCEPT !.dbg = IF v[2] < 0 THEN 0 ELSE v[2]], Ok("-"))
\* flags: <<"bool", "T"|"F">> or <<"bad", ...>>
SetSilent(o, v) == IF v[1] = "bad" THEN Res(o, Err("TypeError")) ELSE Res([o EXCEPT !.silent = v[2] = "T"], Ok("-"))
SetCompact(o, v) == IF v[1] = "bad" THEN Res(o, Err("TypeError")) ELSE Res([o EXCEPT !.compact = v[2] = "T"], Ok("-"))

\* msg is <<>> or <<text>>
Event(o, typ, exc, msg) ==
    LET t == ToUpper(typ) IN
    IF t \notin EventTypes THEN Res(o, Err("*"))
    ELSE IF o.level >= Required(t) THEN Res(o, <<"err", exc, msg>>)
    ELSE IF o.level = 0 \/ o.silent \/ t = "SILENT" THEN Res(o, Ok("quiet"))
    ELSE Res(o, Ok("warned"))

\* what a debug message prints, exactly
Debug(o, n, msg, end, prefix) ==
    Res(o, Ok(IF o.dbg < n THEN ""
              ELSE (IF n > 0 /\ prefix THEN "[D-" \o ToString(n) \o "] " ELSE "") \o msg \o end))

B(x) == x = "T"
Do(env, o, op, a) ==
    CASE op = "level" -> SetLevel(o, a)
      [] op = "silent" -> SetSilent(o, a)
      [] op = "compact" -> SetCompact(o, a)
      [] op = "dbg" -> SetDebug(o, a)
      [] op = "event" -> Event(o, a[1], a[2], a[3])
      [] op = "badevent" -> Res(o, Err("TypeError"))     \* not an exception class
      [] op = "debug" -> Debug(o, a[1], a[2], a[3], B(a[4]))
      [] op = "read" -> Res(o, Ok(<<o.level, o.silent, o.compact, o.dbg>>))
=============================================================================
