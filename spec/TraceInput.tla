----------------------------- MODULE TraceInput -----------------------------
(***************************************************************************)
(* Validation of recorded reads of the real getch and parse_mouse_event    *)
(* against Input.tla.                                                      *)
(***************************************************************************)
EXTENDS Input, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C10 |-> {"key", "object", "raised"},
          C11 |-> {"mouse", "key", "raised"},
          C12 |-> {"settings", "timer", "ended", "raised"}]
          [IOEnv.PROP]

VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* r.s: the values as strings, r.c: as codes
KeyIs(r, want) ==
    IF want.names # <<>> THEN r.s = want.names ELSE r.c = <<want.text>>

\* It equals each of its values and nothing else, prints as the first and iterates all.
ObjectOk(e) == e.r.eqs = [k \in 1..Len(e.r.s) |-> TRUE] /\ ~e.r.odd /\ e.r.str = e.r.c[1] /\ e.r.iter = e.r.c

Settings(e) == Clause("settings", e.before = e.after)
               \cup Clause("timer", e.timeout > 0 => e.timer = 0)

JudgeRead(s, e) ==
    LET avail == IF Available(s) # <<>> THEN Available(s) ELSE e.during
        next  == IF Available(s) # <<>> THEN Taken(s) ELSE s
    IN [st |-> Behind(next, e.feeding, e.late),
        bad |-> Settings(e) \cup
          (CASE avail # <<>> ->
                  IF e.exc # "" \/ e.r.kind # "key" THEN {"raised", "ended", "key"}
                  ELSE Clause("key", KeyIs(e.r, Decoded(avail, e.raw))) \cup Clause("object", ObjectOk(e))
             [] avail = <<>> /\ e.end \in {"int", "early"} ->
                  Clause("ended", e.exc = "" /\ e.r.kind = "key" /\ KeyIs(e.r, Decoded(CtrlC, e.raw)))
             [] avail = <<>> /\ e.end = "time" ->
                  Clause("ended", e.exc = "" /\ e.r.kind = "default")
             [] OTHER -> Clause("ended", e.exc = "Other"))]

\* Fed text comes as it is; without any input a read gives nothing, as it does not wait.
JudgeNt(s, e) ==
    LET t == IF s.fed # <<>> THEN s.fed ELSE NtText(s.pend)
    IN [st |-> Taken(s),
        bad |-> IF e.exc # "" THEN {"raised", "key"}
                ELSE Clause("key", KeyIs(e.r, NtDecoded(t, e.raw))) \cup Clause("object", ObjectOk(e))]

\* Bytes that are no text leave something behind, and the text around them is as it was typed.
JunkOk(v, e) ==
    /\ Len(v) > Len(e.before) + Len(e.after)
    /\ SubSeq(v, 1, Len(e.before)) = e.before
    /\ SubSeq(v, Len(v) - Len(e.after) + 1, Len(v)) = e.after

Judge(s, e) ==
    CASE e.op = "feed" -> [st |-> Feed(s, e.t), bad |-> {}]
      [] e.op = "type" -> [st |-> Type(s, e.t), bad |-> {}]
      [] e.op = "read" -> JudgeRead(s, e)
      [] e.op = "console" -> [st |-> Type(s, e.t), bad |-> {}]
      [] e.op = "ntread" -> JudgeNt(s, e)
      [] e.op = "junk" ->
            [st |-> s, bad |-> IF e.exc # "" THEN {"raised", "key"}
                               ELSE Clause("key", Len(e.r.c) = 1 /\ JunkOk(e.r.c[1], e)) \cup Clause("object", ObjectOk(e))]
      [] e.op = "notty" -> [st |-> s, bad |-> IF e.exc # "" THEN {"raised"} ELSE Clause("key", e.r.c = <<<<>>>>)]
      [] e.op = "object" ->
            [st |-> s, bad |-> IF e.exc # "" THEN {"raised"} ELSE Clause("object", e.r.c = e.names /\ ObjectOk(e))]
      [] e.op = "mouse" -> [st |-> s, bad |-> IF e.exc # "" THEN {"raised"} ELSE Clause("mouse", e.got = MouseEvent(e.t))]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = Chan0
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
