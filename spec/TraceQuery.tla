----------------------------- MODULE TraceQuery -----------------------------
(* Validation of recorded questions of real Terminals against Query.tla.   *)
EXTENDS Query, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C22 |-> {"answer", "sent", "settings", "raised"}][IOEnv.PROP]

VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* Creating a terminal asks for both colours.
Create(s, e) ==
    LET a == Ask(Start(e.in, e.out, <<e.res[1], e.res[2]>>), "11", e.replies["11"])
        b == Ask(a.st, "10", e.replies["10"])
    IN [st |-> b.st,
        bad |-> IF e.exc # "" THEN {"raised"}
                ELSE Clause("sent", e.sent["11"] = a.sent /\ e.sent["10"] = b.sent /\ e.sent["14"] = 0 /\ e.sent["2026"] = 0)
                     \cup Clause("settings", e.same)]

AskIt(s, e) ==
    LET a == Ask(s, e.q, e.reply)
    IN [st |-> a.st,
        bad |-> IF e.exc # "" THEN {"raised"}
                ELSE Clause("answer", e.got = a.got)
                     \cup Clause("sent", \A q \in Questions : e.sent[q] = (IF q = e.q THEN a.sent ELSE 0))
                     \cup Clause("settings", e.same)]

Judge(s, e) == CASE e.op = "create" -> Create(s, e) [] e.op = "ask" -> AskIt(s, e)

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = Start(FALSE, FALSE, <<1, 1>>)
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
