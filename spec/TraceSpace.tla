----------------------------- MODULE TraceSpace -----------------------------
(* Validation of recorded colour-space histories against ColourSpace.tla.  *)
EXTENDS ColourSpace, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C18 |-> {"space", "notified", "order", "raised"}][IOEnv.PROP]

VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

EnvOf(r) == [n \in Names |-> r[n]]

\* After every step both terminals and the environment are looked at.
Looks(s, e) == Clause("space", e.get = Promised(s.env)
                               /\ \A t \in 1..Len(s.terms) : e.sp[t] = InForce(s.env, s.terms[t]))

\* Each listener of the terminal once, in the order they were added, with the new
\* value, which is in force by then.
CallsOk(s, e) ==
    /\ Len(e.calls) = Heard(s, e.t)
    /\ \A k \in 1..Len(e.calls) :
          /\ e.calls[k].t = e.t /\ e.calls[k].i = k
          /\ e.calls[k].v = e.v
          /\ e.calls[k].sp = InForce(s.env, s.terms[e.t])

OrderOk(e) ==
    LET a == Rank(e.a) b == Rank(e.b)
    IN /\ e.gt = (a > b) /\ e.ge = (a >= b) /\ e.lt = (a < b) /\ e.le = (a <= b) /\ e.eq = (a = b) /\ e.ne = (a # b)
       /\ e.sgt = (a > b) /\ e.sge = (a >= b) /\ e.seq = (a = b)

Judge(s, e) ==
    IF e.exc # "" THEN [st |-> s, bad |-> {"raised"}]
    ELSE CASE e.op = "env" ->
                LET n == SetVar(s, e.n, e.v)
                IN [st |-> n, bad |-> Looks(n, e) \cup Clause("notified", e.calls = <<>>)]
           [] e.op = "force" ->
                LET n == Force(s, e.t, e.v)
                IN [st |-> n, bad |-> Looks(n, e) \cup Clause("notified", CallsOk(n, e))]
           [] e.op = "listen" ->
                LET n == Listen(s, e.t)
                IN [st |-> n, bad |-> Looks(n, e) \cup Clause("notified", e.calls = <<>>)]
           [] e.op = "order" -> [st |-> s, bad |-> Clause("order", OrderOk(e))]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = State0(EnvOf(Traces[tid][1].env), Traces[tid][1].n)
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
