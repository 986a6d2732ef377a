----------------------------- MODULE TraceEvents -----------------------------
(* Validation of recorded uses of the real Event class against Events.tla. *)
EXTENDS Events, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C20 |-> {"called", "data", "answer", "raises", "refused", "listening", "handed", "raised"}][IOEnv.PROP]

VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* What is true after every step: nobody else was called, and which events have listeners.
Rest(n, e) == Clause("listening", \A k \in 1..Len(n) : e.bools[k] = (n[k] # <<>>))
              \cup Clause("called", e.op = "emit" \/ e.calls = <<>>)

Judge(s, e) ==
    CASE e.op = "add" ->
           LET n == Register(s, e.e, e.lis)
           IN [st |-> n, bad |-> Clause("raised", e.exc = "") \cup Clause("handed", e.same) \cup Rest(n, e)]
      [] e.op = "refuse" -> [st |-> s, bad |-> Clause("refused", e.exc = "ValueError") \cup Rest(s, e)]
      [] e.op = "clear" ->
           LET n == Clear(s, e.e) IN [st |-> n, bad |-> Clause("raised", e.exc = "") \cup Rest(n, e)]
      [] e.op = "emit" ->
           LET m == Emission(s, e.e, e.data)
           IN [st |-> s,
               bad |-> Clause("called", [k \in 1..Len(e.calls) |-> e.calls[k][1]] = [k \in 1..Len(m.calls) |-> m.calls[k][1]])
                       \cup Clause("data", [k \in 1..Len(e.calls) |-> e.calls[k][2]] = [k \in 1..Len(m.calls) |-> m.calls[k][2]])
                       \cup Clause("raises", e.exc = m.exc)
                       \cup Clause("answer", m.exc # "" \/ e.ret = m.ret)
                       \cup Rest(s, e)]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = [k \in 1..Traces[tid][1].n |-> <<>>]
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
