---------------------------- MODULE TraceTimeout ----------------------------
(* Validation of recorded runs under the real timeout against Timeout.tla. *)
EXTENDS Timeout, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C24 |-> {"steps", "reaches", "early", "timer", "late", "after"}][IOEnv.PROP]

VARIABLES tid, l, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* e.done: steps completed, e.exc: exception at the caller, e.took: milliseconds, e.timer: is one running?,
\* e.late: exception in later code, e.went: the code after the context was reached. A unit is e.unit ms,
\* the limit e.ms: e.d units, or less than one (then d is 1).
\* e.slip: by how many milliseconds the steps were later than planned; a run that slipped cannot tell.
Kept(e) == e.slip < e.unit
Judge(e) ==
    Clause("steps", Kept(e) => e.done = Done(e.d, e.steps))
    \cup Clause("reaches", Kept(e) => e.exc = Reaches(e.d, e.steps, e.how))
    \cup Clause("early", ~Kept(e) \/ InTime(e.d, e.steps) \/ e.took >= e.ms - 2)
    \cup Clause("timer", e.timer = 0)
    \cup Clause("late", e.late = "")
    \cup Clause("after", Kept(e) => e.went = (Reaches(e.d, e.steps, e.how) = ""))

Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ bad' = Judge(Traces[tid][l + 1])
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
