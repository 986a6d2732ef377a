----------------------------- MODULE MCTimeout -----------------------------
(***************************************************************************)
(* Limits one after the other, in ticks of a clock. The alarm is the       *)
(* kernel's: it fires when its time has come, wherever the program is. The *)
(* runs are emitted and replayed with the real timeout.                    *)
(***************************************************************************)
EXTENDS Timeout, TLC, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)

Bodies == {[d |-> d, steps |-> s, how |-> h] : d \in {3, 5},
              s \in {<<>>, <<1>>, <<8>>, <<1, 8>>, <<1, 1, 8>>, <<1, 2>>}, h \in {"", "ValueError", "SystemExit"}}

VARIABLES pc, run, at, k, timer, exc, hist

vars == <<pc, run, at, k, timer, exc, hist>>

\* pc: "out" between the runs, "in" inside a body, "after" when it has ended, "broken" if an alarm came outside
\* timer: ticks until the alarm, -1 without one; at: ticks left of the current step
Init == pc = "out" /\ run = <<>> /\ at = 0 /\ k = 0 /\ timer = -1 /\ exc = "" /\ hist = <<>>

Enter == \E b \in Bodies :
    /\ pc = "out" /\ Len(hist) < Depth /\ Clear(b.d, b.steps)
    /\ pc' = "in" /\ run' = b /\ k' = 0 /\ exc' = ""
    /\ at' = (IF b.steps = <<>> THEN 0 ELSE b.steps[1])
    /\ timer' = b.d
    /\ hist' = Append(hist, b)

\* Time passes while a body works, and between runs.
Tick ==
    /\ pc = "out" \/ (pc = "in" /\ at > 0)
    /\ timer > 0
    /\ timer' = timer - 1
    /\ at' = (IF pc = "in" THEN at - 1 ELSE at)
    /\ UNCHANGED <<pc, run, k, exc, hist>>

Idle == pc = "in" /\ at > 0 /\ timer <= 0 /\ at' = at - 1 /\ UNCHANGED <<pc, run, k, timer, exc, hist>>

StepDone ==
    /\ pc = "in" /\ at = 0 /\ k < Len(run.steps) /\ timer # 0
    /\ k' = k + 1
    /\ at' = (IF k + 2 <= Len(run.steps) THEN run.steps[k + 2] ELSE 0)
    /\ UNCHANGED <<pc, run, timer, exc, hist>>

\* The end of the body disarms the timer.
Leave ==
    /\ pc = "in" /\ at = 0 /\ k = Len(run.steps) /\ timer # 0
    /\ pc' = "after" /\ exc' = run.how /\ timer' = -1
    /\ UNCHANGED <<run, at, k, hist>>

Alarm ==
    /\ timer = 0
    /\ timer' = -1
    /\ pc' = (IF pc = "in" THEN "after" ELSE "broken")
    /\ exc' = ""
    /\ UNCHANGED <<run, at, k, hist>>

Back == pc = "after" /\ pc' = "out" /\ at' = 0 /\ UNCHANGED <<run, k, timer, exc, hist>>

Next == Enter \/ Tick \/ Idle \/ StepDone \/ Leave \/ Alarm \/ Back

Fair == Init /\ [][Next]_vars /\ WF_vars(Tick \/ Idle \/ StepDone \/ Leave \/ Alarm \/ Back)

Emit == pc = "out" /\ pc' = "in" => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

\* C24
AsSpecified == pc = "after" =>
    IF InTime(run.d, run.steps) THEN k = Len(run.steps) /\ exc = run.how
    ELSE k = Done(run.d, run.steps) /\ exc = Reaches(run.d, run.steps, run.how)
NoTimerOutside == pc \in {"out", "after"} => timer = -1
NeverLate == pc # "broken"
Ends == [](pc = "in" => <>(pc = "after"))
=============================================================================
