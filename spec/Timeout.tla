------------------------------ MODULE Timeout ------------------------------
(***************************************************************************)
(* Code under a time limit. A body is a sequence of steps, each of which   *)
(* takes a number of units of time, and then ends: normally ("") or with   *)
(* an exception (its name). With a limit of d units it is left alone if it *)
(* ends in time and cut off otherwise, whatever errors its steps handle.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Spent(steps, k) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(steps, 1, k))

InTime(d, steps) == Spent(steps, Len(steps)) < d

\* How many steps are completed.
Done(d, steps) ==
    CHOOSE k \in 0..Len(steps) : (k = 0 \/ Spent(steps, k) < d) /\ (k = Len(steps) \/ Spent(steps, k + 1) >= d)

\* The exception that reaches the caller; running out of time is none.
Reaches(d, steps, how) == IF InTime(d, steps) THEN how ELSE ""

\* Where a real clock can tell: no step ends close to the limit.
Clear(d, steps) == \A k \in 1..Len(steps) : Spent(steps, k) <= d - 2 \/ Spent(steps, k) >= d + 1
=============================================================================
