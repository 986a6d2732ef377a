------------------------------- MODULE Resize -------------------------------
(***************************************************************************)
(* The size of the terminal and who hears of its changes. The real size    *)
(* comes from the environment (COLUMNS, LINES; 0: unset) or else from the  *)
(* tty. Each Terminal object remembers the size it last saw; it has        *)
(* listeners of several kinds, and a screen of some size. A listener of     *)
(* kind "raise" raises: the read ends there, and later listeners are not   *)
(* told (an event is emitted as Events.tla has it).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Actual(w) == <<IF w.env[1] > 0 THEN w.env[1] ELSE w.tty[1], IF w.env[2] > 0 THEN w.env[2] ELSE w.tty[2]>>

World0(env, tty) == [env |-> env, tty |-> tty, terms |-> <<>>]

\* A new terminal has a screen of the size at the time.
Create(w) == [w EXCEPT !.terms = Append(@, [seen |-> Actual(w), screen |-> Actual(w), ears |-> <<>>])]
SetEnv(w, c, n) == [w EXCEPT !.env = <<c, n>>]
SetTty(w, c, n) == [w EXCEPT !.tty = <<c, n>>]
Listen(w, t, kind) == [w EXCEPT !.terms[t].ears = Append(@, kind)]

Changed(w, t) == w.terms[t].seen # Actual(w)
Read(w, t) == [w EXCEPT !.terms[t].seen = Actual(w), !.terms[t].screen = IF Changed(w, t) THEN Actual(w) ELSE @]
Raisers(w, t) == {k \in 1..Len(w.terms[t].ears) : w.terms[t].ears[k] = "raise"}
Raises(w, t) == Changed(w, t) /\ Raisers(w, t) # {}
Told(w, t) ==
    IF ~Changed(w, t) THEN <<>>
    ELSE IF Raisers(w, t) = {} THEN w.terms[t].ears
    ELSE SubSeq(w.terms[t].ears, 1, CHOOSE k \in Raisers(w, t) : \A j \in Raisers(w, t) : k <= j)
=============================================================================
