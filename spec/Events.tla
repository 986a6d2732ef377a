------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Events and their listeners. An event is the sequence of its listeners,  *)
(* in order of registration; a listener is <<name, outcome, target>> with  *)
(* outcome                                                                 *)
(*   "true", "false", "none"  what it returns                              *)
(*   "raise"                  it raises an exception that bears its name   *)
(*   "nest"                   it emits the event target with other data    *)
(*                            and returns what that returned; called from  *)
(*                            such an inner emission it returns "none"     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Outcome(lis) == lis[2]

Register(evs, e, lis) == [evs EXCEPT ![e] = Append(@, lis)]
Clear(evs, e) == [evs EXCEPT ![e] = <<>>]

\* What listeners inside of an emission with some data emit themselves.
Inner(data) == data + 100

(***************************************************************************)
(* An emission, listener by listener: the calls it makes, the exception    *)
(* that ends it ("" if none) and what it returns.                          *)
(***************************************************************************)
RECURSIVE Run(_, _, _, _, _, _)
Run(evs, lst, k, data, inside, r) ==
    IF k > Len(lst) \/ r.exc # "" THEN r
    ELSE LET lis == lst[k]
             q   == [r EXCEPT !.calls = Append(@, <<lis[1], data>>)]
         IN IF Outcome(lis) = "raise" THEN [q EXCEPT !.exc = lis[1]]
            ELSE IF Outcome(lis) = "nest" /\ ~inside
            THEN LET n == Run(evs, evs[lis[3]], 1, Inner(data), TRUE, [q EXCEPT !.ret = FALSE])
                 IN Run(evs, lst, k + 1, data, inside, [n EXCEPT !.ret = @ \/ r.ret])
            ELSE Run(evs, lst, k + 1, data, inside, [q EXCEPT !.ret = @ \/ Outcome(lis) = "true"])

Emission(evs, e, data) == Run(evs, evs[e], 1, data, FALSE, [calls |-> <<>>, exc |-> "", ret |-> FALSE])

(***************************************************************************)
(* The same for listeners that do not emit, in closed form.                *)
(***************************************************************************)
\* The first listener that raises, or one past the last.
Stop(lst) ==
    LET R == {i \in 1..Len(lst) : Outcome(lst[i]) = "raise"}
    IN IF R = {} THEN Len(lst) + 1 ELSE CHOOSE i \in R : \A j \in R : i <= j

Called(lst) == [i \in 1..(IF Stop(lst) > Len(lst) THEN Len(lst) ELSE Stop(lst)) |-> lst[i][1]]
Fails(lst) == Stop(lst) <= Len(lst)
Answer(lst) == \E i \in 1..Len(lst) : Outcome(lst[i]) = "true"
=============================================================================
