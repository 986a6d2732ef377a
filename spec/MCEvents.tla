------------------------------ MODULE MCEvents ------------------------------
(***************************************************************************)
(* All short histories of two events. Every transition is emitted and      *)
(* replayed on the real Event class. The ghost variable log holds what the *)
(* last emission called, computed step by step as a run would do it.       *)
(***************************************************************************)
EXTENDS Events, TLC, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)

Listeners == {<<"a", "true", 0>>, <<"b", "false", 0>>, <<"c", "none", 0>>, <<"d", "raise", 0>>, <<"x", "nest", 1>>, <<"y", "nest", 2>>}

VARIABLES evs, log, hist

vars == <<evs, log, hist>>

Nothing == [calls |-> <<>>, exc |-> "", ret |-> FALSE, of |-> 0]

Init == evs = <<<<>>, <<>>>> /\ log = Nothing /\ hist = <<[op |-> "start"]>>

Step(n, e) == evs' = n /\ log' = Nothing /\ hist' = Append(hist, e)

Add == \E e \in 1..2, lis \in Listeners, via \in {"iadd", "append"} :
    (e = 1 \/ via = "iadd") /\ Step(Register(evs, e, lis), [op |-> "add", e |-> e, lis |-> lis, via |-> via])
Refuse == \E e \in 1..2 : Step(evs, [op |-> "refuse", e |-> e])
ClearIt == \E e \in 1..2 : Step(Clear(evs, e), [op |-> "clear", e |-> e])

Emit1 == \E e \in 1..2 :
    LET m == Emission(evs, e, Len(hist))
    IN /\ evs' = evs
       /\ log' = [calls |-> m.calls, exc |-> m.exc, ret |-> m.ret, of |-> e]
       /\ hist' = Append(hist, [op |-> "emit", e |-> e, data |-> Len(hist)])

Next == Len(hist) <= Depth /\ (Add \/ Refuse \/ ClearIt \/ Emit1)

View == <<evs, log, Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

\* C20
Plain(lst) == \A k \in DOMAIN lst : Outcome(lst[k]) # "nest"

Agrees == log.of # 0 /\ Plain(evs[log.of]) =>
    LET lst == evs[log.of]
    IN /\ [k \in 1..Len(log.calls) |-> log.calls[k][1]] = Called(lst)
       /\ (log.exc # "") = Fails(lst)
       /\ (log.exc = "" => log.ret = Answer(lst))

Times(lis, lst) == Cardinality({k \in DOMAIN lst : lst[k] = lis})

\* Once per registration, and once more for every emission from inside.
OncePerRegistration ==
    log.of # 0 /\ log.exc = "" =>
        \A lis \in Listeners :
            Cardinality({k \in 1..Len(log.calls) : log.calls[k][1] = lis[1]})
            = Times(lis, evs[log.of]) + Times(<<"x", "nest", 1>>, evs[log.of]) * Times(lis, evs[1])
                                      + Times(<<"y", "nest", 2>>, evs[log.of]) * Times(lis, evs[2])

\* An exception ends every emission around it: nobody is called after the one that raised.
NobodyAfter == log.exc # "" => log.calls[Len(log.calls)][1] = log.exc
Apart == [][\E e \in 1..2 : evs'[e] = evs[e]]_vars
=============================================================================
