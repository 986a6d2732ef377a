------------------------------- MODULE MCInput -------------------------------
(***************************************************************************)
(* The reader in small steps, with a typist and a feeder who may act at    *)
(* any instant and an interrupt or time-out that may hit the reader while  *)
(* it waits. The tty is in its own mode or in the reader's. Characters are *)
(* sequences of bytes: 2-byte characters exist, so a read may have to wait *)
(* in the middle of one.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxIn

\* pc: "idle", "set" (mode to be changed), "wait" (for the first byte of a character),
\*     "ready" (is there more?), "reset" (mode to be restored)
VARIABLES pc, mode, queue, fed, buff, part, out, typed, everFed, lost, ended

vars == <<pc, mode, queue, fed, buff, part, out, typed, everFed, lost, ended>>

Own == "own"
Cbreak == "cbreak"

\* A character is <<n, bytes>>: n identifies it, its bytes are <<n, 1>> .. <<n, k>>.
Bytes(n) == [k \in 1..((n % 2) + 1) |-> <<n, k>>]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
AllBytes == Flat([n \in 1..MaxIn |-> Bytes(n)])
Last(b) == b[2] = (b[1] % 2) + 1

Init ==
    /\ pc = "idle" /\ mode = Own /\ queue = <<>> /\ fed = <<>> /\ buff = <<>> /\ part = <<>>
    /\ out = <<>> /\ typed = 0 /\ everFed = 0 /\ lost = <<>> /\ ended = "none"

TypeByte ==     \* one byte at a time: writes can be split anywhere
    /\ typed < Len(AllBytes)
    /\ queue' = Append(queue, AllBytes[typed + 1])
    /\ typed' = typed + 1
    /\ UNCHANGED <<pc, mode, fed, buff, part, out, everFed, lost, ended>>

FeedOne ==
    /\ everFed < 2
    /\ everFed' = everFed + 1
    /\ fed' = Append(fed, 100 + everFed)
    /\ UNCHANGED <<pc, mode, queue, buff, part, out, typed, lost, ended>>

Start ==
    /\ pc = "idle" /\ Len(out) < 3
    /\ IF fed # <<>>
       THEN out' = Append(out, fed) /\ fed' = <<>> /\ pc' = "idle"
       ELSE pc' = "set" /\ UNCHANGED <<out, fed>>
    /\ ended' = "none"
    /\ UNCHANGED <<mode, queue, buff, part, typed, everFed, lost>>

SetMode == pc = "set" /\ mode' = Cbreak /\ pc' = "wait"
           /\ UNCHANGED <<queue, fed, buff, part, out, typed, everFed, lost, ended>>

ReadByte ==
    /\ pc = "wait" /\ queue # <<>>
    /\ queue' = Tail(queue)
    /\ IF Last(Head(queue))
       THEN buff' = Append(buff, Head(queue)[1]) /\ part' = <<>> /\ pc' = "ready"
       ELSE part' = Append(part, Head(queue)) /\ pc' = "wait" /\ UNCHANGED buff
    /\ UNCHANGED <<mode, fed, out, typed, everFed, lost, ended>>

More == pc = "ready" /\ pc' = (IF queue # <<>> THEN "wait" ELSE "reset")
        /\ UNCHANGED <<mode, queue, fed, buff, part, out, typed, everFed, lost, ended>>

\* Interrupt or time-out: only while the read waits.
Hit ==
    /\ pc \in {"set", "wait"} /\ queue = <<>>
    /\ pc' = "reset" /\ ended' = "hit"
    /\ lost' = lost \o buff \o [k \in 1..(IF part = <<>> THEN 0 ELSE 1) |-> part[1][1]]
    /\ buff' = <<>> /\ part' = <<>>
    /\ UNCHANGED <<mode, queue, fed, out, typed, everFed>>

Reset ==
    /\ pc = "reset"
    /\ mode' = Own /\ pc' = "idle"
    /\ out' = (IF ended = "hit" THEN out ELSE Append(out, buff)) /\ buff' = <<>>
    /\ UNCHANGED <<queue, fed, part, typed, everFed, lost, ended>>

Next == TypeByte \/ FeedOne \/ Start \/ SetMode \/ ReadByte \/ More \/ Hit \/ Reset

Spec == Init /\ [][Next]_vars /\ WF_vars(SetMode \/ ReadByte \/ More \/ Reset)

Chars(bs) == {bs[k][1] : k \in 1..Len(bs)}

\* C12
ModeRestored == pc = "idle" => mode = Own
\* C10: what was fed comes out once and in order; what was typed comes out in order, and nothing
\* is dropped but what an interrupted read had in its hands.
Increasing(q) == \A i, j \in 1..Len(q) : i < j => q[i] < q[j]
FedInOrder == LET o == SelectSeq(Flat(out), LAMBDA n : n >= 100)
              IN Increasing(o) /\ o \o fed = [k \in 1..everFed |-> 99 + k]
TypedInOrder == Increasing(SelectSeq(Flat(out), LAMBDA n : n < 100))
NothingLost ==
    LET o == {Flat(out)[k] : k \in 1..Len(Flat(out))} \cup {buff[k] : k \in 1..Len(buff)} \cup Chars(part)
             \cup Chars(queue) \cup {lost[k] : k \in 1..Len(lost)}
    IN \A k \in 1..typed : AllBytes[k][1] \in o
NoEmptyRead == \A k \in 1..Len(out) : out[k] # <<>>
\* A read that has begun to get input ends, as long as characters are completed.
Ends == (pc \in {"ready", "reset"}) ~> (pc \in {"idle", "wait"})
=============================================================================
