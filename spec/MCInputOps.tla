------------------------------ MODULE MCInputOps ------------------------------
(***************************************************************************)
(* All short histories of feeding, typing and reading, as a program sees   *)
(* them; every transition is emitted and replayed on the real getch.       *)
(***************************************************************************)
EXTENDS Input, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)

Up == <<27, 91, 65>>
Texts == {<<97>>, Up, <<233, 98>>}

VARIABLES s, given, out, hist

vars == <<s, given, out, hist>>

Init == s = Chan0 /\ given = [fed |-> <<>>, typed |-> <<>>] /\ out = [fed |-> <<>>, typed |-> <<>>] /\ hist = <<[op |-> "start"]>>

FeedIt == \E t \in {<<120>>, <<121, 122>>} :
    s' = Feed(s, t) /\ given' = [given EXCEPT !.fed = @ \o t] /\ hist' = Append(hist, [op |-> "feed", t |-> t]) /\ UNCHANGED out
TypeIt == \E t \in Texts :
    s' = Type(s, t) /\ given' = [given EXCEPT !.typed = @ \o t] /\ hist' = Append(hist, [op |-> "type", t |-> t]) /\ UNCHANGED out

Rd(raw, during, end, to) == [op |-> "read", raw |-> raw, during |-> during, end |-> end, timeout |-> to, feeding |-> <<>>, late |-> <<>>]
Late == {<<>>, <<108>>}

ReadIt ==
    /\ Available(s) # <<>>
    /\ \E raw \in BOOLEAN, to \in {0, 1000}, late \in (IF s.fed # <<>> THEN {<<>>} ELSE Late) :
         /\ hist' = Append(hist, [Rd(raw, <<>>, "", to) EXCEPT !.late = late])
         /\ s' = Behind(Taken(s), <<>>, late)
         /\ given' = [given EXCEPT !.typed = @ \o late]
    /\ out' = IF s.fed # <<>> THEN [out EXCEPT !.fed = @ \o s.fed] ELSE [out EXCEPT !.typed = @ \o s.pend]

WaitIt ==
    /\ Available(s) = <<>>
    /\ \E f \in {<<>>, <<119>>}, late \in Late :
         /\ f = <<>> \/ late = <<>>
         /\ s' = Behind(s, f, late)
         /\ \/ \E t \in Texts, to \in {0, 1000} :
                 /\ hist' = Append(hist, [Rd(FALSE, t, "", to) EXCEPT !.feeding = f, !.late = late])
                 /\ given' = [fed |-> given.fed \o f, typed |-> given.typed \o t \o late] /\ out' = [out EXCEPT !.typed = @ \o t]
            \/ \E x \in {<<"int", 0>>, <<"int", 1000>>, <<"time", 20>>, <<"usr", 0>>, <<"usr", 1000>>} :
                 /\ hist' = Append(hist, [Rd(FALSE, <<>>, x[1], x[2]) EXCEPT !.feeding = f, !.late = late])
                 /\ given' = [fed |-> given.fed \o f, typed |-> given.typed \o late] /\ UNCHANGED out

Next == Len(hist) <= Depth /\ (FeedIt \/ TypeIt \/ ReadIt \/ WaitIt)

View == <<s, given, out, hist[Len(hist)], Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

\* C10: everything comes out once, in order, or is still there.
Conserved == given.fed = out.fed \o s.fed /\ given.typed = out.typed \o s.pend
\* Every key has exactly one entry, and no key is a mouse report.
TableOk == \A i, j \in 1..Len(KeyTable) : (KeyTable[i][1] = KeyTable[j][1] => i = j) /\ MouseEvent(KeyTable[i][1]) = ""
\* C11: the supported reports are exactly those of left and right click and drag, hover and scroll.
Chr(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
          ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Report(b, x, y, f) == <<27, 91, 60>> \o Chr(b) \o <<59>> \o Chr(x) \o <<59>> \o Chr(y) \o <<f>>
ReportsOk ==
    hist[Len(hist)].op = "start" =>
      /\ \A b \in 0..140, f \in {77, 109} : ParseReport(Report(b, 12, 345, f)) = <<b, 12, 345, f = 77>>
      /\ Cardinality({b \in 0..255 : MouseEvent(Report(b, 1, 1, 77)) # ""}) = 72
      /\ Cardinality({MouseEvent(Report(b, 1, 1, f)) : b \in 0..255, f \in {77, 109}} \ {""}) = 88
=============================================================================
