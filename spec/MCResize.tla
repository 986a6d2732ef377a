------------------------------ MODULE MCResize ------------------------------
(***************************************************************************)
(* All short histories of size changes, reads and listeners, for one and   *)
(* two terminals; every transition is emitted and replayed.                *)
(***************************************************************************)
EXTENDS Resize, TLC, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)
Sizes == {<<2, 1>>, <<1, 2>>, <<3, 2>>}

\* owed[t]: the terminal's screen has yet to follow the last change that a read saw or will see;
\* told[t]: how often each listener was told since the last change that counted.
VARIABLES w, told, hist

vars == <<w, told, hist>>

Init ==
    \E e \in {<<0, 0>>, <<2, 1>>} :
       /\ w = Create(World0(e, <<3, 2>>))
       /\ told = <<>>
       /\ hist = <<[op |-> "start", env |-> e, tty |-> <<3, 2>>], [op |-> "create"]>>

Step(n, calls, e) == w' = n /\ told' = calls /\ hist' = Append(hist, e)

Next ==
    /\ Len(hist) <= Depth
    /\ \/ \E s \in Sizes \cup {<<0, 0>>, <<2, 0>>} : s # w.env /\ Step(SetEnv(w, s[1], s[2]), <<>>, [op |-> "env", c |-> s[1], n |-> s[2]])
       \/ \E s \in Sizes : s # w.tty /\ Step(SetTty(w, s[1], s[2]), <<>>, [op |-> "tty", c |-> s[1], n |-> s[2]])
       \/ \E t \in DOMAIN w.terms, k \in {"rec", "read", "draw", "probe", "raise"} :
             Len(w.terms[t].ears) < 2 /\ Step(Listen(w, t, k), <<>>, [op |-> "listen", t |-> t, kind |-> k])
       \/ \E t \in DOMAIN w.terms, via \in {"size", "width", "height"} :
             Step(Read(w, t), Told(w, t), [op |-> "read", t |-> t, via |-> via])
       \/ \E t \in DOMAIN w.terms : Step(w, <<>>, [op |-> "probe", t |-> t])
       \/ Len(w.terms) < 2 /\ Step(Create(w), <<>>, [op |-> "create"])

View == <<w, told, Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

\* C07
ScreenFollows == \A t \in DOMAIN w.terms : w.terms[t].screen = w.terms[t].seen
Did == hist'[Len(hist')]
FreshAfterRead == [][Did.op = "read" => w'.terms[Did.t].screen = Actual(w')]_vars
\* A second read right away tells nobody.
OnlyOnce == [][Did.op = "read" => Told(w', Did.t) = <<>> /\ ~Changed(w', Did.t)]_vars
\* Only a read whose terminal has not seen the size tells its listeners, all of them (up to one that raises).
ToldIffNew == [][told' # <<>> => \E t \in DOMAIN w.terms :
                    Changed(w, t) /\ (told' = w.terms[t].ears \/ told'[Len(told')] = "raise")]_vars
=============================================================================
