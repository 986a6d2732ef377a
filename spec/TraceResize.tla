----------------------------- MODULE TraceResize -----------------------------
(* Validation of recorded size histories of real Terminals: Resize.tla.    *)
EXTENDS Resize, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C07 |-> {"size", "told", "screen", "raised"}][IOEnv.PROP]

VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

Pair(p) == <<p[1], p[2]>>

Value(sz, via) == CASE via = "size" -> sz [] via = "width" -> <<sz[1]>> [] via = "height" -> <<sz[2]>>

\* What was seen of a screen by writing to it: cells in all, whether its last column is the last.
Fits(seen, sz) == seen = <<sz[1] * sz[2], 1, 0>>

\* Every listener once, in order, with the new size; those that look find the screen resized,
\* those that read the size get the new one.
CallsOk(w, e) ==
    LET ears == Told(w, e.t) sz == Actual(w)
    IN /\ Len(e.calls) = Len(ears)
       /\ \A k \in 1..Len(ears) :
             /\ e.calls[k].i = k /\ e.calls[k].t = e.t
             /\ Pair(e.calls[k].data) = sz
             /\ (ears[k] = "read" => e.calls[k].read = sz)

ScreenOk(w, e) ==
    \A k \in 1..Len(e.calls) : e.calls[k].probe # <<>> => Fits(e.calls[k].probe, Actual(w))

Silent(n, e) == [st |-> n, bad |-> Clause("told", e.calls = <<>>) \cup Clause("raised", e.exc = "")]

Judge(w, e) ==
    IF e.exc # "" /\ e.op # "read" THEN [st |-> w, bad |-> {"raised"}]
    ELSE CASE e.op = "create" -> Silent(Create(w), e)
           [] e.op = "env"    -> Silent(SetEnv(w, e.c, e.n), e)
           [] e.op = "tty"    -> Silent(SetTty(w, e.c, e.n), e)
           [] e.op = "listen" -> Silent(Listen(w, e.t, e.kind), e)
           [] e.op = "draw"   -> Silent(w, e)
           [] e.op = "probe"  ->
                [st |-> w, bad |-> Clause("screen", Fits(e.got, w.terms[e.t].screen)) \cup Clause("told", e.calls = <<>>)]
           [] e.op = "read"   ->
                [st |-> Read(w, e.t),
                 bad |-> Clause("raised", e.exc = (IF Raises(w, e.t) THEN "Heard" ELSE ""))
                         \cup Clause("size", e.exc # "" \/ e.got = Value(Actual(w), e.via))
                         \cup Clause("told", CallsOk(w, e)) \cup Clause("screen", ScreenOk(w, e))]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = World0(Pair(Traces[tid][1].env), Pair(Traces[tid][1].tty))
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
