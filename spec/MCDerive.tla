------------------------------ MODULE MCDerive ------------------------------
(***************************************************************************)
(* All short histories of deriving spans from spans. Every transition is   *)
(* emitted and replayed on the real Span class.                            *)
(***************************************************************************)
EXTENDS Spans, TLC, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)

VARIABLES pool, hist

vars == <<pool, hist>>

Base == { [t |-> <<97, 32, 98>>, fg |-> <<1, 2, 3, 1000>>, bg |-> <<>>, st |-> {1, 7}, link |-> "", rz |-> TRUE],
          [t |-> <<97>>, fg |-> <<>>, bg |-> <<9, 8, 7, 333>>, st |-> {}, link |-> "u", rz |-> FALSE],
          [t |-> <<>>, fg |-> <<>>, bg |-> <<>>, st |-> {99}, link |-> "", rz |-> TRUE] }

Init ==
    \E s \in Base :
        /\ pool = <<s>>
        /\ hist = <<[op |-> "make", span |-> s]>>

Add(news, e) == pool' = pool \o news /\ hist' = Append(hist, e)

Bounds == {<<>>, <<0>>, <<1>>, <<-1>>, <<2>>, <<-5>>, <<9>>}

Slice(i) == \E a, b \in Bounds, step \in {1, 2, -1} :
    Add(<<[pool[i] EXCEPT !.t = SliceText(@, a, b, step)]>>, [op |-> "slice", i |-> i, a |-> a, b |-> b, step |-> step])

Split(i) == \E sep \in {<<32>>, <<97>>, <<97, 32>>} :
    LET parts == SplitText(pool[i].t, sep)
    IN Add([k \in 1..Len(parts) |-> [pool[i] EXCEPT !.t = parts[k]]],
           [op |-> "split", i |-> i, sep |-> sep])

Attr(i) == \E n \in (1..9) \cup {99}, on \in BOOLEAN, via \in {"as", "mutate"} :
    Add(<<SetAttr(pool[i], n, on)>>, [op |-> "attr", i |-> i, n |-> n, on |-> on, via |-> via])

Colour(i) == \E c \in {<<>>, <<5, 6, 7, 1000>>, <<5, 6, 7, 613>>}, back \in BOOLEAN, via \in {"as", "mutate"} :
    Add(<<IF back THEN [pool[i] EXCEPT !.bg = c] ELSE [pool[i] EXCEPT !.fg = c]>>,
        [op |-> "colour", i |-> i, c |-> c, back |-> back, via |-> via])

Link(i) == \E u \in {"", "v"} : Add(<<[pool[i] EXCEPT !.link = u]>>, [op |-> "link", i |-> i, link |-> u])

Reset(i) == \E b \in BOOLEAN : Add(<<[pool[i] EXCEPT !.rz = b]>>, [op |-> "reset", i |-> i, on |-> b])

Text(i) == \E t \in {<<>>, <<120, 10, 121>>} : Add(<<[pool[i] EXCEPT !.t = t]>>, [op |-> "text", i |-> i, t |-> t])

Use(i) == \/ Add(<<>>, [op |-> "screen", i |-> i, x |-> 2])
          \/ Add(<<>>, [op |-> "below", i |-> i])
          \/ \E ex, al \in BOOLEAN : Add(<<>>, [op |-> "read", i |-> i, ex |-> ex, al |-> al])

Next ==
    /\ Len(hist) < Depth
    /\ \E i \in {1, Len(pool)} :
          Slice(i) \/ Split(i) \/ Attr(i) \/ Colour(i) \/ Link(i) \/ Reset(i) \/ Text(i) \/ Use(i)

View == <<pool, Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

\* C15
SplitJoins == \A i \in DOMAIN pool : \A sep \in {<<32>>, <<97>>, <<97, 32>>} :
                  JoinText(SplitText(pool[i].t, sep), sep) = pool[i].t
SlicesConcat == \A i \in DOMAIN pool : \A k \in Bounds :
                  k # <<>> => SliceText(pool[i].t, <<>>, k, 1) \o SliceText(pool[i].t, k, <<>>, 1) = pool[i].t
NeverAltered == [][SubSeq(pool', 1, Len(pool)) = pool]_vars
=============================================================================
