------------------------------- MODULE MCSpans -------------------------------
(***************************************************************************)
(* Exhaustive exploration of lines of SGR text. Side by side run the       *)
(* library's parser (Spans!Parse) and a terminal (Ansi!Sgr); for every     *)
(* standard parameter they agree, and what is parsed prints as what was    *)
(* seen. Every transition is emitted and replayed on Span.yield_from.      *)
(***************************************************************************)
EXTENDS Spans, TLC, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)

VARIABLES o, pen, hist, txt

vars == <<o, pen, hist, txt>>

Chunks == {<<n>> : n \in 0..9}
          \cup {<<n>> : n \in 22..25} \cup {<<n>> : n \in 27..29}
          \cup {<<n>> : n \in {30, 31, 37, 39, 40, 44, 47, 49, 90, 97, 100, 107}}
          \cup { <<38, 5, 9>>, <<48, 5, 22>>, <<38, 2, 1, 2, 3>>, <<48, 2, 4, 5, 6>>,
                 <<1, 38, 5, 2, 4>>, <<48, 2, 1, 5, 9, 3>>, <<31, 44, 9>>, <<0, 7>>, <<4, 0>>, <<5, 6, 25>>,
                 <<1, 2, 22>>, <<38, 5, 38, 48, 5, 48>> }

Init == o = Opts0 /\ pen = Pen0 /\ hist = <<>> /\ txt = FALSE

SgrSeq(ps) ==
    /\ LET r == Parse(o, ps) IN r.err = "" /\ o' = r.o
    /\ pen' = Sgr(pen, ps)
    /\ hist' = Append(hist, <<"m", ps>>)
    /\ txt' = FALSE

Text ==
    /\ ~txt
    /\ hist' = Append(hist, <<"t", <<97>> >>)
    /\ txt' = TRUE
    /\ UNCHANGED <<o, pen>>

Next == Len(hist) < Depth /\ (Text \/ \E ps \in Chunks : SgrSeq(ps))

View == <<o, pen, Len(hist), txt>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

AsSpan == [t |-> <<120, 121>>, fg |-> o.fg, bg |-> o.bg, st |-> o.st, link |-> "", rz |-> TRUE]

\* C13: parsing is what a terminal does.
ParserIsTerminal == pen = PenOf(AsSpan)
\* C13: the whole line, at once, gives the same.
LineIsFold == ParseLine(hist).o = o /\ Show(hist).pen = pen
\* C14: the parsed style, printed, shows that style and then resets.
PrintsBack == /\ PrintsRight(AsSpan, PrintToks(AsSpan))
              /\ PrintsRight([AsSpan EXCEPT !.rz = FALSE, !.link = "u"], PrintToks([AsSpan EXCEPT !.rz = FALSE, !.link = "u"]))
=============================================================================
