-------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* A terminal in which tools are run, resized and with variables set in    *)
(* between. Every run is emitted with its world and replayed.              *)
(***************************************************************************)
EXTENDS Cli, Json, CSV, IOUtils, TLC

Depth == atoi(IOEnv.DEPTH)

Rgb16(a, b, c) == [k |-> "rgb", v |-> <<a, b, c>>]
Mode(n) == [k |-> "mode", v |-> <<n>>]
Bad == [k |-> "bad"]

Envs == [SLATE_COLORSYS |-> {<<>>, <<"true_color">>, <<"EIGHT_BIT">>, <<"no_color">>},
         NO_COLOR |-> {<<>>, <<"">>, <<"1">>},
         COLORTERM |-> {<<>>, <<"truecolor">>, <<"256color">>},
         TERM |-> {<<"xterm">>, <<"xterm-256color">>, <<"a-terminal-with-a-very-long-name-indeed">>}]

Sizes == {<<80, 24>>, <<7, 3>>, <<1000, 2>>, <<3, 100>>}
Replies == [q \in {"10", "11", "2026"} |->
              CASE q = "10" -> {Rgb16(65535, 0, 4660), Bad}
                [] q = "11" -> {Rgb16(257, 43981, 65280), Bad}
                [] q = "2026" -> {Mode(2), Mode(0), [k |-> "none"]}]

Keys == {<<97>>, <<27, 91, 65>>, <<27>>, <<39>>, <<27, 91, 60, 48, 59, 49, 59, 49, 77>>, <<104, 105>>, <<3>>}

Runs == {[cmd |-> "size", raw |-> FALSE, t |-> <<>>], [cmd |-> "debug", raw |-> FALSE, t |-> <<>>]}
        \cup [cmd : {"getch"}, raw : BOOLEAN, t : Keys]

VARIABLES w, n, last

vars == <<w, n, last>>

Init ==
    /\ n = 0
    /\ last = <<>>
    /\ w = [env |-> [S!EnvUnset EXCEPT !["TERM"] = <<"xterm">>], w |-> 80, h |-> 24, in |-> TRUE, out |-> TRUE,
            re |-> [q \in {"10", "11", "2026"} |-> IF q = "2026" THEN Mode(2) ELSE Rgb16(65535, 0, 4660)]]

Change ==
    \/ \E v \in S!Names : \E x \in Envs[v] : w' = [w EXCEPT !.env[v] = x]
    \/ \E s \in Sizes : w' = [w EXCEPT !.w = s[1], !.h = s[2]]
    \/ \E i, o \in BOOLEAN : w' = [w EXCEPT !.in = i, !.out = o]
    \/ \E q \in DOMAIN Replies : \E r \in Replies[q] : w' = [w EXCEPT !.re[q] = r]

Next ==
    \/ n < Depth /\ Change /\ n' = n + 1 /\ last' = <<>>
    \/ last = <<>> /\ \E r \in Runs : last' = <<r>> /\ UNCHANGED <<w, n>>

Emit == last' # <<>> => CSVWrite("%1$s", <<ToJson(<<[w |-> w, run |-> last'[1]]>>)>>, IOEnv.EMIT)

\* C23
RowsAlign ==
    LET t == Table(w)
        ls == TableLines(w)
    IN \A i \in DOMAIN ls : \A line \in ls[i] :
          Len(line) \in {0, Width(t)} \/ \E k \in DOMAIN t : t[k].kind = "head" /\ Len(line) = Len(t[k].left)

SamplesFit ==
    LET ls == SampleLines(Width(Table(w)))
    IN /\ \A i \in DOMAIN ls : ls[i] # <<>> /\ Len(ls[i]) <= Width(Table(w))
       /\ FoldLeft(LAMBDA a, l : a + Len(l) + 1, 0, ls) = FoldLeft(LAMBDA a, s : a + Len(s[1]) + 1, 0, Samples)

ColoursFallBack == ~w.in => Answer(w, "10") = <<222, 222, 222>> /\ Answer(w, "2026") = <<0>>

OneLine == last # <<>> /\ last[1].cmd = "getch" =>
    10 \notin {GetchLine(w, last[1].t, last[1].raw)[i][1] : i \in 1..Len(GetchLine(w, last[1].t, last[1].raw))}
=============================================================================
