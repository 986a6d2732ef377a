------------------------------- MODULE MCQuery -------------------------------
(***************************************************************************)
(* All short histories of questions, with every kind of reply each time;   *)
(* every transition is emitted and replayed on real Terminals.             *)
(***************************************************************************)
EXTENDS Query, TLC, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)

Bad == [k |-> "bad"]
None == [k |-> "none"]
Rgb(a, b, c) == [k |-> "rgb", v |-> <<a, b, c>>]
Px(h, w) == [k |-> "px", v |-> <<h, w>>]
M(n) == [k |-> "mode", v |-> <<n>>]

Replies(q) ==
    CASE q = "10" -> {Bad, Rgb(65535, 0, 4660)}
      [] q = "11" -> {Bad, Rgb(257, 43981, 65280)}
      [] q = "14" -> {Bad, None, Px(720, 1280), Px(33, 44)}
      [] q = "2026" -> {Bad, None, M(0), M(1), M(2), M(4)}

VARIABLES s, asked, hist

vars == <<s, asked, hist>>

Zero == [q \in Questions |-> 0]

Init ==
    \E i, o \in BOOLEAN, r10 \in Replies("10"), r11 \in Replies("11") :
        LET a == Ask(Start(i, o, <<640, 480>>), "11", r11)
            b == Ask(a.st, "10", r10)
        IN /\ s = b.st
           /\ asked = [Zero EXCEPT !["10"] = b.sent, !["11"] = a.sent]
           /\ hist = <<[op |-> "create", in |-> i, out |-> o, res |-> <<640, 480>>, replies |-> [q \in {"10", "11"} |-> IF q = "10" THEN r10 ELSE r11]]>>

Next ==
    /\ Len(hist) <= Depth
    /\ \E q \in Questions : \E r \in Replies(q) :
         LET a == Ask(s, q, r)
         IN /\ s' = a.st
            /\ asked' = [asked EXCEPT ![q] = @ + a.sent]
            /\ hist' = Append(hist, [op |-> "ask", q |-> q, reply |-> r])

View == <<s, asked, Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

\* C22
AskedOnce == \A q \in Cached : asked[q] <= 1
Remembered == [][\A q \in Cached : s.memo[q] # <<>> => s'.memo[q] = s.memo[q]]_vars
FallbackWithoutTty == ~s.in => s.memo["10"] = ColourFallback["10"] /\ s.memo["11"] = ColourFallback["11"]
=============================================================================
