-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* Questions to the terminal and their answers. A terminal behaviour says, *)
(* for each question, what it replies: [k |-> "none"], [k |-> "bad"] or a  *)
(* well-formed reply with its values.                                      *)
(*   "10", "11"  default colours: k = "rgb", v = the three 16-bit channels *)
(*   "14"        pixel size:      k = "px",  v = <<height, width>>         *)
(*   "2026"      synchronized update: k = "mode", v = <<n>>                *)
(* A library terminal remembers the answers of the cached questions.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Questions == {"10", "11", "14", "2026"}
Cached == {"10", "11", "2026"}
\* A question that is not timed waits for some answer, so a terminal has to give one.
Timed == {"14", "2026"}

ColourFallback == [q \in {"10", "11"} |-> IF q = "10" THEN <<222, 222, 222>> ELSE <<20, 20, 20>>]

\* The answer the library is to give: reply r, fallback resolution res.
Answer(q, r, res) ==
    CASE q \in {"10", "11"} -> IF r.k = "rgb" THEN [i \in 1..3 |-> r.v[i] \div 256] ELSE ColourFallback[q]
      [] q = "14"   -> IF r.k = "px" THEN <<r.v[2], r.v[1]>> ELSE res
      [] q = "2026" -> <<IF r.k = "mode" /\ r.v[1] \in {1, 2} THEN 1 ELSE 0>>

\* Who can be asked: colours and the mode need a tty to read from, the size one to write to.
CanAsk(q, s) == IF q = "14" THEN s.out /\ s.in ELSE s.in

\* Is the question sent? The mode is asked for even if nobody can answer.
Sends(q, s) ==
    CASE q \in {"10", "11"} -> s.in
      [] q = "14" -> s.out
      [] q = "2026" -> TRUE

Start(inTty, outTty, res) == [in |-> inTty, out |-> outTty, res |-> res, memo |-> [q \in Cached |-> <<>>]]

Known(s, q) == q \in Cached /\ s.memo[q] # <<>>

\* Asking: the answer, how often the question is sent, and the state after it.
Ask(s, q, r) ==
    IF Known(s, q) THEN [st |-> s, got |-> s.memo[q], sent |-> 0]
    ELSE LET a == Answer(q, IF CanAsk(q, s) THEN r ELSE [k |-> "none"], s.res)
         IN [st |-> IF q \in Cached THEN [s EXCEPT !.memo[q] = a] ELSE s, got |-> a,
             sent |-> IF Sends(q, s) THEN 1 ELSE 0]
=============================================================================
