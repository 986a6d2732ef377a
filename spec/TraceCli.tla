------------------------------ MODULE TraceCli ------------------------------
(* Validation of recorded runs of the real command line tools.             *)
EXTENDS Cli, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C23 |-> {"shown", "code", "settings", "usage"}][IOEnv.PROP]

VARIABLES tid, l, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

RECURSIVE LinesFrom(_, _, _)
LinesFrom(out, i, line) ==
    IF i > Len(out) THEN IF line = <<>> THEN <<>> ELSE <<line>>
    ELSE IF out[i][1] = 10 THEN <<line>> \o LinesFrom(out, i + 1, <<>>)
    ELSE LinesFrom(out, i + 1, Append(line, out[i]))

World(e) == [e.w EXCEPT !.re = [q \in {"10", "11", "2026"} |-> e.w.re[q]]]

Judge(e) ==
    LET v == Show(e.toks)
        lines == LinesFrom(v.out, 1, <<>>)
        w == World(e)
    IN IF e.cmd = "usage" THEN Clause("usage", e.code = 2 /\ v.out = <<>>)
       ELSE Clause("code", e.code = 0)
            \cup Clause("settings", e.same)
            \cup Clause("shown", /\ v.pen = Pen0
                                 /\ CASE e.cmd = "size"  -> SizeOk(w, lines)
                                      [] e.cmd = "getch" -> GetchOk(w, e.t, e.raw, lines)
                                      [] e.cmd = "debug" -> DebugOk(w, lines))

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ bad' = Judge(Traces[tid][l + 1])
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
