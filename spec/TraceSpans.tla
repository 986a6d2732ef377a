----------------------------- MODULE TraceSpans -----------------------------
(***************************************************************************)
(* Validation of recorded uses of the real Span class against Spans.tla.   *)
(* The state is the pool of spans that a history has made so far.          *)
(***************************************************************************)
EXTENDS Spans, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C13 |-> {"chars", "error", "layer", "first"},
          C14 |-> {"printed", "characters", "width", "raised"},
          C15 |-> {"derived", "altered", "shown", "raised", "count"}]
          [IOEnv.PROP]

VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

Col(c) == IF c = <<>> THEN <<>> ELSE <<c[1], c[2], c[3], c[4]>>

SpanOf(s) == [t |-> s.t, fg |-> Col(s.fg), bg |-> Col(s.bg), st |-> ToSet(s.st), link |-> s.link, rz |-> s.rz]

Spans(seq) == [k \in 1..Len(seq) |-> SpanOf(seq[k])]

\* Every colour is on the layer it is used for.
LayersRight(s) == (s.fg # <<>> => s.fg[5] = 0) /\ (s.bg # <<>> => s.bg[5] = 1)

(***************************************************************************)
(* C13: parsing                                                            *)
(***************************************************************************)
JudgeParse(s, e) ==
    LET want == ParseLine(e.pieces)
        got  == Spans(e.spans)
        flat == Flat(got)
    IN [st |-> s,
        bad |-> CASE want.err = "value" -> Clause("error", e.exc = "ValueError")
                  [] want.err = "any"   -> Clause("error", e.exc \in {"", "ValueError"})
                  [] OTHER ->
                       Clause("error", e.exc = "")
                       \cup Clause("chars", flat = want.out /\ \A k \in DOMAIN got : got[k].link = "")
                       \cup Clause("layer", \A k \in DOMAIN e.spans : LayersRight(e.spans[k]))
                       \cup Clause("first", IF want.out = <<>> THEN e.first = <<>>
                                            ELSE Len(e.first) = 1 /\ Len(e.first[1].t) > 0
                                                 /\ LET f == Flat(Spans(e.first))
                                                    IN f = SubSeq(want.out, 1, Len(f)))]

(***************************************************************************)
(* C14: printing                                                           *)
(***************************************************************************)
JudgePrint(s, e) ==
    LET sp == SpanOf(e.span)
    IN [st |-> s,
        bad |-> IF e.exc # "" THEN {"raised"}
                ELSE Clause("printed", PrintsRight(sp, e.toks))
                     \cup Clause("characters", \A k \in DOMAIN e.chars :
                                    CharsRight(sp, e.chars[k].ex, e.chars[k].al, e.chars[k].lists))
                     \cup Clause("width", e.len = Len(sp.t) /\ e.wspan = Len(sp.t) /\ e.wstr = Len(sp.t))]

(***************************************************************************)
(* C15: deriving; s.pool holds all spans so far                            *)
(***************************************************************************)
New(pool, e) ==
    LET x == IF e.op = "make" THEN <<>> ELSE pool[e.i] IN
    CASE e.op = "make"    -> << SpanOf(e.span) >>
      [] e.op = "slice"   -> << [x EXCEPT !.t = SliceText(@, e.a, e.b, e.step)] >>
      [] e.op = "index"   -> << [x EXCEPT !.t = <<@[(IF e.k < 0 THEN e.k + Len(@) ELSE e.k) + 1]>>] >>
      [] e.op = "split"   -> LET parts == SplitText(x.t, e.sep)
                             IN [k \in 1..Len(parts) |-> [x EXCEPT !.t = parts[k]]]
      [] e.op = "attr"    -> << SetAttr(x, e.n, e.on) >>
      [] e.op = "text"    -> << [x EXCEPT !.t = e.t] >>
      [] e.op = "link"    -> << [x EXCEPT !.link = e.link] >>
      [] e.op = "reset"   -> << [x EXCEPT !.rz = e.on] >>
      [] e.op = "colour"  -> << IF e.back THEN [x EXCEPT !.bg = Col(e.c)] ELSE [x EXCEPT !.fg = Col(e.c)] >>
      [] OTHER            -> << >>             \* uses that make no span

JudgeDerive(s, e) ==
    LET new  == New(s.pool, e)
        pool == s.pool \o new
        n    == Len(s.pool)
        got  == Spans(e.pool)
    IN [st |-> [pool |-> pool],
        bad |-> IF e.exc # "" THEN {"raised"}
                ELSE Clause("count", Len(got) = Len(pool))
                     \cup Clause("altered", Len(got) >= n /\ SubSeq(got, 1, n) = s.pool)
                     \cup Clause("derived", Len(got) = Len(pool) => SubSeq(got, n + 1, Len(got)) = new)
                     \cup Clause("shown", Len(got) = Len(pool) =>
                            \A k \in DOMAIN e.shown :
                               /\ PrintsRight(pool[k], e.shown[k].toks)
                               /\ CharsRight(pool[k], FALSE, FALSE, e.shown[k].plain)
                               /\ CharsRight(pool[k], TRUE, TRUE, e.shown[k].every))]

Judge(s, e) ==
    CASE e.op = "parse" -> JudgeParse(s, e)
      [] e.op = "print" -> JudgePrint(s, e)
      [] OTHER          -> JudgeDerive(s, e)

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = [pool |-> <<>>]
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
