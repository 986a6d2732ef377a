----------------------------- MODULE TraceScreen -----------------------------
(***************************************************************************)
(* Validation of executions recorded from the real Screen and Terminal     *)
(* against Screen.tla. A trace is a configuration followed by events; each *)
(* event carries the operation, what the call returned, the cursor after   *)
(* it and the tokens that reached the stream. The verdict on an event is   *)
(* the set of clauses that failed; the specification's own state goes on.  *)
(***************************************************************************)
EXTENDS Svg, Json, IOUtils, TLC

C == INSTANCE Colours

Traces == JsonDeserialize(IOEnv.TRACES)

\* Which clauses decide which property.
Watch == [C01 |-> {"display", "pen", "scroll", "raised"},
          C02 |-> {"painted", "outside", "count", "raised"},
          C03 |-> {"display", "raised"},
          C04 |-> {"cursor", "glyphs", "raised"},
          C05 |-> {"display", "raised"},
          C06 |-> {"display", "outside", "raised"},
          C17 |-> {"colours", "raised"},
          C21 |-> {"svg", "page", "raised"},
          SCROLL |-> {"display"},
          ALL |-> {"display", "pen", "scroll", "painted", "outside", "count", "cursor", "svg", "page", "raised"}]
          [IOEnv.PROP]

VARIABLES tid, l, st, bad

Setting(c) == IF c = <<>> THEN <<>> ELSE <<c[1], c[2], c[3], c[4]>>

SpanOf(s) == [t |-> s.t, fg |-> Setting(s.fg), bg |-> Setting(s.bg), st |-> ToSet(s.st), rz |-> s.rz]

ItemOf(i) == [at |-> i.at, spans |-> [k \in 1..Len(i.spans) |-> SpanOf(i.spans[k])]]

\* Position p of the screen, as a position of the display behind it.
OnDisplay(d, scr, o, p) ==
    (o[2] - 1 + (p - 1) \div scr.w) * d.w + o[1] + ((p - 1) % scr.w)

Rect(d, scr, o) == {OnDisplay(d, scr, o, p) : p \in 1..(scr.w * scr.h)}

\* How a colour may look in the colour space of the program (spec/Colours.tla).
Sent(space, v, back) ==
    IF v = None \/ space = "true_color" THEN {v}
    ELSE {LET pen == Sgr(Pen0, ps) IN IF back THEN pen.bg ELSE pen.fg :
             ps \in C!Encodings(C!Col(<<v \div 65536, (v \div 256) % 256, v % 256>>, C!Unit, back, <<>>), space)}

Looks(space, shown, cell) ==
    \/ shown = cell
    \/ /\ space # "true_color"
       /\ shown[1] = cell[1] /\ shown[4] = cell[4]
       /\ shown[2] \in Sent(space, cell[2], FALSE) /\ shown[3] \in Sent(space, cell[3], TRUE)

Clause(name, holds) == IF holds THEN {} ELSE {name}

Start(cfg) ==
    [scr |-> [NewScreen(cfg.w, cfg.h, cfg.fill) EXCEPT !.cur = <<cfg.cur[1], cfg.cur[2]>>],
     dis |-> NewDisplay(cfg.pw, cfg.ph, UnknownCell),
     lost |-> {},       \* positions that something else has drawn over
     void |-> FALSE]

\* Output of an operation that must not paint.
Quiet(s, e, scr2) ==
    LET d == Feed(s.dis, e.toks)
    IN [st |-> [s EXCEPT !.scr = scr2, !.dis = d],
        bad |-> Clause("painted", d.touched = {}) \cup Clause("scroll", d.scrolled = 0)
                \cup Clause("pen", d.pen = Pen0)
                \cup Clause("cursor", e.cur = scr2.cur)]

JudgeWrite(s, cfg, e) ==
    LET items == [k \in 1..Len(e.items) |-> ItemOf(e.items[k])]
    IN IF ~InDomain(s.scr, items) /\ IOEnv.PROP = "SCROLL"
       THEN LET n == items[1].at[2] - s.scr.h + 1
            IN Quiet(s, e, WriteEffect(Scrolled(s.scr, n), <<[items[1] EXCEPT !.at[2] = s.scr.h - 1]>>,
                                       e.force, Setting(e.tbg)).scr)
       ELSE IF ~InDomain(s.scr, items)
       THEN [st |-> [s EXCEPT !.void = PrintT(<<"VOID", tid, l>>)], bad |-> {}]
       ELSE LET f == WriteEffect(s.scr, items, e.force, Setting(e.tbg))
                q == Quiet(s, e, f.scr)
            IN [q EXCEPT !.bad = @ \cup Clause("count", e.ret >= Cardinality(f.vis)
                                                        /\ e.ret <= Cardinality(f.all))]

\* After a change of size the display may show anything.
JudgeResize(s, e) ==
    IF e.auto /\ e.w = s.scr.w /\ e.h = s.scr.h      \* a terminal whose size did not change
    THEN Quiet(s, e, s.scr)
    ELSE LET q == Quiet(s, e, Resize(s.scr, e.w, e.h, e.fill, e.keep))
         IN [q EXCEPT !.st.dis = [NewDisplay(e.pw, e.ph, UnknownCell) EXCEPT !.pen = q.st.dis.pen], !.st.lost = {}]

\* Another program draws over the whole terminal.
JudgeScribble(s, e) ==
    LET q == Quiet(s, e, s.scr)
    IN [q EXCEPT !.st.dis = [NewDisplay(@.w, @.h, UnknownCell) EXCEPT !.pen = q.st.dis.pen],
                 !.st.lost = 1..(s.scr.w * s.scr.h)]

JudgeDraw(s, cfg, e) ==
    LET d    == Feed(s.dis, e.toks)
        o    == e.origin
        rect == Rect(d, s.scr, o)
        may  == IF e.redraw THEN rect ELSE {OnDisplay(d, s.scr, o, p) : p \in s.scr.dirty}
        lost == IF e.redraw THEN {} ELSE {p \in s.lost : OnDisplay(d, s.scr, o, p) \notin d.touched /\ p \notin s.scr.dirty}
        want == [p \in (1..(s.scr.w * s.scr.h)) \ lost |-> Seen(s.scr.cells[p])]
        show == [p \in 1..(s.scr.w * s.scr.h) |-> d.cells[OnDisplay(d, s.scr, o, p)]]
    IN [st  |-> [s EXCEPT !.scr = Drawn(@), !.dis = d, !.lost = lost],
        bad |-> Clause("display", \A p \in DOMAIN want : Looks(cfg.space, show[p], want[p]))
                \cup Clause("colours", \A p \in DOMAIN want :
                       show[p][1] = want[p][1] =>
                          Looks(cfg.space, <<show[p][1], show[p][2], show[p][3], want[p][4]>>, want[p]))
                \cup Clause("glyphs", \A p \in DOMAIN want : show[p][1] = want[p][1])
                \cup Clause("pen", d.pen = Pen0)
                \cup Clause("scroll", d.scrolled = 0)
                \cup Clause("outside", d.touched \subseteq rect)
                \cup Clause("painted", (d.touched \cap rect) \subseteq may)
                \cup Clause("cursor", e.cur = s.scr.cur)]

\* An exported image; a terminal's is a page with a background and margins.
ElementsOf(e) ==
    [k \in 1..Len(e.els) |->
        IF e.els[k].k = "r" THEN e.els[k]
        ELSE [e.els[k] EXCEPT !.st = ToSet(@)]]

PageOk(scr, e) ==
    /\ Near(e.page.w, CellX(e.fs, scr.w) + 32000) /\ Near(e.page.h, CellY(e.fs, scr.h) + 32000)
    /\ e.page.box = <<0, 0, e.page.w, e.page.h>>
    /\ e.page.font = e.fs * 1000
    /\ e.els # <<>>
    /\ e.els[1].k = "r" /\ e.els[1].fill = e.dbg
    /\ e.els[1].x = -16000 /\ e.els[1].y = -16000
    /\ e.els[1].w = e.page.w /\ e.els[1].h = e.page.h

JudgeSvg(s, e) ==
    LET scr2 == IF e.auto /\ (e.w # s.scr.w \/ e.h # s.scr.h) THEN Resize(s.scr, e.w, e.h, 32, TRUE) ELSE s.scr
        s2   == IF scr2 = s.scr THEN s
                ELSE [s EXCEPT !.lost = {}, !.dis = [NewDisplay(e.pw, e.ph, UnknownCell) EXCEPT !.pen = s.dis.pen]]
        q    == Quiet(s2, e, scr2)
    IN [q EXCEPT !.bad = @ \cup Clause("svg", ShowsScreen(ElementsOf(e), scr2, e.fs, e.dfg, e.dbg))
                           \cup (IF e.auto THEN Clause("page", PageOk(scr2, e)) ELSE {})]

\* The image of a single span.
JudgeSpanSvg(s, e) ==
    LET sp   == SpanOf(e.span)
        cell(g) == <<g, Value(sp.fg), Value(sp.bg), sp.st, <<>> >>
        row  == [w |-> Len(sp.t), h |-> 1, cells |-> [k \in 1..Len(sp.t) |-> cell(sp.t[k])]]
        fill == IF 7 \in sp.st THEN Value(sp.bg) ELSE Value(sp.fg)
    IN [st |-> s, bad |-> Clause("svg", ShowsScreen(ElementsOf(e), row, e.fs, e.dfg, e.dbg)
                                        /\ e.css[1] = fill /\ ToSet(e.css[2]) = Visible(sp.st))]

JudgeOp(s, cfg, e) ==
    CASE e.op = "write"  -> JudgeWrite(s, cfg, e)
      [] e.op = "clear"  -> Quiet(s, e, ClearScreen(s.scr, e.fill))
      [] e.op = "resize" -> JudgeResize(s, e)
      [] e.op = "cursor" -> Quiet(s, e, [s.scr EXCEPT !.cur = <<e.at[1], e.at[2]>>])
      [] e.op = "scribble" -> JudgeScribble(s, e)
      [] e.op = "draw"   -> JudgeDraw(s, cfg, e)
      [] e.op = "svg"    -> JudgeSvg(s, e)
      [] e.op = "spansvg" -> JudgeSpanSvg(s, e)

Judge(s, cfg, e) ==
    IF s.void THEN [st |-> s, bad |-> {}]
    ELSE LET r == JudgeOp(s, cfg, e)
         IN IF e.exc # "" /\ ~r.st.void THEN [r EXCEPT !.bad = {"raised"}] ELSE r

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = Start(Traces[tid][1])
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][1], Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
