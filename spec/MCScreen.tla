------------------------------ MODULE MCScreen ------------------------------
(***************************************************************************)
(* The screen, drawn on a display by a renderer that sends only what is    *)
(* dirty: exhaustively checked for small screens and texts. Every explored *)
(* transition is also written out (EMIT), as the operations that lead to   *)
(* it, and replayed on the real code.                                      *)
(***************************************************************************)
EXTENDS Screen, TLC, Json, CSV, IOUtils

CONSTANTS Depth,      \* length of the explored histories
          Sizes,      \* screen sizes; the first is where it starts
          Focus       \* which part of the behaviour the operations concentrate on

TheDepth == atoi(IOEnv.DEPTH)

TheSizes == <<<<2, 2>>, <<3, 1>>, <<1, 3>>>>

Ox == 2
Oy == 1
Pw == 5
Ph == 4

VARIABLES scr, dis, hist, last,
          lost        \* positions that something else has drawn over

vars == <<scr, dis, hist, last, lost>>

(***************************************************************************)
(* A renderer: runs of neighbouring dirty cells, each cell self-contained. *)
(***************************************************************************)
CellToks(cell) ==
    LET ps == (IF cell[2] = None THEN <<>>
               ELSE <<38, 2, cell[2] \div 65536, (cell[2] \div 256) % 256, cell[2] % 256>>)
              \o (IF cell[3] = None THEN <<>>
                  ELSE <<48, 2, cell[3] \div 65536, (cell[3] \div 256) % 256, cell[3] % 256>>)
              \o SetToSortSeq(cell[4], <)
    IN IF ps = <<>> THEN << <<"t", <<cell[1]>> >> >>
       ELSE << <<"m", ps>>, <<"t", <<cell[1]>> >>, <<"m", <<0>> >> >>

RenderStep(s, acc, p) ==
    LET x == (p - 1) % s.w
        y == (p - 1) \div s.w
    IN [prev |-> <<x, y>>,
        toks |-> acc.toks
                 \o (IF acc.prev = <<x - 1, y>> THEN <<>> ELSE << <<"H", y + Oy, x + Ox>> >>)
                 \o CellToks(s.cells[p])]

Render(s, ps) ==
    FoldLeft(LAMBDA acc, p : RenderStep(s, acc, p), [prev |-> <<>>, toks |-> <<>>],
             SetToSortSeq(ps, <)).toks \o << <<"m", <<0>> >> >>

(***************************************************************************)
(* The texts and layers that are written.                                  *)
(***************************************************************************)
Sp(t, fg, bg, stl, rz) == [t |-> t, fg |-> fg, bg |-> bg, st |-> stl, rz |-> rz]
Red   == <<255, 0, 0, 1000>>
Blue  == <<0, 0, 250, 1000>>
HalfR == <<255, 0, 0, 333>>
HalfG == <<0, 255, 0, 613>>

Lines ==
    CASE Focus = "text" ->
           { <<Sp(<<97>>, <<>>, <<>>, {}, TRUE)>>,
             <<Sp(<<98>>, Red, <<>>, {1}, TRUE)>>,
             <<Sp(<<97, 98, 99>>, <<>>, Blue, {}, TRUE)>>,
             <<Sp(<<97, 10, 98>>, <<>>, <<>>, {}, TRUE)>>,
             <<Sp(<<120>>, <<>>, <<>>, {4}, FALSE), Sp(<<>>, Red, <<>>, {}, TRUE), Sp(<<121, 122>>, <<>>, <<>>, {}, TRUE)>>,
             <<>> }
      [] OTHER ->
           { <<Sp(<<97>>, <<>>, <<>>, {}, TRUE)>>,
             <<Sp(<<98>>, Red, Blue, {}, TRUE)>>,
             <<Sp(<<32>>, <<>>, HalfR, {}, TRUE)>>,
             <<Sp(<<32>>, <<>>, HalfG, {99}, TRUE)>>,
             <<Sp(<<99>>, HalfG, HalfR, {}, TRUE)>>,
             <<Sp(<<100>>, HalfR, <<>>, {1}, TRUE)>> }

Tints == { <<Sp(<<32>>, <<>>, HalfR, {}, TRUE)>>, <<Sp(<<32>>, <<>>, HalfG, {}, TRUE)>>, <<Sp(<<99>>, HalfG, HalfR, {}, TRUE)>> }

Places == IF Focus = "text"
          THEN {<<>>, <<0, 0>>, <<1, 0>>, <<1, scr.h - 1>>, <<0, -1>>, <<-1, 0>>, <<scr.w, 0>>}
          ELSE {<<>>, <<0, 0>>, <<1, 0>>}

Bulks == IF Focus = "text" THEN {}
         ELSE {<<[at |-> <<0, 0>>, spans |-> a], [at |-> <<0, 0>>, spans |-> b]>> : a, b \in Lines}
              \cup {<<[at |-> <<0, 0>>, spans |-> a], [at |-> <<0, 0>>, spans |-> b],
                      [at |-> <<0, 0>>, spans |-> c]>> : a, b, c \in Lines}
              \cup {<<[at |-> <<0, 0>>, spans |-> <<Sp(<<98>>, Red, Blue, {}, TRUE)>>], [at |-> <<0, 0>>, spans |-> a],
                      [at |-> <<0, 0>>, spans |-> b], [at |-> <<0, 0>>, spans |-> c]>> : a, b, c \in Tints}

Writes == {<<[at |-> at, spans |-> ln]>> : at \in Places, ln \in Lines} \cup Bulks

(***************************************************************************)
(* The actions                                                             *)
(***************************************************************************)
Init ==
    \E s \in {Sizes[1]} :
        /\ scr = NewScreen(s[1], s[2], 32)
        /\ dis = NewDisplay(Pw, Ph, UnknownCell)
        /\ hist = <<>>
        /\ last = [op |-> "init"]
        /\ lost = {}

Log(o) == hist' = Append(hist, o) /\ last' = o

TermBg == <<0, 0, 0, 1000>>

Write(items, force) ==
    LET f == WriteEffect(scr, items, force, TermBg)
    IN /\ InDomain(scr, items)
       /\ scr' = f.scr
       /\ dis' = [dis EXCEPT !.touched = {}]
       /\ lost' = lost
       /\ Log([op |-> "write", via |-> IF Len(items) = 1 THEN "list" ELSE "bulk", items |-> items,
               force |-> force])

Clear(fill) ==
    /\ scr' = ClearScreen(scr, fill)
    /\ dis' = [dis EXCEPT !.touched = {}]
    /\ lost' = lost
    /\ Log([op |-> "clear", fill |-> fill])

ResizeTo(s, keep) ==
    /\ scr' = Resize(scr, s[1], s[2], 46, keep)
    /\ dis' = NewDisplay(Pw, Ph, UnknownCell)
    /\ lost' = {}
    /\ Log([op |-> "resize", w |-> s[1], h |-> s[2], fill |-> 46, keep |-> keep])

SetCursor(at) ==
    /\ scr' = [scr EXCEPT !.cur = at]
    /\ dis' = [dis EXCEPT !.touched = {}]
    /\ lost' = lost
    /\ Log([op |-> "cursor", at |-> at])

Draw ==
    /\ dis' = Feed(dis, Render(scr, scr.dirty))
    /\ scr' = Drawn(scr)
    /\ lost' = lost \ scr.dirty
    /\ Log([op |-> "draw", redraw |-> FALSE])

Redraw ==
    /\ dis' = Feed(dis, Render(scr, 1..(scr.w * scr.h)))
    /\ scr' = Drawn(scr)
    /\ lost' = {}
    /\ Log([op |-> "draw", redraw |-> TRUE])

\* Another program draws over the screen; only a full redraw is sure to repair that.
Scribble ==
    /\ lost = {} /\ Focus = "text"
    /\ dis' = NewDisplay(Pw, Ph, UnknownCell)
    /\ scr' = scr
    /\ lost' = 1..(scr.w * scr.h)
    /\ Log([op |-> "scribble"])

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E items \in Writes : Write(items, FALSE)
       \/ \E items \in Writes : Len(items) = 1 /\ Write(items, TRUE)
       \/ Clear(32)
       \/ Clear(46)
       \/ \E s \in ToSet(Sizes), k \in BOOLEAN : ResizeTo(s, k)
       \/ SetCursor(<<0, scr.h - 1>>)
       \/ Draw
       \/ Redraw
       \/ Scribble

View == <<scr, [dis EXCEPT !.touched = {}], lost, Len(hist), last.op = "draw">>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

(***************************************************************************)
(* The properties                                                          *)
(***************************************************************************)
At(p) == (Oy - 1 + (p - 1) \div scr.w) * Pw + Ox + ((p - 1) % scr.w)

All == 1..(scr.w * scr.h)

\* C01: what is not waiting to be drawn is what the display shows.
Shown == \A p \in All \ (scr.dirty \cup lost) : dis.cells[At(p)] = Seen(scr.cells[p])
DrawnIsShown == last.op = "draw" => scr.dirty = {} /\ dis.pen = Pen0 /\ (last.redraw => lost = {})

\* C02: only cells that were dirty are painted.
OnlyDirty == [][ (last'.op = "draw" /\ ~last'.redraw) => dis'.touched = {At(p) : p \in scr.dirty} ]_vars
\* C02: nothing outside of the screen's rectangle.
Inside == dis.touched \subseteq {At(p) : p \in All} /\ dis.scrolled = 0

\* C03: a write does not reach cells before its start or beyond its length.
Length(items) == FoldLeft(LAMBDA n, i : n + Len(AllGlyphs(i.spans)), 0, items)
WriteBound ==
    [][ last'.op = "write"
        => Cardinality({p \in All : scr'.cells[p] # scr.cells[p]}) <= Length(last'.items) ]_vars

\* C04: the cursor is on the screen or at the place after its last cell, once placed there.
CursorMoves ==
    [][ /\ last'.op \in {"draw", "resize"} => scr'.cur = scr.cur
        /\ last'.op = "clear" => scr'.cur = <<0, 0>> ]_vars

\* C05: a cell that got an opaque layer last shows nothing of the earlier ones.
OpaqueWins ==
    [][ (last'.op = "write" /\ Len(last'.items) > 1
         /\ ~Translucent(last'.items[Len(last'.items)].spans[1].bg))
        => scr'.cells[1] = WriteEffect(scr, <<last'.items[Len(last'.items)]>>, FALSE, TermBg).scr.cells[1] ]_vars

\* C06
KeptOnResize ==
    [][ (last'.op = "resize") =>
          /\ scr'.dirty = 1..(scr'.w * scr'.h)
          /\ \A x \in 0..(scr'.w - 1), y \in 0..(scr'.h - 1) :
                scr'.cells[y * scr'.w + x + 1] =
                    IF last'.keep /\ x < scr.w /\ y < scr.h THEN scr.cells[y * scr.w + x + 1]
                    ELSE FillCell(46) ]_vars
=============================================================================
