-------------------------------- MODULE Svg --------------------------------
(***************************************************************************)
(* What an exported SVG shows. An image is a sequence of elements, painted *)
(* one over the other: rectangles [k |-> "r", x, y, w, h, fill] and texts  *)
(* [k |-> "t", x, y, fill, st, t], in thousandths of a pixel, relative to  *)
(* the origin of the screen. A monospaced font of size fs advances by      *)
(* 0.60167 fs, rows are 1.265 fs high and a glyph of row r stands at       *)
(* r * 1.265 fs + fs.                                                      *)
(***************************************************************************)
EXTENDS Screen

CellX(fs, c) == (c * 60167 * fs) \div 100
CellY(fs, r) == r * 1265 * fs

Near(a, b) == a - b \in -12..12

Blank(g) == g \in {32, 160}

\* The styles an image can show; inverting exchanges the colours.
Visible(st) == st \cap {1, 2, 3, 4, 9}

\* A blank has no colour of its own unless a line goes through it.
Look(g, fg, bg, st) ==
    LET on == Visible(st)
    IN IF Blank(g) THEN IF on \cap {4, 9} = {} THEN <<32, None, bg, {}>> ELSE <<32, fg, bg, on>>
       ELSE <<g, fg, bg, on>>

\* How a cell of the screen has to look in the image.
Wanted(cell, dfg, dbg) ==
    LET fg  == IF cell[2] = None THEN dfg ELSE cell[2]
        bg  == IF cell[3] = None THEN dbg ELSE cell[3]
        inv == 7 \in cell[4]
    IN Look(cell[1], IF inv THEN bg ELSE fg, IF inv THEN fg ELSE bg, cell[4])

Picture(scr, dfg, dbg) == [p \in 1..(scr.w * scr.h) |-> Wanted(scr.cells[p], dfg, dbg)]

(***************************************************************************)
(* Painting.                                                               *)
(***************************************************************************)
Mixed == -9      \* a cell that is only partly covered by its background

\* The part of a cell that has to have its background.
Core(fs, c, r) == [l |-> CellX(fs, c) + 30, r |-> CellX(fs, c + 1) - 30,
                   t |-> CellY(fs, r) + 20 * fs, b |-> CellY(fs, r) + 1080 * fs]

Covers(e, k) == e.x <= k.l /\ e.x + e.w >= k.r /\ e.y <= k.t /\ e.y + e.h >= k.b
Touches(e, k) == e.x <= k.r /\ e.x + e.w >= k.l /\ e.y <= k.b /\ e.y + e.h >= k.t

\* A background may be a little larger than its cells, but stays with the screen, unless it is
\* the backdrop of all of it.
Inside(e, w, h, fs) ==
    \/ e.x <= 0 /\ e.y <= 0 /\ e.x + e.w >= CellX(fs, w) /\ e.y + e.h >= CellY(fs, h)
    \/ /\ e.x >= -300 * fs - 1000 /\ e.x + e.w <= CellX(fs, w) + 300 * fs + 1000
       /\ e.y >= -632 * fs - 1000 /\ e.y + e.h <= CellY(fs, h) + 632 * fs + 1000

PaintRect(pic, e, w, h, fs) ==
    [pic EXCEPT !.stray = @ \/ ~Inside(e, w, h, fs), !.cells =
        [p \in 1..(w * h) |->
            LET k == Core(fs, (p - 1) % w, (p - 1) \div w)
            IN IF Covers(e, k) THEN <<32, None, e.fill, {}>>
               ELSE IF Touches(e, k) THEN <<32, None, IF e.fill = @[p][3] THEN e.fill ELSE Mixed, {}>>
               ELSE @[p]]]

\* Glyphs have to stand on the grid, inside it.
PaintText(pic, e, w, h, fs) ==
    LET c == (e.x * 100 + 30083 * fs) \div (60167 * fs)
        r == (e.y - fs * 1000 + 632 * fs) \div (1265 * fs)
        n == Len(e.t)
        ok == /\ c >= 0 /\ c + n <= w /\ r \in 0..(h - 1)
              /\ Near(e.x, CellX(fs, c)) /\ Near(e.y, CellY(fs, r) + 1000 * fs)
    IN IF ~ok THEN [pic EXCEPT !.stray = TRUE]
       ELSE [pic EXCEPT !.cells =
                [p \in 1..(w * h) |->
                    LET k == p - (r * w + c)
                    IN IF k \in 1..n THEN Look(e.t[k], e.fill, @[p][3], e.st) ELSE @[p]]]

Paint(pic, e, w, h, fs) ==
    IF e.k = "r" THEN PaintRect(pic, e, w, h, fs) ELSE PaintText(pic, e, w, h, fs)

Painted(els, w, h, fs) ==
    FoldLeft(LAMBDA pic, e : Paint(pic, e, w, h, fs),
             [cells |-> [p \in 1..(w * h) |-> <<32, None, None, {}>>], stray |-> FALSE], els)

ShowsScreen(els, scr, fs, dfg, dbg) ==
    LET pic == Painted(els, scr.w, scr.h, fs)
    IN ~pic.stray /\ pic.cells = Picture(scr, dfg, dbg)

(***************************************************************************)
(* An exporter: every run of equally styled cells of a row becomes a       *)
(* rectangle with a text on it. Rectangles are a little larger than their  *)
(* cells so that no gaps show between them.                                *)
(***************************************************************************)
Style(cell) == <<cell[2], cell[3], cell[4]>>

RowRuns(scr, r) ==
    LET step(acc, c) ==
            LET cell == scr.cells[r * scr.w + c + 1]
            IN IF acc # <<>> /\ Style(Last(acc).cell) = Style(cell)
               THEN [acc EXCEPT ![Len(acc)].t = Append(@, cell[1])]
               ELSE Append(acc, [cell |-> cell, c |-> c, t |-> <<cell[1]>>])
    IN FoldLeft(LAMBDA acc, c : step(acc, c), <<>>, [c \in 1..scr.w |-> c - 1])

RunElements(run, r, fs, dfg, dbg) ==
    LET fg  == IF run.cell[2] = None THEN dfg ELSE run.cell[2]
        bg  == IF run.cell[3] = None THEN dbg ELSE run.cell[3]
        inv == 7 \in run.cell[4]
    IN << [k |-> "r", x |-> CellX(fs, run.c), y |-> CellY(fs, r) - 170 * fs,
           w |-> CellX(fs, Len(run.t)) + 500, h |-> 1366 * fs, fill |-> IF inv THEN fg ELSE bg],
          [k |-> "t", x |-> CellX(fs, run.c), y |-> CellY(fs, r) + 1000 * fs,
           fill |-> IF inv THEN bg ELSE fg, st |-> run.cell[4] \ {7}, t |-> run.t] >>

Export(scr, fs, dfg, dbg) ==
    FlattenSeq([r \in 1..scr.h |->
        FlattenSeq([k \in 1..Len(RowRuns(scr, r - 1)) |->
            RunElements(RowRuns(scr, r - 1)[k], r - 1, fs, dfg, dbg)])])
=============================================================================
