------------------------------- MODULE Screen -------------------------------
(***************************************************************************)
(* The logical screen: a matrix of cells, a cursor and the set of cells    *)
(* that may differ from what the display shows.                            *)
(*                                                                         *)
(* A cell is <<code point, fg, bg, attributes, hid>>; the first four are   *)
(* what a viewer sees, hid is bookkeeping of the encoding that decides     *)
(* whether an invisible change may be counted and painted as a change.     *)
(*                                                                         *)
(* Colours inside spans are <<>> (none) or <<r, g, b, a>> with the alpha   *)
(* in thousandths. A span is a record                                      *)
(*   t: code points, fg, bg: colours, st: SGR attribute numbers (99 marks  *)
(*   the library's "opaque"), rz: whether the span resets after itself.    *)
(***************************************************************************)
EXTENDS Ansi

Seen(cell) == <<cell[1], cell[2], cell[3], cell[4]>>

FillCell(cp) == <<cp, None, None, {}, <<FALSE, FALSE, 1000>> >>

Opaque(c) == c # <<>> /\ c[4] = 1000
Translucent(c) == c # <<>> /\ c[4] # 1000

Value(c) == IF c = <<>> THEN None ELSE Rgb(c[1], c[2], c[3])

White == <<255, 255, 255, 1000>>

(***************************************************************************)
(* Compositing                                                             *)
(***************************************************************************)
MixChannel(v1, v2, a) == Clamp((v1 * 1000 + (v2 - v1) * a) \div 1000, 0, 255)

Mix(base, other, a) == <<MixChannel(base[1], other[1], a), MixChannel(base[2], other[2], a),
                         MixChannel(base[3], other[3], a), 1000>>

\* `other` painted over `base`. The library strengthens translucent
\* backgrounds by a tenth (boost = 100).
Over(base, other, boost) ==
    IF other = <<>> THEN base
    ELSE IF base = <<>> \/ other[4] = 1000 THEN other
    ELSE Mix(base, other, IF other[4] + boost > 1000 THEN 1000 ELSE other[4] + boost)

\* Blank for the purpose of letting what is beneath show through.
IsBlank(cp) == cp \in {9, 32, 160, 8195, 12288}

\* A layer being built up in one cell during one (bulk) write. <<>> is untouched.
Layer(g) == [c |-> g.c, fg |-> g.fg, bg |-> g.bg, st |-> g.st, rz |-> g.rz,
             bleed |-> FALSE, stack |-> <<>>]

AddLayer(old, g) ==
    IF old # <<>> /\ Translucent(g.bg)
    THEN IF IsBlank(g.c) /\ 99 \notin g.st
         THEN [old[1] EXCEPT !.stack = Append(@, g.bg),
                             !.bleed = <<g.c, g.st, g.rz>> # <<old[1].c, old[1].st, old[1].rz>>]
         ELSE [old[1] EXCEPT !.stack = Append(@, g.bg), !.c = g.c, !.fg = g.fg, !.st = g.st,
                             !.rz = g.rz, !.bleed = FALSE]
    ELSE Layer(g)

\* Successive equal translucent layers count once.
TintStep(acc, col) ==
    IF col = acc.prev THEN acc
    ELSE [prev |-> col, bg |-> Over(acc.bg, col, 100),
          fg |-> IF acc.bleed THEN Over(acc.fg, col, 100) ELSE acc.fg, bleed |-> acc.bleed]

FinishLayer(lay, termbg) ==
    LET fg0 == IF lay.fg = <<>> THEN White ELSE lay.fg
        t   == FoldLeft(TintStep,
                        [prev |-> lay.bg, bg |-> lay.bg, fg |-> fg0, bleed |-> lay.bleed],
                        lay.stack)
        bg  == IF Translucent(t.bg) THEN Over(termbg, t.bg, 100) ELSE t.bg
        fg  == IF Translucent(t.fg) THEN Over(bg, t.fg, 0) ELSE t.fg
    IN <<lay.c, Value(fg), Value(bg), lay.st \ {99}, <<lay.rz, 99 \in lay.st, fg[4]>> >>

(***************************************************************************)
(* Placement of text                                                       *)
(***************************************************************************)
Newline == 10

\* All characters of a list of spans, each with its look.
GlyphsOf(span) ==
    [i \in 1..Len(span.t) |->
        [c |-> span.t[i], fg |-> span.fg, bg |-> span.bg, st |-> span.st,
         rz |-> i = Len(span.t) /\ span.rz /\ span.st # {}]]

AllGlyphs(spans) == FoldLeft(LAMBDA acc, s : acc \o GlyphsOf(s), <<>>, spans)

\* acc: [x, y, lay]; lay[p] is <<>> or <<layer>> for each position p.
PlaceGlyph(w, h, acc, g) ==
    IF acc.x < 0 \/ acc.x >= w \/ acc.y < 0 \/ acc.y >= h THEN acc
    ELSE IF g.c = Newline THEN [acc EXCEPT !.y = @ + 1]
    ELSE LET p == acc.y * w + acc.x + 1
         IN [x   |-> IF acc.x + 1 >= w THEN 0 ELSE acc.x + 1,
             y   |-> IF acc.x + 1 >= w THEN acc.y + 1 ELSE acc.y,
             lay |-> [acc.lay EXCEPT ![p] = <<AddLayer(@, g)>>]]

PlaceItem(w, h, acc, item) ==
    LET start == IF item.at = <<>> THEN acc ELSE [acc EXCEPT !.x = item.at[1], !.y = item.at[2]]
    IN FoldLeft(LAMBDA a, g : PlaceGlyph(w, h, a, g), start, AllGlyphs(item.spans))

Place(scr, items) ==
    FoldLeft(LAMBDA a, item : PlaceItem(scr.w, scr.h, a, item),
             [x |-> scr.cur[1], y |-> scr.cur[2],
              lay |-> [p \in 1..(scr.w * scr.h) |-> <<>>]], items)

\* A write starts in a row of the screen (or above it): the specified domain.
InDomain(scr, items) ==
    /\ \A i \in DOMAIN items : items[i].at # <<>> => items[i].at[2] < scr.h
    /\ (items # <<>> /\ items[1].at = <<>>) => scr.cur[2] < scr.h

\* Intended meaning of a write that starts below the bottom row: the content moves up
\* until that row is the bottom one. The library does not achieve this (see the known
\* findings), so it is outside of the domain in which the screen is checked.
Scrolled(scr, n) ==
    [scr EXCEPT !.cells = [p \in 1..(scr.w * scr.h) |->
                              IF p + n * scr.w <= scr.w * scr.h THEN scr.cells[p + n * scr.w]
                              ELSE FillCell(32)],
                !.dirty = 1..(scr.w * scr.h)]

(***************************************************************************)
(* Operations of the screen; each gives the new screen.                    *)
(***************************************************************************)
NewScreen(w, h, fill) ==
    [w |-> w, h |-> h, cells |-> [p \in 1..(w * h) |-> FillCell(fill)],
     cur |-> <<0, 0>>, dirty |-> 1..(w * h)]

\* The effect of one write; `vis`/`all` bound the cells that count as changed.
WriteEffect(scr, items, force, termbg) ==
    LET pl   == Place(scr, items)
        hit  == {p \in 1..(scr.w * scr.h) : pl.lay[p] # <<>>}
        new  == [p \in 1..(scr.w * scr.h) |->
                    IF p \in hit THEN FinishLayer(pl.lay[p][1], termbg) ELSE scr.cells[p]]
        all  == IF force THEN hit ELSE {p \in hit : new[p] # scr.cells[p]}
        vis  == IF force THEN hit ELSE {p \in hit : Seen(new[p]) # Seen(scr.cells[p])}
    IN [scr |-> [scr EXCEPT !.cells = new, !.cur = <<pl.x, pl.y>>, !.dirty = @ \cup all],
        vis |-> vis, all |-> all, hit |-> hit]

Resize(scr, w, h, fill, keep) ==
    [scr EXCEPT !.w = w, !.h = h,
                !.cells = [p \in 1..(w * h) |->
                             LET x == (p - 1) % w
                                 y == (p - 1) \div w
                             IN IF keep /\ x < scr.w /\ y < scr.h THEN scr.cells[y * scr.w + x + 1]
                                ELSE FillCell(fill)],
                !.dirty = 1..(w * h)]

ClearScreen(scr, fill) == [Resize(scr, scr.w, scr.h, fill, FALSE) EXCEPT !.cur = <<0, 0>>]

Drawn(scr) == [scr EXCEPT !.dirty = {}]
=============================================================================
