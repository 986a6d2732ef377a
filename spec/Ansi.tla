-------------------------------- MODULE Ansi --------------------------------
(***************************************************************************)
(* The display terminal that slate talks to: how a standard (ECMA-48 /     *)
(* xterm) terminal interprets the control sequences it receives.           *)
(*                                                                         *)
(* A stream is a sequence of tokens, produced by a purely lexical split of *)
(* the characters that slate wrote (harness/tok.py):                       *)
(*   <<"t", cps>>         a run of printable characters (code points)      *)
(*   <<"m", ps>>          SGR with integer parameters (empty = 0)          *)
(*   <<"H", row, col>>    cursor position, 1-based as sent                 *)
(*   <<"C", f, n>>        relative or absolute cursor move, final byte f     *)
(*   <<"N">> <<"R">> <<"B">>  LF, CR, BEL                                  *)
(*   <<"D", n, b>>        DEC private mode n set (1) / reset (0)           *)
(*   <<"W", ps>>          window operation (title stack: 22 / 23)          *)
(*   <<"T", title>>       OSC 0 / 2, set title                             *)
(*   <<"L", uri>>         OSC 8, hyperlink ("" closes it)                  *)
(*   <<"X", text>>        anything else; ignored by the display            *)
(*                                                                         *)
(* Colours are integers: -1 is the terminal's default, otherwise           *)
(* 65536*r + 256*g + b. Attributes are the SGR numbers 1..9 that set them. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == -1

Rgb(r, g, b) == 65536 * r + 256 * g + b

Std16 == << <<0,0,0>>, <<170,0,0>>, <<0,170,0>>, <<170,85,0>>,
            <<0,0,170>>, <<170,0,170>>, <<0,170,170>>, <<170,170,170>>,
            <<85,85,85>>, <<255,85,85>>, <<85,255,85>>, <<255,255,85>>,
            <<85,85,255>>, <<255,85,255>>, <<85,255,255>>, <<255,255,255>> >>

Level == <<0, 95, 135, 175, 215, 255>>

\* The 256-colour table: 16 standard colours, a 6x6x6 cube, a ramp of 24 greys.
Table256(i) ==
    IF i < 16 THEN Std16[i + 1]
    ELSE IF i < 232
         THEN LET j == i - 16
              IN <<Level[(j \div 36) + 1], Level[((j \div 6) % 6) + 1], Level[(j % 6) + 1]>>
         ELSE LET v == 8 + 10 * (i - 232) IN <<v, v, v>>

Index(i) == LET c == Table256(i) IN Rgb(c[1], c[2], c[3])

Pen0 == [fg |-> None, bg |-> None, st |-> {}]

\* The meaning of one plain SGR parameter.
Sgr1(pen, n) ==
    CASE n = 0            -> Pen0
      [] n \in 1..9       -> [pen EXCEPT !.st = @ \cup {n}]
      [] n = 22           -> [pen EXCEPT !.st = @ \ {1, 2}]
      [] n = 23           -> [pen EXCEPT !.st = @ \ {3}]
      [] n = 24           -> [pen EXCEPT !.st = @ \ {4}]
      [] n = 25           -> [pen EXCEPT !.st = @ \ {5, 6}]
      [] n = 27           -> [pen EXCEPT !.st = @ \ {7}]
      [] n = 28           -> [pen EXCEPT !.st = @ \ {8}]
      [] n = 29           -> [pen EXCEPT !.st = @ \ {9}]
      [] n \in 30..37     -> [pen EXCEPT !.fg = Index(n - 30)]
      [] n = 39           -> [pen EXCEPT !.fg = None]
      [] n \in 40..47     -> [pen EXCEPT !.bg = Index(n - 40)]
      [] n = 49           -> [pen EXCEPT !.bg = None]
      [] n \in 90..97     -> [pen EXCEPT !.fg = Index(n - 82)]
      [] n \in 100..107   -> [pen EXCEPT !.bg = Index(n - 92)]
      [] OTHER            -> pen

SetLayer(pen, lead, v) ==
    IF lead = 38 THEN [pen EXCEPT !.fg = v] ELSE [pen EXCEPT !.bg = v]

\* The meaning of a whole parameter list; extended colours take several parameters.
RECURSIVE SgrFrom(_, _, _)
SgrFrom(pen, ps, i) ==
    IF i > Len(ps) THEN pen
    ELSE IF ps[i] \in {38, 48}
         THEN IF i + 4 <= Len(ps) /\ ps[i + 1] = 2
              THEN SgrFrom(SetLayer(pen, ps[i], Rgb(ps[i + 2], ps[i + 3], ps[i + 4])), ps, i + 5)
              ELSE IF i + 2 <= Len(ps) /\ ps[i + 1] = 5 /\ ps[i + 2] \in 0..255
                   THEN SgrFrom(SetLayer(pen, ps[i], Index(ps[i + 2])), ps, i + 3)
                   ELSE pen                        \* malformed: the rest is ignored
         ELSE SgrFrom(Sgr1(pen, ps[i]), ps, i + 1)

Sgr(pen, ps) == SgrFrom(pen, ps, 1)

(***************************************************************************)
(* The character display. A shown cell is <<code point, fg, bg, st>>.      *)
(***************************************************************************)
Glyph(cp, pen) == <<cp, pen.fg, pen.bg, pen.st>>

BlankCell   == <<32, None, None, {}>>
UnknownCell == <<-2, None, None, {}>>   \* what a terminal shows after a resize: anything

\* A w x h display full of the given cell; `touched` collects the painted positions.
NewDisplay(w, h, cell) ==
    [w |-> w, h |-> h, cells |-> [p \in 1..(w * h) |-> cell],
     cx |-> 0, cy |-> 0, pen |-> Pen0, touched |-> {}, scrolled |-> 0]

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

LineFeed(d) ==
    IF d.cy < d.h - 1 THEN [d EXCEPT !.cy = @ + 1]
    ELSE [d EXCEPT !.cells = [p \in DOMAIN d.cells |->
                                 IF p + d.w \in DOMAIN d.cells THEN d.cells[p + d.w]
                                 ELSE BlankCell],
                   !.scrolled = @ + 1]

\* One printable character: a pending wrap (cx = w) is carried out first.
PutChar(d0, cp) ==
    LET d == IF d0.cx >= d0.w THEN LineFeed([d0 EXCEPT !.cx = 0]) ELSE d0
        p == d.cy * d.w + d.cx + 1
    IN [d EXCEPT !.cells[p] = Glyph(cp, d.pen), !.cx = @ + 1, !.touched = @ \cup {p}]

\* A run that fits in the row is painted in one go (an optimisation of PutChar*).
PutRun(d, cps) ==
    IF Len(cps) > 1 /\ d.cx + Len(cps) <= d.w
    THEN LET p0 == d.cy * d.w + d.cx
         IN [d EXCEPT !.cells = [p \in DOMAIN @ |->
                                   IF p > p0 /\ p <= p0 + Len(cps) THEN Glyph(cps[p - p0], d.pen)
                                   ELSE @[p]],
                      !.cx = @ + Len(cps),
                      !.touched = @ \cup (p0 + 1)..(p0 + Len(cps))]
    ELSE FoldLeft(PutChar, d, cps)

MoveBy(d, f, n) ==
    LET x == IF d.cx >= d.w THEN d.w - 1 ELSE d.cx
        y == d.cy
        Y(v) == Clamp(v, 0, d.h - 1)
        X(v) == Clamp(v, 0, d.w - 1)
    IN CASE f = "A" -> [d EXCEPT !.cx = x, !.cy = Y(y - n)]
         [] f = "B" -> [d EXCEPT !.cx = x, !.cy = Y(y + n)]
         [] f = "C" -> [d EXCEPT !.cx = X(x + n)]
         [] f = "D" -> [d EXCEPT !.cx = X(x - n)]
         [] f = "E" -> [d EXCEPT !.cx = 0, !.cy = Y(y + n)]
         [] f = "F" -> [d EXCEPT !.cx = 0, !.cy = Y(y - n)]
         [] f = "G" -> [d EXCEPT !.cx = X(n - 1)]
         [] f = "d" -> [d EXCEPT !.cx = x, !.cy = Y(n - 1)]
         [] OTHER   -> d

Feed1(d, tok) ==
    CASE tok[1] = "t" -> PutRun(d, tok[2])
      [] tok[1] = "m" -> [d EXCEPT !.pen = Sgr(@, tok[2])]
      [] tok[1] = "H" -> [d EXCEPT !.cy = Clamp(tok[2], 1, d.h) - 1,
                                   !.cx = Clamp(tok[3], 1, d.w) - 1]
      [] tok[1] = "C" -> MoveBy(d, tok[2], tok[3])
      [] tok[1] = "N" -> LineFeed(d)
      [] tok[1] = "R" -> [d EXCEPT !.cx = 0]
      [] OTHER        -> d

\* The display after receiving a stream of tokens.
Feed(d, toks) == FoldLeft(Feed1, [d EXCEPT !.touched = {}, !.scrolled = 0], toks)

(***************************************************************************)
(* What a stream shows when it is printed on one endless line: the visible *)
(* characters with their looks and links, and the pen and link left behind.*)
(***************************************************************************)
Show1(s, tok) ==
    CASE tok[1] = "t" -> [s EXCEPT !.out = @ \o [i \in 1..Len(tok[2]) |->
                                  <<tok[2][i], s.pen.fg, s.pen.bg, s.pen.st, s.link>>]]
      [] tok[1] = "m" -> [s EXCEPT !.pen = Sgr(@, tok[2])]
      [] tok[1] = "N" -> [s EXCEPT !.out = Append(@, <<10, s.pen.fg, s.pen.bg, s.pen.st, s.link>>)]
      [] tok[1] = "L" -> [s EXCEPT !.link = tok[2]]
      [] tok[1] = "X" -> [s EXCEPT !.junk = @ + 1]
      [] OTHER        -> [s EXCEPT !.ctl = @ + 1]

ShowFrom(pen, link, toks) ==
    FoldLeft(Show1, [out |-> <<>>, pen |-> pen, link |-> link, junk |-> 0, ctl |-> 0], toks)

Show(toks) == ShowFrom(Pen0, "", toks)
=============================================================================
