-------------------------------- MODULE Spans --------------------------------
(***************************************************************************)
(* Spans: pieces of styled text. A span is a record                        *)
(*   t    code points                                                      *)
(*   fg, bg  <<>> or <<r, g, b, a>>, alpha a in thousandths                *)
(*   st   set of SGR attribute numbers 1..9, and 99 for "opaque"           *)
(*   link hyperlink target, "" for none                                    *)
(*   rz   whether the terminal is reset after the span                     *)
(*                                                                         *)
(* This module says how SGR text is parsed into spans, how a span prints,  *)
(* and how spans are derived from one another.                             *)
(***************************************************************************)
EXTENDS Ansi

ColourValue(c) == IF c = <<>> THEN None ELSE Rgb(c[1], c[2], c[3])

\* What a viewer sees of a character of the span.
LookOf(s) == <<ColourValue(s.fg), ColourValue(s.bg), s.st \ {99}, s.link>>

(***************************************************************************)
(* Parsing. Parameters are integers; -1 stands for something that is not a *)
(* number and -1000 - a for the alpha a/1000 (an extension of the library).*)
(***************************************************************************)
IsAlpha(n) == n <= -1000
AlphaAt(ps, i) == IF i <= Len(ps) /\ IsAlpha(ps[i]) THEN -1000 - ps[i] ELSE 1000
SkipAlpha(ps, i) == IF i <= Len(ps) /\ IsAlpha(ps[i]) THEN i + 1 ELSE i

Opts0 == [fg |-> <<>>, bg |-> <<>>, st |-> {}]

Table4(i, a) == LET c == Table256(i) IN <<c[1], c[2], c[3], a>>

PutColour(o, back, c) == IF back THEN [o EXCEPT !.bg = c] ELSE [o EXCEPT !.fg = c]

SimpleColour(n) ==
    CASE n \in 30..37   -> <<FALSE, n - 30>>
      [] n \in 40..47   -> <<TRUE, n - 40>>
      [] n \in 90..97   -> <<FALSE, n - 82>>
      [] n \in 100..107 -> <<TRUE, n - 92>>
      [] OTHER          -> <<>>

Unset == [n \in {22, 23, 24, 25, 26, 27, 28, 29} |->
             CASE n = 22 -> {1, 2}
               [] n = 23 -> {3}
               [] n = 24 -> {4}
               [] n = 25 -> {5, 6}
               [] n = 26 -> {6}
               [] n = 27 -> {7}
               [] n = 28 -> {8}
               [] n = 29 -> {9}]

Channels(ps, i) == \A k \in i..(i + 2) : ps[k] >= 0

\* Result: the options, and "" or "value" (an unsupported code: ValueError) or
\* "any" (a cut-off extended colour, about which nothing is said).
RECURSIVE ParseFrom(_, _, _)
ParseFrom(o, ps, i) ==
    IF i > Len(ps) THEN [o |-> o, err |-> ""]
    ELSE LET n == ps[i] IN
    CASE n \in {38, 48} ->
           IF i + 4 <= Len(ps) /\ ps[i + 1] = 2 /\ Channels(ps, i + 2)
           THEN IF \A k \in (i + 2)..(i + 4) : ps[k] <= 255
                THEN ParseFrom(PutColour(o, n = 48, <<ps[i + 2], ps[i + 3], ps[i + 4], AlphaAt(ps, i + 5)>>),
                               ps, SkipAlpha(ps, i + 5))
                ELSE [o |-> o, err |-> "value"]
           ELSE IF i + 2 <= Len(ps) /\ ps[i + 1] = 5 /\ ps[i + 2] >= 0
                THEN IF ps[i + 2] <= 255
                     THEN ParseFrom(PutColour(o, n = 48, Table4(ps[i + 2], AlphaAt(ps, i + 3))),
                                    ps, SkipAlpha(ps, i + 3))
                     ELSE [o |-> o, err |-> "value"]
                ELSE [o |-> o, err |-> "any"]
      [] SimpleColour(n) # <<>> ->
           ParseFrom(PutColour(o, SimpleColour(n)[1], Table4(SimpleColour(n)[2], AlphaAt(ps, i + 1))),
                     ps, SkipAlpha(ps, i + 1))
      [] n = 0            -> ParseFrom(Opts0, ps, i + 1)
      [] n \in (1..9) \cup {99} -> ParseFrom([o EXCEPT !.st = @ \cup {n}], ps, i + 1)
      [] n \in DOMAIN Unset -> ParseFrom([o EXCEPT !.st = @ \ Unset[n]], ps, i + 1)
      [] n = 39           -> ParseFrom([o EXCEPT !.fg = <<>>], ps, i + 1)
      [] n = 49           -> ParseFrom([o EXCEPT !.bg = <<>>], ps, i + 1)
      [] OTHER            -> [o |-> o, err |-> "value"]

Parse(o, ps) == ParseFrom(o, ps, 1)

Char(cp, o) == <<cp, o.fg, o.bg, o.st>>

\* A line is a sequence of pieces <<"t", cps>> and <<"m", ps>>.
ParsePiece(acc, piece) ==
    IF acc.err # "" THEN acc
    ELSE IF piece[1] = "t"
         THEN [acc EXCEPT !.out = @ \o [i \in 1..Len(piece[2]) |-> Char(piece[2][i], acc.o)]]
         ELSE LET r == Parse(acc.o, piece[2]) IN [acc EXCEPT !.o = r.o, !.err = r.err]

ParseLine(pieces) == FoldLeft(ParsePiece, [o |-> Opts0, out |-> <<>>, err |-> ""], pieces)

\* The characters of spans, with their settings.
Flat(spans) ==
    FoldLeft(LAMBDA acc, s : acc \o [i \in 1..Len(s.t) |-> <<s.t[i], s.fg, s.bg, s.st>>], <<>>, spans)

(***************************************************************************)
(* Printing                                                                *)
(***************************************************************************)
Plain(s) == s.fg = <<>> /\ s.bg = <<>> /\ s.st = {}

PenOf(s) == [fg |-> ColourValue(s.fg), bg |-> ColourValue(s.bg), st |-> s.st \ {99}]

Colourless(s) == [s EXCEPT !.fg = <<>>, !.bg = <<>>]

Printed(s) ==
    [i \in 1..Len(s.t) |-> <<s.t[i], ColourValue(s.fg), ColourValue(s.bg), s.st \ {99}, s.link>>]

\* The tokens a printed span consists of.
PrintToks(s) ==
    LET ps == (IF s.fg = <<>> THEN <<>> ELSE <<38, 2, s.fg[1], s.fg[2], s.fg[3]>>)
              \o (IF s.bg = <<>> THEN <<>> ELSE <<48, 2, s.bg[1], s.bg[2], s.bg[3]>>)
              \o SetToSortSeq(s.st, <)
        body == (IF ps = <<>> THEN <<>> ELSE << <<"m", ps>> >>)
                \o (IF s.t = <<>> THEN <<>> ELSE << <<"t", s.t>> >>)
                \o (IF ps # <<>> /\ s.rz THEN << <<"m", <<0>> >> >> ELSE <<>>)
    IN IF s.link = "" THEN body ELSE << <<"L", s.link>> >> \o body \o << <<"L", "">> >>

PenAfter(s) == IF s.rz THEN Pen0 ELSE PenOf(s)

\* Does the stream `toks` show the span's text in its look, and leave the right pen?
PrintsRight(s, toks) ==
    LET w == Show(toks)
    IN w.out = Printed(s) /\ w.pen = PenAfter(s) /\ w.link = "" /\ w.junk = 0 /\ w.ctl = 0

Concat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)

\* Does the list of token streams show one character of the span each?
CharsRight(s0, exclude, always, lists) ==
    LET s == [(IF exclude THEN Colourless(s0) ELSE s0) EXCEPT !.link = ""]
        n == Len(s.t)
        w == Show(Concat(lists))
    IN /\ Len(lists) = n
       /\ n > 0 => (w.out = Printed(s) /\ w.pen = PenAfter(s) /\ w.link = "" /\ w.junk = 0 /\ w.ctl = 0)
       /\ \A i \in 1..n : LET one == Show(lists[i])
                          IN /\ Len(one.out) = 1
                             /\ one.out[1][1] = s.t[i]
                             /\ always => one.out[1] = Printed(s)[i]

(***************************************************************************)
(* Deriving                                                                *)
(***************************************************************************)
\* Python's slice indices; <<>> stands for an omitted bound.
SliceStart(n, a, step) ==
    IF a = <<>> THEN IF step > 0 THEN 0 ELSE n - 1
    ELSE LET v == IF a[1] < 0 THEN a[1] + n ELSE a[1]
         IN IF step > 0 THEN Clamp(v, 0, n) ELSE Clamp(v, -1, n - 1)

SliceStop(n, b, step) ==
    IF b = <<>> THEN IF step > 0 THEN n ELSE -1
    ELSE LET v == IF b[1] < 0 THEN b[1] + n ELSE b[1]
         IN IF step > 0 THEN Clamp(v, 0, n) ELSE Clamp(v, -1, n - 1)

SliceText(t, a, b, step) ==
    LET lo == SliceStart(Len(t), a, step)
        hi == SliceStop(Len(t), b, step)
        n  == IF step > 0 THEN IF hi > lo THEN (hi - lo + step - 1) \div step ELSE 0
              ELSE IF lo > hi THEN (lo - hi - step - 1) \div (-step) ELSE 0
    IN [k \in 1..n |-> t[lo + (k - 1) * step + 1]]

MatchAt(t, sep, i) == i + Len(sep) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(sep) - 1) = sep

\* The parts of t between the non-overlapping occurrences of sep, from the left.
RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(t, sep, i, from, acc) ==
    IF i > Len(t) THEN Append(acc, SubSeq(t, from, Len(t)))
    ELSE IF MatchAt(t, sep, i)
         THEN SplitFrom(t, sep, i + Len(sep), i + Len(sep), Append(acc, SubSeq(t, from, i - 1)))
         ELSE SplitFrom(t, sep, i + 1, from, acc)

SplitText(t, sep) == SplitFrom(t, sep, 1, 1, <<>>)

JoinText(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA a, p : a \o sep \o p, parts[1], Tail(parts))

SetAttr(s, n, on) == [s EXCEPT !.st = IF on THEN @ \cup {n} ELSE @ \ {n}]
=============================================================================
