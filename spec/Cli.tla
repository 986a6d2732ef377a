--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tools: what `slate size`, `slate getch` and            *)
(* `slate debug` show on a terminal, as lines of glyphs                    *)
(*   <<code point, foreground, background, attributes, link>>.             *)
(*                                                                         *)
(* The world w a tool is run in:                                           *)
(*   env   the four variables, <<>> (unset) or <<value>>                   *)
(*   w, h  the size of the terminal                                        *)
(*   in    is standard input the terminal?                                 *)
(*   out   is standard output the terminal?                                *)
(*   re    the replies of the terminal to "10", "11" and "2026"            *)
(***************************************************************************)
EXTENDS Ansi, TLC

S == INSTANCE ColourSpace
C == INSTANCE Colours
Q == INSTANCE Query
I == INSTANCE Input

(***************************************************************************)
(* Strings as code points                                                  *)
(***************************************************************************)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Code == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
            31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]

Codes(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]

Blanks(n) == [i \in 1..n |-> 32]

HexDigit(n) == SubSeq("0123456789ABCDEF", n + 1, n + 1)
Hex2(n) == HexDigit(n \div 16) \o HexDigit(n % 16)
HexOf(c) == "#" \o Hex2(c[1]) \o Hex2(c[2]) \o Hex2(c[3])

(***************************************************************************)
(* What the tools know                                                     *)
(***************************************************************************)
Space(w) == S!Promised(w.env)

\* Answers come through standard input; without it the fallbacks are shown.
Answer(w, q) ==
    Q!Ask(Q!Start(w.in, w.out, <<1, 1>>), q, w.re[q]).got

Size(w) == IF w.out THEN <<w.w, w.h>> ELSE <<80, 24>>

(***************************************************************************)
(* Lines                                                                   *)
(***************************************************************************)
Styled(cps, st) == [i \in 1..Len(cps) |-> <<cps[i], None, None, st, "">>]
Inked(cps, pen) == [i \in 1..Len(cps) |-> <<cps[i], pen.fg, pen.bg, pen.st, "">>]

SizeLine(w) == Styled(Codes(ToString(Size(w)[1]) \o " x " \o ToString(Size(w)[2])), {})

\* How Python writes a string (of ASCII, or of printable characters beyond it).
Quote(t) == IF 39 \in {t[i] : i \in DOMAIN t} /\ 34 \notin {t[i] : i \in DOMAIN t} THEN 34 ELSE 39

LowHex(n) == <<Code[SubSeq("0123456789abcdef", n + 1, n + 1)]>>

Escaped(c, q) ==
    CASE c = q \/ c = 92 -> <<92, c>>
      [] c = 9  -> Codes("\\t")
      [] c = 10 -> Codes("\\n")
      [] c = 13 -> Codes("\\r")
      [] c \notin {9, 10, 13, q, 92} /\ (c < 32 \/ c = 127) -> Codes("\\x") \o LowHex(c \div 16) \o LowHex(c % 16)
      [] OTHER -> <<c>>

Concat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)

Repr(t) == LET q == Quote(t) IN <<q>> \o Concat([i \in 1..Len(t) |-> Escaped(t[i], q)]) \o <<q>>

\* One value of the key: as it is if it is a name, quoted if a single character or raw.
Value(cps, raw) == IF raw \/ Len(cps) = 1 THEN Repr(cps) ELSE cps

KeyValues(t, raw) ==
    LET d == I!Decoded(t, raw)
    IN IF d.names = <<>> THEN <<t>> ELSE [i \in 1..Len(d.names) |-> Codes(d.names[i])]

KeyText(t, raw) ==
    LET vs == KeyValues(t, raw)
    IN FoldLeft(LAMBDA a, v : a \o Codes(" | ") \o Value(v, raw), Value(vs[1], raw), Tail(vs))

Prompt == Styled(Codes("Waiting for input..."), {2}) \o Styled(<<32>>, {})

GetchLine(w, t, raw) == Prompt \o Styled(KeyText(IF w.in THEN t ELSE <<>>, raw), {})

(***************************************************************************)
(* The table of `slate debug`                                              *)
(***************************************************************************)
Var(w, n) == IF w.env[n] \in {<<>>, <<"">>} THEN "-" ELSE w.env[n][1]

SpaceName(s) ==
    CASE s = "standard" -> "ColorSpace.STANDARD" [] s = "no_color" -> "ColorSpace.NO_COLOR"
      [] s = "eight_bit" -> "ColorSpace.EIGHT_BIT" [] s = "true_color" -> "ColorSpace.TRUE_COLOR"

Section(l) == [kind |-> "head", left |-> l, right |-> ""]
Row(l, r) == [kind |-> "row", left |-> l, right |-> r]
ColourRow(l, c) == [kind |-> "colour", left |-> l, right |-> HexOf(c), c |-> c]

Table(w) == <<
    Section("Environment:"),
    Row("$TERM", Var(w, "TERM")),
    Row("$COLORTERM", Var(w, "COLORTERM")),
    Row("$NO_COLOR", Var(w, "NO_COLOR")),
    Row("$SLATE_COLORSYS", Var(w, "SLATE_COLORSYS")),
    Section("Terminal state:"),
    Row("size", ToString(Size(w)[1]) \o "x" \o ToString(Size(w)[2])),
    Row("colorspace", SpaceName(Space(w))),
    Row("synchronized update support", IF Answer(w, "2026") = <<1>> THEN "True" ELSE "False"),
    ColourRow("foreground color", Answer(w, "10")),
    ColourRow("background color", Answer(w, "11")) >>

MaxOf(S0) == CHOOSE x \in S0 : \A y \in S0 : y <= x

LeftWidth(t) == MaxOf({Len(t[i].left) : i \in DOMAIN t}) + 3
RightWidth(t) == MaxOf({Len(t[i].right) : i \in DOMAIN t}) + 3
Width(t) == LeftWidth(t) + RightWidth(t)

\* The pens a colour may be shown in: itself on its contrast, in the space in force.
Swatch(c, space) ==
    {C!Sgr(Pen0, p[1] \o p[2]) :
        p \in UNION {C!Encodings(C!Col(c, C!Unit, FALSE, <<>>), space) \X C!Encodings(C!Col(k, C!Unit, TRUE, <<>>), space) :
                       k \in {k \in {C!OffBlack, C!OffWhite} : C!ContrastOk(c, k)}}}

Left(t, r) == Styled(Codes(r.left) \o Blanks(LeftWidth(t) - Len(r.left)), {2})
Gap(t, r) == Styled(Blanks(RightWidth(t) - Len(r.right)), {})

\* The lines (one, but for close contrasts) that may show a row.
RowLines(t, r, space) ==
    CASE r.kind = "head" -> {Styled(Codes(r.left), {1})}
      [] r.kind = "row"  -> {Left(t, r) \o Gap(t, r) \o Styled(Codes(r.right), {})}
      [] r.kind = "colour" -> {Left(t, r) \o Gap(t, r) \o Inked(Codes(r.right), pen) : pen \in Swatch(r.c, space)}

\* The table as lines; a head but for the first is set off by an empty line.
TableLines(w) ==
    LET t == Table(w)
    IN Concat([i \in DOMAIN t |->
          (IF t[i].kind = "head" /\ i > 1 THEN << {<<>>} >> ELSE <<>>) \o << RowLines(t, t[i], Space(w)) >>])

\* A strip of colours as wide as the table.
IsStrip(line, n) == Len(line) = n /\ \A i \in 1..n : line[i][1] = 32 /\ line[i][2] = None /\ line[i][3] # None
                                                    /\ line[i][4] = {} /\ line[i][5] = ""

(***************************************************************************)
(* The style samples: words in their own style, filled into lines          *)
(***************************************************************************)
Samples == << <<"std", {}>>, <<"bold", {1}>>, <<"italic", {3}>>, <<"dim", {2}>>, <<"underline", {4}>>,
              <<"blink", {5}>>, <<"invert", {7}>>, <<"strike", {9}>> >>

PutSample(ls, s, width) ==
    LET word == Styled(Codes(s[1]), s[2])
        last == ls[Len(ls)]
    IN IF last = <<>> THEN [ls EXCEPT ![Len(ls)] = word]
       ELSE IF Len(last) + 1 + Len(word) <= width
            THEN [ls EXCEPT ![Len(ls)] = last \o Styled(<<32>>, {}) \o word]
            ELSE Append(ls, word)

SampleLines(width) == FoldLeft(LAMBDA ls, s : PutSample(ls, s, width), << <<>> >>, Samples)

(***************************************************************************)
(* Whole outputs, as lines; the strip is judged by IsStrip                 *)
(***************************************************************************)
DebugOk(w, lines) ==
    LET tl == TableLines(w)
        sl == SampleLines(Width(Table(w)))
        n  == Len(tl)
    IN /\ Len(lines) = 4 + n + 1 + Len(sl) + 1 - 1
       /\ lines[1] = <<>>
       /\ IsStrip(lines[2], Width(Table(w)))
       /\ lines[3] = <<>>
       /\ \A i \in 1..n : lines[3 + i] \in tl[i]
       /\ lines[4 + n] = <<>>
       /\ \A i \in 1..Len(sl) : lines[4 + n + i] = sl[i]
       /\ lines[Len(lines)] = <<>>

SizeOk(w, lines) == lines = << <<>>, SizeLine(w), <<>> >>
GetchOk(w, t, raw, lines) == lines = << <<>>, GetchLine(w, t, raw), <<>> >>
=============================================================================
