------------------------------- MODULE Colours -------------------------------
(***************************************************************************)
(* Colours: what descriptions denote, how a colour is sent in each colour  *)
(* space, and how colours are mixed. All arithmetic is exact, on integers. *)
(*                                                                         *)
(* A colour is [c |-> <<r, g, b>>, a |-> alpha, back |-> on the background *)
(* layer?, given |-> the SGR parameters it was given as, or <<>>].         *)
(* Alphas are in millionths.                                               *)
(***************************************************************************)
EXTENDS Ansi, ColourTables, FiniteSetsExt

Unit == 1000000

Spaces == {"standard", "no_color", "eight_bit", "true_color"}

Rank(s) == CASE s = "standard" -> 1 [] s = "no_color" -> 2 [] s = "eight_bit" -> 3 [] s = "true_color" -> 4

Channel == 0..255

Col(c, a, back, given) == [c |-> c, a |-> a, back |-> back, given |-> given]

(***************************************************************************)
(* Descriptions. The result is a colour, or <<>> if it must be refused.    *)
(***************************************************************************)
InRange(v) == \A i \in 1..3 : v[i] \in Channel

Plain16(n) ==
    CASE n \in 30..37   -> <<n - 30, FALSE>>
      [] n \in 40..47   -> <<n - 40, TRUE>>
      [] n \in 90..97   -> <<n - 82, FALSE>>
      [] n \in 100..107 -> <<n - 92, TRUE>>
      [] OTHER          -> <<>>

Tuple(v) == <<v[1], v[2], v[3]>>

\* The body of an SGR colour sequence, as parameters; `a` is its alpha.
FromSgr(ps, a) ==
    CASE Len(ps) = 1 /\ Plain16(ps[1]) # <<>> ->
           Col(Table256(Plain16(ps[1])[1]), a, Plain16(ps[1])[2], ps)
      [] Len(ps) = 1 /\ Plain16(ps[1]) = <<>> ->            \* a bare index of the 256 colours
           IF ps[1] \in Channel THEN Col(Table256(ps[1]), a, FALSE, <<38, 5, ps[1]>>) ELSE <<>>
      [] Len(ps) = 3 /\ ps[1] \in {38, 48} /\ ps[2] = 5 ->
           IF ps[3] \in Channel THEN Col(Table256(ps[3]), a, ps[1] = 48, ps) ELSE <<>>
      [] Len(ps) = 5 /\ ps[1] \in {38, 48} /\ ps[2] = 2 ->
           IF InRange(<<ps[3], ps[4], ps[5]>>) THEN Col(<<ps[3], ps[4], ps[5]>>, a, ps[1] = 48, ps) ELSE <<>>
      [] OTHER -> <<>>

\* d.k is the form of the description; d.a its alpha in thousandths, or for
\* the form "hexa" in 255ths.
Denotes(d) ==
    CASE d.k = "rgb"  -> IF InRange(d.v) THEN Col(Tuple(d.v), d.a * 1000, FALSE, <<>>) ELSE <<>>
      [] d.k = "hex"  -> Col(Tuple(d.v), Unit, FALSE, <<>>)
      [] d.k = "hexa" -> Col(Tuple(d.v), (d.a * Unit) \div 255, FALSE, <<>>)
      [] d.k = "name" -> IF d.name \in DOMAIN Named THEN Col(Named[d.name], d.a * 1000, FALSE, <<>>) ELSE <<>>
      [] d.k = "sgr"  -> FromSgr(d.ps, d.a * 1000)
      [] OTHER        -> <<>>

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
Lead(col) == IF col.back THEN 48 ELSE 38

\* Squared "redmean" distance times 256; an integer.
Distance(p, q) ==
    LET rm == (p[1] + q[1]) \div 2
        dr == p[1] - q[1]
        dg == p[2] - q[2]
        db == p[3] - q[3]
    IN (512 + rm) * dr * dr + 1024 * dg * dg + (767 - rm) * db * db

Nearest16(c) ==
    CHOOSE i \in 0..15 :
        /\ \A j \in 0..15 : Distance(c, Table256(i)) <= Distance(c, Table256(j))
        /\ \A j \in 0..(i - 1) : Distance(c, Table256(j)) > Distance(c, Table256(i))

\* The nearest of 0..5 to 5v/255 = v/51; there are no ties.
CubeLevel(v) == (2 * v + 51) \div 102

Cube(c) == 16 + 36 * CubeLevel(c[1]) + 6 * CubeLevel(c[2]) + CubeLevel(c[3])

\* Relative luminance times 10^9, within Slack.
Luminance(c) == 2126 * Linear[c[1] + 1] + 7152 * Linear[c[2] + 1] + 722 * Linear[c[3] + 1]
Slack == 6000

\* The admissible greys: one, or two if the lightness is too close to call.
Greys(c) ==
    LET y == Luminance(c)
    IN {232 + Cardinality({k \in DOMAIN GreyUp : GreyUp[k] <= y + d}) : d \in {-Slack, 0, Slack}}

\* The space a colour was given for.
Origin(given) ==
    CASE Len(given) = 1 -> "standard" [] Len(given) = 3 -> "eight_bit" [] OTHER -> "true_color"

AsGiven(col, space) ==
    col.given # <<>> /\ space # "no_color" /\ Rank(space) >= Rank(Origin(col.given))

\* The set of parameter lists that may be sent (one, but for Greys).
Encodings(col, space) ==
    IF AsGiven(col, space) THEN {col.given}
    ELSE CASE space = "true_color" -> {<<Lead(col), 2, col.c[1], col.c[2], col.c[3]>>}
           [] space = "eight_bit"  -> {<<Lead(col), 5, Cube(col.c)>>}
           [] space = "no_color"   -> {<<Lead(col), 5, g>> : g \in Greys(col.c)}
           [] space = "standard"   -> LET i == Nearest16(col.c)
                                      IN {<<(IF i > 7 THEN 82 + i ELSE 30 + i) + (IF col.back THEN 10 ELSE 0)>>}

\* Derived colours lose the form they were given in.
OnLayer(col, back) == IF col.back = back THEN col ELSE [col EXCEPT !.back = back, !.given = <<>>]
WithAlpha(col, a) == [col EXCEPT !.a = a, !.given = <<>>]

(***************************************************************************)
(* Mixing                                                                  *)
(***************************************************************************)
\* v moved towards w by n/d: the admissible integers. Binary fractions lose
\* nothing; otherwise an exact integer may come out one too low.
MixSet(v, w, n, d, exact) ==
    LET num == v * d + (w - v) * n
        q   == num \div d
    IN IF num % d = 0 /\ ~exact
       THEN {Clamp(q, 0, 255), Clamp(q - 1, 0, 255)}
       ELSE \* truncation towards zero only differs below zero, where it is clamped
            {Clamp(q, 0, 255)}

MixOk(p, q, n, d, exact, r) == \A i \in 1..3 : r[i] \in MixSet(p[i], q[i], n, d, exact)

White == <<255, 255, 255>>
Black == <<0, 0, 0>>
OffWhite == <<245, 245, 245>>
OffBlack == <<35, 35, 35>>

DarkOn == 179000000      \* luminance above which a dark colour contrasts

ContrastOf(c, r, light, dark) ==
    LET y == Luminance(c)
    IN \/ y > DarkOn - Slack /\ r = dark
       \/ y <= DarkOn + Slack /\ r = light

ContrastOk(c, r) == ContrastOf(c, r, OffWhite, OffBlack)

\* Perceived lightness (CIE L*), l in thousandths, from the luminance: y = ((l + 16) / 116)^3, or linear
\* for the darkest.
LightnessOk(y, l) ==
    LET f == (l + 16000) \div 116
    IN IF y > 8860000 THEN (f - 2) * (f - 2) * (f - 2) <= y /\ y <= (f + 2) * (f + 2) * (f + 2)
       ELSE l \in ((y \div 1000) * 9033) \div 10000 - 12 .. ((y \div 1000) * 9033) \div 10000 + 12

(***************************************************************************)
(* Turning the hue by p/12 of the circle, lightness and saturation kept.   *)
(* With M and m the largest and smallest channel and D = M - m, the hue is *)
(* an integer number of steps of 1/(6D), here doubled to 1/(12D).          *)
(***************************************************************************)
Max3(c) == Max({c[1], c[2], c[3]})
Min3(c) == Min({c[1], c[2], c[3]})

Hue12(c) ==       \* in 0..12D-1
    LET M == Max3(c)
        D == M - Min3(c)
        h == IF c[1] = M THEN c[2] - c[3]
             ELSE IF c[2] = M THEN 2 * D + c[3] - c[1]
             ELSE 4 * D + c[1] - c[2]
    IN (2 * h) % (12 * D)

\* Channel value, times 2, at hue t (in steps of 1/(12D)).
Ramp(c, t0) ==
    LET D == Max3(c) - Min3(c)
        t == t0 % (12 * D)
        m == Min3(c)
    IN CASE t < 2 * D  -> 2 * m + t
         [] t < 6 * D  -> 2 * (m + D)
         [] t < 8 * D  -> 2 * m + (8 * D - t)
         [] OTHER      -> 2 * m

\* Twice the exact channels after the turn.
Turned2(c, p) ==
    LET D == Max3(c) - Min3(c)
        h == Hue12(c) + p * D
    IN <<Ramp(c, h + 4 * D), Ramp(c, h), Ramp(c, h + 8 * D)>>

\* The library goes through fractions of 256 and back through 255, and
\* truncates: up to two below, never above (but for a half).
TurnOk(c, p, r) ==
    IF Max3(c) = Min3(c)
    THEN \A i \in 1..3 : r[i] \in (c[i] - 2)..c[i]
    ELSE LET t == Turned2(c, p) IN \A i \in 1..3 : 2 * r[i] <= t[i] /\ 2 * r[i] >= t[i] - 4

\* Grey has no hue to turn: the opposite of black is white, of any other grey black.
GreyOpposite(c) == IF Max3(c) = 0 THEN White ELSE Black

\* A blend with the complement.
OpposeOk(c, n, d, exact, r) ==
    IF Max3(c) = Min3(c) THEN MixOk(c, GreyOpposite(c), n, d, exact, r)
    ELSE LET t == Turned2(c, 6)
         IN \A i \in 1..3 :
              \E q \in {q \in (t[i] \div 2) - 2 .. (t[i] \div 2) : 2 * q >= t[i] - 4} : r[i] \in MixSet(c[i], q, n, d, exact)
=============================================================================
