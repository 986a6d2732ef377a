------------------------------ MODULE MCColours ------------------------------
(***************************************************************************)
(* Colours on a grid, in every colour space: what is sent, as a terminal   *)
(* understands it, is the right approximation of the colour; blends lie    *)
(* between their ends; turning the hue by whole circles changes nothing.   *)
(***************************************************************************)
EXTENDS Colours, TLC, IOUtils

Grid == IF IOEnv.TIER = "quick" THEN {0, 26, 85, 128, 170, 229, 255}
        ELSE {0, 1, 25, 26, 51, 76, 85, 95, 128, 153, 170, 204, 229, 230, 254, 255}

VARIABLES c, space, back

vars == <<c, space, back>>

Init == c \in {<<r, g, b>> : r, g, b \in Grid} /\ space \in Spaces /\ back \in BOOLEAN

\* The only transition: the application switches the colour space.
Next == space' \in Spaces /\ UNCHANGED <<c, back>>

This == Col(c, Unit, back, <<>>)

Layer(pen) == IF back THEN pen.bg ELSE pen.fg
Other(pen) == IF back THEN pen.fg ELSE pen.bg

Split(v) == <<v \div 65536, (v \div 256) % 256, v % 256>>

Sent == {Sgr(Pen0, ps) : ps \in Encodings(This, space)}

\* C17
LayerKept == \A pen \in Sent : Layer(pen) # None /\ Other(pen) = None /\ pen.st = {}
Exact == space = "true_color" => \A pen \in Sent : Layer(pen) = Rgb(c[1], c[2], c[3])
NearestStandard ==
    space = "standard" => \A pen \in Sent : \A j \in 0..15 :
        Distance(c, Split(Layer(pen))) <= Distance(c, Table256(j))
Abs(n) == IF n < 0 THEN -n ELSE n
NearestCube ==
    space = "eight_bit" => \A i \in 1..3 : \A k \in 0..5 :
        Abs(c[i] - 51 * CubeLevel(c[i])) <= Abs(c[i] - 51 * k)
GreyOnly ==
    space = "no_color" => \A ps \in Encodings(This, space) : ps[3] \in 232..255
Monotone ==
    space = "no_color" => \A i \in 1..3 : c[i] < 255 =>
        \E g \in Greys(c), h \in Greys([c EXCEPT ![i] = @ + 1]) : g <= h

\* C19
Between == \A d \in Grid : \A n \in {0, 1, 333, 500, 999, 1000} :
    \A v \in MixSet(c[1], d, n, 1000, TRUE) :
        /\ v >= Min({c[1], d}) /\ v <= Max({c[1], d})
        /\ (n = 0 => v = c[1]) /\ (n = 1000 => v = d)
Twice(v) == <<2 * v[1], 2 * v[2], 2 * v[3]>>
FullCircle == Max3(c) # Min3(c) => Turned2(c, 0) = Twice(c) /\ Turned2(c, 12) = Twice(c)
Thirds == Max3(c) # Min3(c) => Turned2(c, 4) = Twice(<<c[3], c[1], c[2]>>)
Half == Max3(c) # Min3(c) =>
    LET s == Max3(c) + Min3(c) IN Turned2(c, 6) = Twice(<<s - c[1], s - c[2], s - c[3]>>)
=============================================================================
