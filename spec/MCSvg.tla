------------------------------- MODULE MCSvg -------------------------------
(***************************************************************************)
(* Exporting a small screen after every short history: the image that the  *)
(* exporter of Svg.tla makes shows the screen. The histories are replayed  *)
(* on the real code.                                                       *)
(***************************************************************************)
EXTENDS Svg, TLC, Json, CSV, IOUtils

VARIABLES scr, hist

vars == <<scr, hist>>

Depth == atoi(IOEnv.DEPTH)

Sp(t, fg, bg, stl) == [t |-> t, fg |-> fg, bg |-> bg, st |-> stl, rz |-> TRUE]
Red  == <<255, 0, 0, 1000>>
Blue == <<0, 0, 250, 1000>>
Half == <<255, 0, 0, 333>>

Lines == { <<Sp(<<97>>, <<>>, <<>>, {})>>,
           <<Sp(<<97>>, Red, <<>>, {})>>,
           <<Sp(<<97, 97>>, Red, Blue, {7})>>,
           <<Sp(<<60>>, <<>>, <<>>, {7}), Sp(<<38>>, <<>>, Blue, {1, 4, 9})>>,
           <<Sp(<<32, 97>>, <<>>, <<>>, {4})>>,
           <<Sp(<<9608, 97>>, Red, <<>>, {})>>,
           <<Sp(<<9608>>, Blue, Half, {2, 3})>>,
           <<Sp(<<32>>, Red, Half, {7})>> }

Places == {<<0, 0>>, <<1, 0>>, <<0, scr.h - 1>>}

Init == scr = NewScreen(2, 2, 32) /\ hist = <<>>

Log(o) == hist' = Append(hist, o)

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E at \in Places, ln \in Lines :
            LET items == <<[at |-> at, spans |-> ln]>>
            IN /\ scr' = WriteEffect(scr, items, FALSE, <<0, 0, 0, 1000>>).scr
               /\ Log([op |-> "write", via |-> "list", items |-> items, force |-> FALSE])
       \/ scr' = ClearScreen(scr, 46) /\ Log([op |-> "clear", fill |-> 46])
       \/ \E s \in {<<3, 1>>, <<1, 3>>, <<2, 2>>} :
            /\ scr' = Resize(scr, s[1], s[2], 32, TRUE)
            /\ Log([op |-> "resize", w |-> s[1], h |-> s[2], fill |-> 32, keep |-> TRUE])

View == <<scr, Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

(***************************************************************************)
(* C21                                                                     *)
(***************************************************************************)
Sizes == {1, 7, 15, 40}

Exported == \A fs \in Sizes : ShowsScreen(Export(scr, fs, 14606046, 1315860), scr, fs, 14606046, 1315860)

\* The judgement is not blind: changing any one cell of the screen changes the picture, unless both look alike.
Other(cell) == <<IF cell[1] = 98 THEN 99 ELSE 98, cell[2], cell[3], cell[4], cell[5]>>

Telling == \A p \in 1..(scr.w * scr.h) :
             ~ShowsScreen(Export([scr EXCEPT !.cells[p] = Other(@)], 15, 14606046, 1315860), scr, 15, 14606046, 1315860)

\* A run that is cut, shifted or missing is seen.
Missing == LET els == Export(scr, 15, 14606046, 1315860)
           IN \A k \in 1..Len(els) :
                (els[k].k = "r" \/ \E g \in ToSet(els[k].t) : ~Blank(g))
                   => ~ShowsScreen(RemoveAt(els, k), scr, 15, 14606046, 1315860)
=============================================================================
