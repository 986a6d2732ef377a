-------------------------------- MODULE Input --------------------------------
(***************************************************************************)
(* Keyboard and mouse input: what a read gives back. Text is a sequence of *)
(* character codes.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, KeyTable

Digit(c) == c \in 48..57
Esc == 27

----------------------------------------------------------------------------
(* SGR mouse reports: ESC [ < button ; column ; row M|m                    *)

RECURSIVE Number(_, _, _)
Number(t, i, n) == IF i <= Len(t) /\ Digit(t[i]) THEN Number(t, i + 1, n * 10 + (t[i] - 48)) ELSE <<n, i>>

\* <<button, column, row, pressed>> or <<>>; numbers are short enough for TLC.
ParseReport(t) ==
    IF Len(t) < 9 \/ SubSeq(t, 1, 3) # <<Esc, 91, 60>> THEN <<>>
    ELSE LET b == Number(t, 4, 0)
         IN IF b[2] = 4 \/ b[2] > Len(t) \/ t[b[2]] # 59 THEN <<>>
            ELSE LET x == Number(t, b[2] + 1, 0)
                 IN IF x[2] = b[2] + 1 \/ x[2] > Len(t) \/ t[x[2]] # 59 THEN <<>>
                    ELSE LET y == Number(t, x[2] + 1, 0)
                         IN IF y[2] = x[2] + 1 \/ y[2] # Len(t) \/ t[Len(t)] \notin {77, 109} THEN <<>>
                            ELSE <<b[1], x[1], y[1], t[Len(t)] = 77>>

\* Bits 4, 8 and 16 of the button are shift, option and ctrl; the rest is the event.
Modifier(b) == <<"", "shift_", "option_", "shift_option_", "ctrl_", "shift_ctrl_", "ctrl_option_",
                 "shift_ctrl_option_">>[((b \div 4) % 8) + 1]
Base(b) == b - 4 * ((b \div 4) % 8)

BaseName(n, pressed) ==
    CASE n = 0  -> IF pressed THEN "left_click" ELSE "left_release"
      [] n = 2  -> IF pressed THEN "right_click" ELSE "right_release"
      [] n = 32 -> "left_drag"
      [] n = 34 -> "right_drag"
      [] n = 35 -> "hover"
      [] n = 64 -> "scroll_up"
      [] n = 65 -> "scroll_down"
      [] n = 66 -> "scroll_left"
      [] n = 67 -> "scroll_right"
      [] OTHER  -> ""

\* The event of a report, "" if it is none that is supported.
MouseEvent(t) ==
    LET r == ParseReport(t)
        n == IF r = <<>> THEN "" ELSE BaseName(Base(r[1]), r[4])
    IN IF n = "" THEN ""
       ELSE "mouse:" \o Modifier(r[1]) \o n \o "@" \o ToString(r[2]) \o ";" \o ToString(r[3])

----------------------------------------------------------------------------
(* Keys                                                                    *)

NamesOf(t) ==
    LET S == {i \in 1..Len(KeyTable) : KeyTable[i][1] = t}
    IN IF S = {} THEN <<>> ELSE KeyTable[CHOOSE i \in S : TRUE][2]

\* What a read of the text t is to give: names, or the text itself (names empty).
Decoded(t, raw) ==
    IF raw THEN [names |-> <<>>, text |-> t]
    ELSE IF MouseEvent(t) # "" THEN [names |-> <<MouseEvent(t)>>, text |-> t]
    ELSE [names |-> NamesOf(t), text |-> t]

CtrlC == <<3>>

\* On Windows: a console sends 224 (or 0) before the code of a special key, as which 27 stands in the table.
NtText(b) == IF b # <<>> /\ b[1] = 224 THEN <<27>> \o Tail(b) ELSE b
NtNames(t) ==
    LET S == {i \in 1..Len(NtTable) : NtTable[i][1] = t}
    IN IF S = {} THEN <<>> ELSE NtTable[CHOOSE i \in S : TRUE][2]
NtDecoded(t, raw) == [names |-> IF raw THEN <<>> ELSE NtNames(t), text |-> t]

----------------------------------------------------------------------------
(* The channel: text that was fed by the program, text that was typed.     *)

Chan0 == [fed |-> <<>>, pend |-> <<>>]
Feed(s, t) == [s EXCEPT !.fed = @ \o t]
Type(s, t) == [s EXCEPT !.pend = @ \o t]

\* A read takes all of the fed text, or else all of the typed text.
Available(s) == IF s.fed # <<>> THEN s.fed ELSE s.pend
Taken(s) == IF s.fed # <<>> THEN [s EXCEPT !.fed = <<>>] ELSE [s EXCEPT !.pend = <<>>]

\* What was fed while a read waited, and what was typed when it was about to end, is left for the next one.
Behind(s, feeding, late) == Type(Feed(s, feeding), late)
=============================================================================
