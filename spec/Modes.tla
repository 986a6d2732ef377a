-------------------------------- MODULE Modes --------------------------------
(***************************************************************************)
(* Modes, title and bell of a terminal, and the contexts of the library    *)
(* that set them. A terminal is driven by the tokens of Ansi.tla:          *)
(*   <<"D", n, on>>  private mode n set (1) or reset (0)                   *)
(*   <<"W", ps>>     window operation (22: push the title, 23: pop it)     *)
(*   <<"T", text>>   set the title                                         *)
(*   <<"B">>         bell                                                  *)
(*   <<"E", on>>     (model only) the ECHO flag of the tty                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Kinds == {"alt", "mouse", "echo", "batch"}
MouseModes == {1006, 1002, 1003}

\* under: the title stack was popped below what was found there.
Term0(title) == [alt |-> FALSE, hidden |-> FALSE, mouse |-> {}, sync |-> FALSE, echo |-> TRUE,
                 title |-> title, stack |-> <<>>, under |-> FALSE, text |-> FALSE, bells |-> 0]

Mode(t, n, on) ==
    CASE n = 1049 -> [t EXCEPT !.alt = on]
      [] n = 25   -> [t EXCEPT !.hidden = ~on]
      [] n = 2026 -> [t EXCEPT !.sync = on]
      [] n \in MouseModes -> [t EXCEPT !.mouse = IF on THEN @ \cup {n} ELSE @ \ {n}]
      [] OTHER    -> t

Window(t, ps) ==
    CASE ps[1] = 22 /\ (Len(ps) = 1 \/ ps[2] \in {0, 2}) -> [t EXCEPT !.stack = Append(@, t.title)]
      [] ps[1] = 23 /\ (Len(ps) = 1 \/ ps[2] \in {0, 2}) ->
            IF t.stack = <<>> THEN [t EXCEPT !.under = TRUE]
            ELSE [t EXCEPT !.title = t.stack[Len(t.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)]
      [] OTHER -> t

Hear(t, k) ==
    CASE k[1] = "D" -> Mode(t, k[2], k[3] = 1)
      [] k[1] = "W" -> Window(t, k[2])
      [] k[1] = "T" -> [t EXCEPT !.title = k[2]]
      [] k[1] = "B" -> [t EXCEPT !.bells = @ + 1]
      [] k[1] = "E" -> [t EXCEPT !.echo = k[2] = 1]
      [] k[1] = "t" -> [t EXCEPT !.text = TRUE]
      [] OTHER -> t

HearAll(t, ks) == FoldLeft(Hear, [t EXCEPT !.text = FALSE, !.bells = 0], ks)

IsOn(t, kind) ==
    CASE kind = "alt"   -> t.alt
      [] kind = "mouse" -> t.mouse = MouseModes
      [] kind = "echo"  -> ~t.echo
      [] kind = "batch" -> t.sync

IsOff(t, kind) ==
    CASE kind = "alt"   -> ~t.alt
      [] kind = "mouse" -> t.mouse = {}
      [] kind = "echo"  -> t.echo
      [] kind = "batch" -> ~t.sync

\* The part of the terminal that a context of some kind may change.
Without(t, kind) ==
    LET q == [t EXCEPT !.text = FALSE, !.bells = 0]
    IN CASE kind = "alt"   -> [q EXCEPT !.alt = FALSE, !.hidden = FALSE, !.title = "", !.stack = <<>>, !.under = FALSE]
         [] kind = "mouse" -> [q EXCEPT !.mouse = {}]
         [] kind = "echo"  -> [q EXCEPT !.echo = TRUE]
         [] kind = "batch" -> [q EXCEPT !.sync = FALSE]

----------------------------------------------------------------------------
(* The library's own steps, as writes: a sequence of token sequences.      *)

MouseToks(on) == <<<<"D", 1006, on>>, <<"D", 1002, on>>, <<"D", 1003, on>>>>

EnterWrites(kind, hide) ==
    CASE kind = "alt"   -> <<<<<<"D", 1049, 1>>>>>> \o (IF hide THEN <<<<<<"D", 25, 0>>>>>> ELSE <<>>)
      [] kind = "mouse" -> <<MouseToks(1)>>
      [] kind = "echo"  -> <<<<<<"E", 0>>>>>>
      [] kind = "batch" -> <<<<<<"D", 2026, 1>>>>>>

LeaveWrites(kind, hide, custom) ==
    CASE kind = "alt"   -> <<<<<<"D", 1049, 0>>>>>> \o (IF custom THEN <<<<<<"W", <<23, 0>>>>>>>> ELSE <<>>)
                           \o (IF hide THEN <<<<<<"D", 25, 1>>>>>> ELSE <<>>)
      [] kind = "mouse" -> <<MouseToks(0)>>
      [] kind = "echo"  -> <<<<<<"E", 1>>>>>>
      [] kind = "batch" -> <<<<<<"D", 2026, 0>>>>>>

TitleWrites(custom, new) ==
    CASE new = <<>> /\ custom -> <<<<<<"W", <<23, 0>>>>>>>>
      [] new = <<>> /\ ~custom -> <<>>
      [] OTHER -> (IF custom THEN <<>> ELSE <<<<<<"W", <<22, 0>>>>>>>>) \o <<<<<<"T", new[1]>>>>>>
=============================================================================
