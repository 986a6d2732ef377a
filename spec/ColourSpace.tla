----------------------------- MODULE ColourSpace -----------------------------
(***************************************************************************)
(* Which colour space is in force: environment variables, terminals that   *)
(* can force one, and listeners that hear of it.                           *)
(*                                                                         *)
(* env is a record of the four variables, each <<>> (unset) or <<value>>.  *)
(* terms[t] = [forced |-> <<>> or <<space>>, ears |-> number of listeners].*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Least capable first: the order of the colour spaces.
Cascade == <<"standard", "no_color", "eight_bit", "true_color">>
SpaceNames == {Cascade[i] : i \in 1..4}
Rank(s) == CHOOSE i \in 1..4 : Cascade[i] = s

Names == {"SLATE_COLORSYS", "NO_COLOR", "COLORTERM", "TERM"}

EnvUnset == [n \in Names |-> <<>>]

\* Values of the variables, as lower case without blanks; written out because
\* TLA+ has no string functions.
Canonical(v) ==
    CASE v \in {"true_color", "TRUE_COLOR", "True_Color"} -> "true_color"
      [] v \in {"eight_bit", "EIGHT_BIT"} -> "eight_bit"
      [] v \in {"no_color", "NO_COLOR"} -> "no_color"
      [] v \in {"standard", "STANDARD", "Standard"} -> "standard"
      [] v \in {"truecolor", "TrueColor", " truecolor ", "TRUECOLOR"} -> "truecolor"
      [] v \in {"24bit", "24BIT", "24bit "} -> "24bit"
      [] v \in {"256color", "256COLOR"} -> "256color"
      [] v \in {"", " ", "   "} -> ""
      [] OTHER -> "other"

\* What TERM promises.
OfTerm(v) ==
    CASE v \in {"xterm-24bit", "24bit", "xterm-truecolor", "truecolor"} -> "true_color"
      [] v \in {"xterm-256color", "256color"} -> "eight_bit"
      [] OTHER -> "standard"

OfColorTerm(v) ==
    CASE v \in {"truecolor", "24bit"} -> "true_color"
      [] v = "256color" -> "eight_bit"
      [] OTHER -> "standard"

Promised(env) ==
    LET ct == IF env["COLORTERM"] = <<>> THEN "" ELSE Canonical(env["COLORTERM"][1])
        tm == IF env["TERM"] = <<>> THEN "" ELSE env["TERM"][1]
    IN CASE env["SLATE_COLORSYS"] # <<>> -> Canonical(env["SLATE_COLORSYS"][1])
         [] env["SLATE_COLORSYS"] = <<>> /\ env["NO_COLOR"] # <<>> -> "no_color"
         [] OTHER -> IF ct # "" THEN OfColorTerm(ct) ELSE OfTerm(tm)

InForce(env, term) == IF term.forced # <<>> THEN term.forced[1] ELSE Promised(env)

NewTerm == [forced |-> <<>>, ears |-> 0]

State0(env, n) == [env |-> env, terms |-> [t \in 1..n |-> NewTerm]]

SetVar(s, n, v) == [s EXCEPT !.env = [@ EXCEPT ![n] = v]]
Force(s, t, v) == [s EXCEPT !.terms[t].forced = v]
Listen(s, t) == [s EXCEPT !.terms[t].ears = @ + 1]

\* The calls that listeners get when terminal t is told v (<<>>: un-forced).
Heard(s, t) == s.terms[t].ears
=============================================================================
