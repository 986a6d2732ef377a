------------------------------- MODULE MCSpace -------------------------------
(***************************************************************************)
(* All environments, and all ways of forcing and un-forcing in them. Every *)
(* transition is emitted and replayed on the real code.                    *)
(***************************************************************************)
EXTENDS ColourSpace, TLC, Json, CSV, IOUtils

Values == [SLATE_COLORSYS |-> {<<>>, <<"true_color">>, <<"EIGHT_BIT">>, <<"no_color">>, <<"Standard">>},
           NO_COLOR |-> {<<>>, <<"">>, <<"1">>},
           COLORTERM |-> {<<>>, <<"">>, <<" ">>, <<" truecolor ">>, <<"24BIT">>, <<"256color">>, <<"yes">>},
           TERM |-> {<<>>, <<"">>, <<"xterm">>, <<"xterm-256color">>, <<"256color">>, <<"xterm-24bit">>,
                     <<"xterm-truecolor">>, <<"dumb">>}]

Depth == atoi(IOEnv.DEPTH)

VARIABLES s, hist

vars == <<s, hist>>

Init == s = State0(EnvUnset, 2) /\ hist = <<[op |-> "start"]>>

Step(n, e) == s' = n /\ hist' = Append(hist, e)

Env == \E n \in Names : \E v \in Values[n] : v # s.env[n] /\ Step(SetVar(s, n, v), [op |-> "env", n |-> n, v |-> v])

\* Only the first terminal of the model is told anything, the second must not notice.
ForceIt == \E v \in {<<>>} \cup {<<c>> : c \in SpaceNames} : Step(Force(s, 1, v), [op |-> "force", t |-> 1, v |-> v])
ListenIt == s.terms[1].ears < 2 /\ Step(Listen(s, 1), [op |-> "listen", t |-> 1])

Next == Len(hist) <= Depth /\ (Env \/ ForceIt \/ ListenIt)

View == <<s, Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

\* C18
Total == \A a, b \in SpaceNames : (Rank(a) < Rank(b)) \/ (Rank(b) < Rank(a)) \/ a = b
AlwaysOne == \A t \in 1..2 : InForce(s.env, s.terms[t]) \in SpaceNames
Priority ==
    /\ \A t \in 1..2 : s.terms[t].forced # <<>> => InForce(s.env, s.terms[t]) = s.terms[t].forced[1]
    /\ s.env["SLATE_COLORSYS"] = <<>> /\ s.env["NO_COLOR"] # <<>> => Promised(s.env) = "no_color"
    /\ s.env = EnvUnset => Promised(s.env) = "standard"
Apart == s.terms[2] = NewTerm
\* Forcing and un-forcing is no trace of itself.
Unforced == [][ (\E v \in {<<c>> : c \in SpaceNames} : s.terms[1].forced = v) /\ s'.terms[1].forced = <<>> /\ s'.env = s.env
                => InForce(s'.env, s'.terms[1]) = Promised(s.env) ]_vars
=============================================================================
