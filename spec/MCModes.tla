------------------------------- MODULE MCModes -------------------------------
(***************************************************************************)
(* The library's contexts and titles as the design has them, on the        *)
(* terminal of Modes.tla: all nestings, exits, and failing writes while    *)
(* entering. Every transition is emitted and replayed on the real code.    *)
(***************************************************************************)
EXTENDS Modes, TLC, Json, CSV, IOUtils

Depth == atoi(IOEnv.DEPTH)
MaxNest == 3

VARIABLES t, ctx, custom, hist

vars == <<t, ctx, custom, hist>>

Orig == "orig"

Init == t = Term0(Orig) /\ ctx = <<>> /\ custom = FALSE /\ hist = <<[op |-> "start"]>>

Send(ws) == FoldLeft(HearAll, t, ws)

Enter == \E kind \in Kinds, hide \in BOOLEAN :
    /\ Len(ctx) < MaxNest
    /\ kind # "alt" => ~hide
    /\ t' = Send(EnterWrites(kind, hide))
    /\ ctx' = Append(ctx, [kind |-> kind, hide |-> hide])
    /\ custom' = custom
    /\ hist' = Append(hist, [op |-> "enter", kind |-> kind, hide |-> hide, fail |-> 0, at |-> "write"])

\* The k-th write of entering fails, before or after it has reached the terminal; what was
\* done is undone.
EnterFails == \E kind \in Kinds \ {"echo"}, hide \in BOOLEAN, at \in {"write", "flush"} : \E k \in 1..Len(EnterWrites(kind, hide)) :
    /\ Len(ctx) < MaxNest
    /\ kind # "alt" => ~hide
    /\ LET ws == SubSeq(EnterWrites(kind, hide), 1, IF at = "write" THEN k - 1 ELSE k)
       IN t' = Send(ws \o LeaveWrites(kind, hide, custom))
    /\ custom' = (custom /\ kind # "alt")
    /\ hist' = Append(hist, [op |-> "enter", kind |-> kind, hide |-> hide, fail |-> k, at |-> at])
    /\ UNCHANGED ctx

Leave == \E how \in {"", "ValueError", "KeyboardInterrupt"} :
    /\ ctx # <<>>
    /\ LET c == ctx[Len(ctx)] IN
         /\ t' = Send(LeaveWrites(c.kind, c.hide, custom))
         /\ custom' = (custom /\ c.kind # "alt")
         /\ ctx' = SubSeq(ctx, 1, Len(ctx) - 1)
    /\ hist' = Append(hist, [op |-> "leave", how |-> how])

Title == \E v \in {<<>>, <<"">>, <<"x">>, <<"y">>} :
    /\ t' = Send(TitleWrites(custom, v))
    /\ custom' = (v # <<>>)
    /\ hist' = Append(hist, [op |-> "title", v |-> v])
    /\ UNCHANGED ctx

Next == Len(hist) <= Depth /\ (Enter \/ EnterFails \/ Leave \/ Title)

View == <<t, ctx, custom, Len(hist)>>

Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT)

Active(kind) == \E i \in DOMAIN ctx : ctx[i].kind = kind

\* C08
OffOutside == \A k \in Kinds : ~Active(k) => IsOff(t, k)
CursorBack == ~Active("alt") => ~t.hidden
OnAtFirst == [][Len(ctx') > Len(ctx) => IsOn(t', ctx'[Len(ctx')].kind)]_vars
\* A context of a kind stays on as long as none of its kind was left inside it.
StaysOn == [][\A k \in Kinds : IsOn(t, k) /\ ~IsOn(t', k) =>
                 hist'[Len(hist')].op = "leave" \/ (hist'[Len(hist')].op = "enter" /\ hist'[Len(hist')].fail > 0)]_vars
\* C09
OriginalTitle == ~custom => t.title = Orig /\ t.stack = <<>>
Balanced == ~t.under /\ Len(t.stack) <= 1 /\ (custom => t.stack = <<Orig>>)
GivenUp == [][Len(ctx') < Len(ctx) /\ ctx[Len(ctx)].kind = "alt" => ~custom']_vars
=============================================================================
