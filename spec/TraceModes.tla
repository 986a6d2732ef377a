----------------------------- MODULE TraceModes -----------------------------
(***************************************************************************)
(* Validation of recorded uses of the real Terminal's contexts, titles and *)
(* controls against Modes.tla.                                             *)
(***************************************************************************)
EXTENDS Modes, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C08 |-> {"on", "off", "cursor", "reaches", "exactly", "others", "settings", "text", "raised"},
          C09 |-> {"title", "stack", "raised"}]
          [IOEnv.PROP]

\* st.t is the terminal, st.ctx the contexts that are active, st.sure the kinds that must be on,
\* st.hid whether the cursor is hidden by a context (and not by the application itself),
\* st.custom the title set, st.orig the one to come back.
VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

Active(s, kind) == \E i \in DOMAIN s.ctx : s.ctx[i].kind = kind

\* The terminal after an event; ECHO is read from the tty.
After(s, e) == [HearAll(s.t, e.toks) EXCEPT !.echo = e.echo]

\* Contexts that are surely on stay on.
StillOn(s, t) == Clause("on", \A k \in s.sure : IsOn(t, k))

\* The title that is to be seen, and a balanced stack whenever no title is set.
Titles(s, t) ==
    Clause("title", t.title = (IF s.custom = <<>> THEN s.orig ELSE s.custom[1]))
    \cup Clause("stack", ~t.under /\ (s.custom = <<>> => t.stack = <<>>))

Enter(s, e, t) ==
    IF e.exc = ""
    THEN LET n == [s EXCEPT !.t = t, !.ctx = Append(@, [kind |-> e.kind, hide |-> e.hide]),
                            !.sure = @ \cup {e.kind},
                            !.hid = IF e.kind = "alt" THEN (Active(s, "alt") /\ @) \/ e.hide ELSE @]
         IN [st |-> n,
             bad |-> Clause("on", IsOn(t, e.kind))
                     \cup Clause("cursor", IF e.kind = "alt" /\ e.hide THEN t.hidden ELSE t.hidden = s.t.hidden)
                     \cup Clause("others", Without(t, e.kind) = Without(s.t, e.kind))
                     \cup Clause("text", ~t.text) \cup StillOn(n, t) \cup Titles(n, t)]
    ELSE \* the fault hit while entering; the title may have been given up
         LET n == [s EXCEPT !.t = t, !.sure = @ \ {e.kind}, !.custom = IF e.kind = "alt" /\ t.stack = <<>> THEN <<>> ELSE @]
         IN [st |-> n,
             bad |-> Clause("reaches", e.fail # 0 /\ e.exc = "Fault")
                     \cup Clause("off", Active(s, e.kind) \/ IsOff(t, e.kind))
                     \cup Clause("cursor", s.t.hidden \/ ~t.hidden \/ Active(s, "alt"))
                     \cup Clause("others", Without(t, e.kind) = Without(s.t, e.kind))
                     \cup Clause("text", ~t.text) \cup StillOn(n, t)]

Leave(s, e, t) ==
    LET c == s.ctx[Len(s.ctx)]
        n == [s EXCEPT !.t = t, !.ctx = SubSeq(@, 1, Len(@) - 1), !.sure = @ \ {c.kind},
                       !.hid = @ /\ t.hidden,
                       !.custom = IF c.kind = "alt" THEN <<>> ELSE @]
        last == ~Active(n, c.kind)
    IN [st |-> n,
        bad |-> Clause("off", last => IsOff(t, c.kind))
                \cup Clause("cursor", CASE c.kind = "alt" /\ last /\ s.hid -> ~t.hidden
                                        [] c.kind = "alt" /\ ~c.hide /\ ~s.hid -> t.hidden = s.t.hidden
                                        [] c.kind # "alt" -> t.hidden = s.t.hidden
                                        [] OTHER -> TRUE)
                \cup Clause("reaches", e.reached = e.how)
                \cup Clause("others", Without(t, c.kind) = Without(s.t, c.kind))
                \cup Clause("text", ~t.text) \cup StillOn(n, t) \cup Titles(n, t)]

\* Only what was asked for is sent.
Exactly(s, n, e, t, want) ==
    [st |-> [n EXCEPT !.t = t],
     bad |-> Clause("exactly", Len(e.toks) = Cardinality(want) /\ ToSet(e.toks) = want)
             \cup Clause("others", t.echo = s.t.echo) \cup StillOn(n, t) \cup Titles(n, t)]

Judge(s, e) ==
    LET t == After(s, e)
    IN CASE e.op = "enter" -> Enter(s, e, t)
         [] e.op = "leave" -> Leave(s, e, t)
         [] e.exc # ""     -> [st |-> s, bad |-> {"raised"}]
         [] e.op = "cursor" -> Exactly(s, [s EXCEPT !.hid = FALSE], e, t, {<<"D", 25, IF e.on THEN 1 ELSE 0>>})
         [] e.op = "mouse" -> Exactly(s, [s EXCEPT !.sure = IF e.on THEN @ ELSE @ \ {"mouse"}], e, t,
                                      {<<"D", n, IF e.on THEN 1 ELSE 0>> : n \in MouseModes})
         [] e.op = "bell"  -> Exactly(s, s, e, t, {<<"B">>})
         [] e.op = "draw"  -> [st |-> [s EXCEPT !.t = t],
                               bad |-> Clause("others", [t EXCEPT !.text = FALSE, !.bells = 0]
                                                        = [s.t EXCEPT !.text = FALSE, !.bells = 0])]
         [] e.op = "title" -> LET n == [s EXCEPT !.t = t, !.custom = e.v]
                              IN [st |-> n, bad |-> Titles(n, t) \cup StillOn(n, t) \cup Clause("text", ~t.text)
                                                    \cup Clause("others", [Without(t, "alt") EXCEPT !.alt = t.alt, !.hidden = t.hidden]
                                                            = [Without(s.t, "alt") EXCEPT !.alt = s.t.alt, !.hidden = s.t.hidden])]
         \* somebody else changes the title while the library has none set
         [] e.op = "outer" -> [st |-> [s EXCEPT !.t = [t EXCEPT !.title = e.v], !.orig = e.v], bad |-> {}]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = [t |-> Term0(Traces[tid][1].title), ctx |-> <<>>, sure |-> {}, hid |-> FALSE,
             custom |-> <<>>, orig |-> Traces[tid][1].title]
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN /\ st' = r.st
          \* without echo or with it, the other settings of the tty are none of our business
          /\ bad' = r.bad \cup Clause("settings", Active(r.st, "echo") \/ Traces[tid][l + 1].rest = Traces[tid][1].rest)
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
