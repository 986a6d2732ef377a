---------------------------- MODULE TraceColours ----------------------------
(***************************************************************************)
(* Validation of recorded uses of the real Color class and colour spaces   *)
(* against Colours.tla. The state is the colour space in force.            *)
(***************************************************************************)
EXTENDS Colours, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

Watch == [C16 |-> {"colour", "layer", "alpha", "hex", "error"},
          C17 |-> {"encoding", "raised"},
          C19 |-> {"mix", "contrast", "hue", "kept", "light", "raised"}]
          [IOEnv.PROP]

VARIABLES tid, l, st, bad

Clause(name, holds) == IF holds THEN {} ELSE {name}

Close(a, b) == a - b \in -1..1

Modify(col, m) == IF m[1] = "layer" THEN OnLayer(col, m[2]) ELSE WithAlpha(col, m[2] * 1000)

Built(u) == FoldLeft(Modify, Denotes(u.d), u.mods)

JudgeDescribe(e) ==
    LET want == IF Denotes(e.d) = <<>> THEN <<>> ELSE Built(e)
    IN IF want = <<>> THEN Clause("error", e.exc = "ValueError")
       ELSE IF e.exc # "" THEN {"error"}
       ELSE Clause("colour", e.c = want.c)
            \cup Clause("layer", e.back = want.back)
            \cup Clause("alpha", Close(e.alpha, want.a))
            \cup Clause("hex", e.hex = Rgb(want.c[1], want.c[2], want.c[3]))

JudgeEncode(s, e) ==
    IF e.exc # "" THEN {"raised"} ELSE Clause("encoding", e.ps \in Encodings(Built(e.u), s.space))

\* A span in the given colours: its parameters are those of the colours.
JudgePrint(s, e) ==
    LET F == IF e.fg = <<>> THEN {<<>>} ELSE Encodings(Built(e.fg[1]), s.space)
        B == IF e.bg = <<>> THEN {<<>>} ELSE Encodings(Built(e.bg[1]), s.space)
    IN IF e.exc # "" THEN {"raised"}
       ELSE Clause("encoding", \E f \in F, b \in B : e.ps = f \o b)

Kept(e) == Clause("kept", \A k \in DOMAIN e.backs : e.backs[k] = e.back)

JudgeMix(e) ==
    CASE e.op = "blend"    -> Clause("mix", MixOk(e.p, e.q, e.n, e.d, e.exact, e.r[1]))
                              \cup (IF e.to = "" THEN Kept(e) ELSE Clause("kept", e.backs[1] = (e.to = "back")))
      [] e.op = "choose"   -> Clause("contrast", ContrastOf(e.p, e.r[1], IF e.white = <<>> THEN OffWhite ELSE e.white,
                                                            IF e.black = <<>> THEN OffBlack ELSE e.black)) \cup Kept(e)
      [] e.op = "oppose"   -> Clause("mix", OpposeOk(e.p, e.n, e.d, e.exact, e.r[1])) \cup Kept(e)
      [] e.op = "light"    -> LET y == Luminance(e.p)
                              IN Clause("light", e.y \in (y - Slack)..(y + Slack) /\ LightnessOk(e.y, e.l))
      [] e.op = "lighten"  -> Clause("mix", MixOk(e.p, White, e.n, e.d, e.exact, e.r[1])) \cup Kept(e)
      [] e.op = "darken"   -> Clause("mix", MixOk(e.p, Black, e.n, e.d, e.exact, e.r[1])) \cup Kept(e)
      [] e.op = "contrast" -> Clause("contrast", ContrastOk(e.p, e.r[1])) \cup Kept(e)
      [] e.op = "complement" ->
            Clause("hue", IF Max3(e.p) = Min3(e.p)
                          THEN e.r[1] = GreyOpposite(e.p)
                          ELSE TurnOk(e.p, 6, e.r[1])) \cup Kept(e)
      [] e.op = "turn"     -> Clause("hue", TurnOk(e.p, e.n, e.r[1])) \cup Kept(e)
      [] e.op = "triad"    -> Clause("hue", Len(e.r) = 3 /\ e.r[1] = e.p /\ TurnOk(e.p, 4, e.r[2])
                                            /\ TurnOk(e.p, 8, e.r[3])) \cup Kept(e)
      [] e.op = "analog"   -> Clause("hue", Len(e.r) = 3 /\ e.r[1] = e.p /\ TurnOk(e.p, 1, e.r[2])
                                            /\ TurnOk(e.p, 2, e.r[3])) \cup Kept(e)
      [] e.op = "tetrad"   -> Clause("hue", Len(e.r) = 4 /\ e.r[1] = e.p /\ TurnOk(e.p, 3, e.r[2])
                                            /\ (Max3(e.p) = Min3(e.p) \/ TurnOk(e.p, 6, e.r[3]))
                                            /\ TurnOk(e.p, 9, e.r[4])) \cup Kept(e)
      [] e.op = "layer"    -> Clause("kept", e.r[1] = e.p /\ e.backs[1] = e.to /\ Close(e.alpha, e.a * 1000))
      [] e.op = "alpha"    -> Clause("kept", e.r[1] = e.p /\ e.backs[1] = e.back /\ Close(e.alpha, e.to * 1000))

Judge(s, e) ==
    CASE e.op = "describe" -> [st |-> s, bad |-> JudgeDescribe(e)]
      [] e.op = "space"    -> LET f == IF e.how = "env" THEN s.forced
                                       ELSE IF e.how = "force" THEN <<e.v>> ELSE <<>>
                                  v == IF e.how = "env" THEN e.v ELSE s.env
                              IN [st |-> [forced |-> f, env |-> v, space |-> IF f = <<>> THEN v ELSE f[1]],
                                  bad |-> {}]
      [] e.op = "encode"   -> [st |-> s, bad |-> JudgeEncode(s, e)]
      [] e.op = "print"    -> [st |-> s, bad |-> JudgePrint(s, e)]
      [] OTHER             -> [st |-> s, bad |-> IF e.exc # "" THEN {"raised"} ELSE JudgeMix(e)]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ st = [forced |-> <<>>, env |-> Traces[tid][1].env, space |-> Traces[tid][1].env]
    /\ bad = {}

Next ==
    /\ l < Len(Traces[tid])
    /\ LET r == Judge(st, Traces[tid][l + 1])
       IN st' = r.st /\ bad' = r.bad
    /\ l' = l + 1
    /\ tid' = tid

Conforms == bad \cap Watch = {}
=============================================================================
