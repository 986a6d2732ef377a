"""C18: which colour space is in force."""
import os
import random

from common import model_check, seed, tier, validate
from walks import sample, walks

SPACES = ["standard", "no_color", "eight_bit", "true_color"]
VALUES = {
    "SLATE_COLORSYS": [[], [], [], *[[v] for v in ("true_color", "TRUE_COLOR", "True_Color", "eight_bit", "EIGHT_BIT", "no_color",
                                           "NO_COLOR", "standard", "STANDARD", "Standard")]],
    "NO_COLOR": [[], [], [""], ["1"], ["0"], ["false"]],
    "COLORTERM": [[], [], *[[v] for v in ("", " ", "   ", "truecolor", "TrueColor", " truecolor ", "TRUECOLOR", "24bit", "24BIT",
                                      "24bit ", "256color", "256COLOR", "yes", "rxvt", "1", "true", "8bit")]],
    "TERM": [[], *[[v] for v in ("", "xterm", "xterm-256color", "256color", "xterm-24bit", "24bit", "xterm-truecolor",
                             "truecolor", "dumb", "linux", "vt100", "xterm-color", "xterm-88color", "xterm-")]],
}


def programs(count, key):
    r = random.Random(f"space-{key}")
    out = []
    for _ in range(count):
        ops = []
        for _ in range(r.randint(3, 25)):
            x = r.random()
            if x < 0.45:
                n = r.choice(list(VALUES))
                ops.append({"op": "env", "n": n, "v": r.choice(VALUES[n])})
            elif x < 0.75:
                ops.append({"op": "force", "t": r.randint(1, 2), "v": r.choice([[], *[[s] for s in SPACES]])})
            elif x < 0.9:
                ops.append({"op": "listen", "t": r.randint(1, 2)})
            else:
                ops.append({"op": "order", "a": r.choice(SPACES), "b": r.choice(SPACES)})
        out.append({"env": {n: r.choice(v) for n, v in VALUES.items()}, "ops": ops})
    return out


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    model_check(rep, workdir, "MCSpace", "MCSpace.cfg", env={"EMIT": emit, "DEPTH": "4" if quick else "5"}, workers=1, timeout=3000)
    ws = walks(emit)
    chosen = sample(ws, 12000 if quick else 150000, f"{rep.prop}-{seed()}")
    rep.extra["model_walks"], rep.extra["model_walks_replayed"] = len(ws), len(chosen)
    progs = [{"ops": w[1:]} for w in chosen]
    progs.append({"ops": [{"op": "order", "a": a, "b": b} for a in SPACES for b in SPACES]})
    progs += programs(2000 if quick else 40000, seed())
    for i, p in enumerate(progs):
        p["says"] = i % 2 == 1
    validate(rep, workdir, "TraceSpace", progs, "drv_space.py", timeout=600, tlc_timeout=6000)
    rep.assumptions += ["only the listed spellings of the variables are used (spec/ColourSpace.tla)"]
