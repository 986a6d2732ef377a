"""C20: events."""
import os
import random

from common import model_check, seed, tier, validate
from walks import sample, walks

OUT = ["true", "false", "none", "raise", "nest"]


def programs(count, key):
    r = random.Random(f"event-{key}")
    out = []
    for _ in range(count):
        n = r.randint(1, 4)
        weights = r.choice([(3, 3, 3, 0, 0), (1, 4, 4, 1, 0), (0, 3, 3, 0, 1), (1, 1, 1, 1, 1), (1, 2, 2, 0, 3)])
        lis = [["l%d" % i, r.choices(OUT, weights)[0], r.randint(1, n)] for i in range(6)]
        ops = []
        for i in range(r.randint(3, 40)):
            x = r.random()
            e = r.randint(1, n)
            if x < 0.45:
                ops.append({"op": "add", "e": e, "lis": r.choice(lis), "via": r.choice(["iadd", "append"])})
            elif x < 0.52:
                ops.append({"op": "refuse", "e": e, "what": r.choice([None, 0, 1, "x", [], ["y"], 1.5, True])})
            elif x < 0.6:
                ops.append({"op": "clear", "e": e})
            else:
                ops.append({"op": "emit", "e": e, "data": i})
        out.append({"n": n, "ops": ops})
    return out


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    model_check(rep, workdir, "MCEvents", "MCEvents.cfg", env={"EMIT": emit, "DEPTH": "4" if quick else "5"}, workers=1, timeout=3000)
    ws = walks(emit)
    chosen = sample(ws, 20000 if quick else 300000, f"{rep.prop}-{seed()}")
    rep.extra["model_walks"], rep.extra["model_walks_replayed"] = len(ws), len(chosen)
    # the last step of a walk may leave listeners nobody has heard of yet: emit both
    progs = [{"n": 2, "ops": w[1:] + [{"op": "emit", "e": e, "data": 50 + e} for e in (1, 2)]} for w in chosen]
    progs += programs(4000 if quick else 80000, seed())
    validate(rep, workdir, "TraceEvents", progs, "drv_event.py", timeout=600, tlc_timeout=6000)
    rep.assumptions += ["listeners do not register or remove listeners while an event is emitted; they return True, 1, False, 0 or None, raise, or emit (themselves not from inside another listener's emission)"]
