"""C24: time limits."""
import os
import random

from common import model_check, seed, tier, validate
from walks import sample, walks

HOW = ["", "", "ValueError", "SystemExit", "KeyboardInterrupt", "OSError", "StopIteration", "TimeoutError", "Custom", "GeneratorExit"]
GUARDS = ["", "", "os", "value", "lookup", "runtime", "end"]
VIA = ["sleep", "spin", "wait", "lock"]


def clear(d, steps):
    at = 0
    for n in steps:
        at += n
        if d - 2 < at < d + 1:
            return False
    return True


def op(r):
    if r.random() < 0.2:    # limits that are far away
        return {"d": r.choice([40, 60, 100, 1000, 5000]), "steps": [r.choice([0, 1, 2]) for _ in range(r.randint(0, 3))],
                "how": r.choice(HOW), "via": r.choice(VIA), "linger": False}
    if r.random() < 0.15:   # limits that are very close
        return {"d": 1, "ms": r.choice([1, 2, 3, 4, 6, 12, 15, 25]), "steps": [r.choice([2, 3, 20])] + [r.choice([0, 1, 2]) for _ in range(r.randint(0, 2))],
                "how": r.choice(HOW), "via": r.choice(VIA), "linger": r.random() < 0.3}
    while True:
        d = r.choice([2, 2, 3, 4, 5, 8])
        steps = [r.choice([0, 0, 1, 1, 2, 3, 4, 10, 100]) for _ in range(r.randint(0, 4))]
        if clear(d, steps):
            return {"d": d, "steps": steps, "how": r.choice(HOW), "via": r.choice(VIA), "linger": r.random() < 0.3}


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    model_check(rep, workdir, "MCTimeout", "MCTimeout.cfg", env={"EMIT": emit, "DEPTH": "2" if quick else "3"}, workers=1, timeout=3000)
    ws = walks(emit)
    chosen = sample(ws, 250 if quick else 6000, f"{rep.prop}-{seed()}")
    rep.extra["model_runs"], rep.extra["model_runs_replayed"] = len(ws), len(chosen)
    r = random.Random(f"timeout-{seed()}")
    progs = [{"ops": [{**o, "via": r.choice(VIA), "linger": i == len(w) - 1} for i, o in enumerate(w)]} for w in chosen]
    progs += [{"ops": [op(r) for _ in range(r.randint(1, 5))]} for _ in range(150 if quick else 4000)]
    for p in progs:
        for o in p["ops"]:
            o["guard"] = r.choice(GUARDS)
    validate(rep, workdir, "TraceTimeout", progs, "drv_timeout.py", timeout=3000, tlc_timeout=6000, shards=6, confirm=3)
    rep.assumptions += ["a step that ends within two units (60 ms) before the limit, or less than one after it, is not judged; limits are not nested",
                        "a failure counts if one of three repetitions of the same program fails as well"]
