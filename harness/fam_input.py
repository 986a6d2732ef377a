"""C10-C12: input."""
import os
import random

import gen_input as g
from common import known, model_check, seed, tier, validate
from walks import sample, walks


def from_walk(w, r):
    ops, fed = [], False
    for o in w[1:]:
        o = dict(o)
        if o["op"] == "feed":
            fed = True
        if o["op"] == "read":
            o["fed"] = fed
            fed = bool(o["feeding"])
            if o["timeout"] >= 1000:
                o["timeout"] = 3000
        ops.append(o)
    return {"cfg": r.choice([g.CLEAN, g.CANON, {}]), "ops": ops}


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    r = random.Random(f"{rep.prop}-{seed()}")
    model_check(rep, workdir, "MCInput", "MCInput.cfg", workers=4)
    model_check(rep, workdir, "MCInputOps", "MCInputOps.cfg", env={"EMIT": emit, "DEPTH": "4" if quick else "5"}, workers=1, timeout=3000)
    ws = walks(emit)
    chosen = sample(ws, (600 if rep.prop == "C11" else 2500) if quick else 30000, f"{rep.prop}-{seed()}")
    rep.extra["model_walks"], rep.extra["model_walks_replayed"] = len(ws), len(chosen)
    progs = [from_walk(w, r) for w in chosen] if rep.prop != "C11" else []
    if rep.prop == "C10":
        progs += g.key_programs() + g.junk_programs(90 if quick else 3000, seed()) + g.programs(2500 if quick else 40000, seed())
    elif rep.prop == "C11":
        progs += g.mouse_programs(300 if quick else 6000, seed())
    else:
        progs += g.end_programs() + g.programs(2000 if quick else 40000, seed() + 1000)
    r.shuffle(progs)
    validate(rep, workdir, "TraceInput", progs, "drv_input.py", timeout=3000, tlc_timeout=6000, confirm=4)
    if rep.prop == "C10":
        validate(rep, workdir, "TraceInput", g.nt_programs(400 if quick else 20000, seed()), "drv_nt.py", shards=2 if quick else 7)
    known(rep, workdir, "TraceInput", "drv_input.py")
    rep.assumptions += ["typed bytes reach the reader through a Linux pseudo-terminal",
                        "on Windows, msvcrt.kbhit and msvcrt.getch do what Python's documentation says (a stand-in answers for them)",
                        "a failure counts if one of four repetitions of the same program fails as well"]
