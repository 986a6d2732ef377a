"""C08, C09: modes and titles."""
import os
import random

from common import model_check, seed, tier, validate
from walks import sample, walks

ERRORS = ["ValueError", "KeyboardInterrupt", "SystemExit", "RuntimeError", "GeneratorExit", "Custom", "OSError"]
TITLES = [[], [], [""], ["x"], ["y"], ["orig"], ["{title}"], ["a; b"], ["\u00e9\u4e16"], ["%s %(x)s"], ["0"], [" "], [" x  y "], ["Ab\\n"], ["x" * 300], ["<&'\">"], ["None"]]


def programs(count, key, faults):
    r = random.Random(f"modes-{key}-{faults}")
    out = []
    for _ in range(count):
        ops = []
        depth = 0
        custom = False
        kinds = r.choice([["alt"], ["alt", "mouse", "batch"], ["alt", "mouse", "echo", "batch"], ["mouse", "batch"]])
        for _ in range(r.randint(4, 30)):
            x = r.random()
            if x < 0.3 and depth < 5:
                kind = r.choice(kinds)
                fail = r.choice([1, 2, 3]) if faults and kind != "echo" and r.random() < 0.25 else 0
                ops.append({"op": "enter", "kind": kind, "hide": kind == "alt" and r.random() < 0.6, "fail": fail,
                            "at": r.choice(["write", "flush"])})
                if fail:
                    # whether it failed is only known when it is run: leave the program here, or go on without leaving
                    break
                depth += 1
            elif x < 0.55 and depth:
                n = r.randint(1, depth)
                how = r.choice(["", "", *ERRORS])
                for _ in range(n if how else 1):    # an exception goes through several of them
                    ops.append({"op": "leave", "how": how})
                    depth -= 1
            elif x < 0.75:
                v = r.choice(TITLES)
                custom = bool(v)
                ops.append({"op": "title", "v": v})
            elif x < 0.8 and depth == 0:
                ops.append({"op": "title", "v": []})
                ops.append({"op": "outer", "v": r.choice(["other", "orig", "third"])})
            else:
                k = r.choice(["cursor", "mouse", "bell", "draw"])
                ops.append({"op": k, "on": r.random() < 0.5} if k in ("cursor", "mouse") else {"op": k})
        while depth and r.random() < 0.9:
            ops.append({"op": "leave", "how": r.choice(["", *ERRORS])})
            depth -= 1
        out.append({"ops": ops})
    return out


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    model_check(rep, workdir, "MCModes", "MCModes.cfg", env={"EMIT": emit, "DEPTH": "5" if quick else "6"}, workers=1, timeout=3000)
    ws = walks(emit)
    if rep.prop == "C09":
        ws = [w for w in ws if not any(o.get("fail") for o in w) and any(o["op"] == "title" for o in w)]
    slow = lambda w: sum(o.get("kind") == "echo" for o in w)
    cheap = [w for w in ws if not slow(w)]
    dear = [w for w in ws if slow(w)]
    chosen = sample(cheap, 9000 if quick else 150000, f"{rep.prop}-{seed()}")
    if rep.prop == "C08":
        chosen += sample(dear, 1500 if quick else 20000, f"{rep.prop}-{seed()}")
    rep.extra["model_walks"], rep.extra["model_walks_replayed"] = len(ws), len(chosen)
    progs = [{"ops": w[1:]} for w in chosen]
    for p in progs:    # and then the way out
        depth = sum(o["op"] == "enter" and not o["fail"] for o in p["ops"]) - sum(o["op"] == "leave" for o in p["ops"])
        p["ops"] = p["ops"] + [{"op": "leave", "how": ""}] * depth
    progs += programs(2500 if quick else 40000, seed(), False)
    if rep.prop == "C08":
        progs += programs(1500 if quick else 30000, seed(), True)
    random.Random(seed()).shuffle(progs)
    for i, p in enumerate(progs):
        p["says"], p["settings"] = i % 2 == 1, i // 2 % 8
        p["beside"] = i % 7 if i % 3 == 0 else 0
    validate(rep, workdir, "TraceModes", progs, "drv_modes.py", timeout=800, tlc_timeout=6000)
    rep.assumptions += ["a terminal understands the private modes 25, 1002, 1003, 1006, 1049 and 2026, the title stack and OSC 0 "
                        "as spec/Modes.tla does", "a write that fails does so once"]
