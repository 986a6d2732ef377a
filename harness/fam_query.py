"""C22: questions to the terminal."""
import os
import random

from common import model_check, seed, tier, validate
from walks import sample, walks

BAD, NONE = {"k": "bad"}, {"k": "none"}


def rgb(r):
    def ch():
        return r.choice([0, 1, 255, 256, 257, 0x7FFF, 0xFF00, 0xFFFF, r.randrange(65536)])
    return {"k": "rgb", "v": [ch(), ch(), ch()]}


def any_reply(r, q):
    x = r.random()
    if q in ("10", "11"):
        return rgb(r) if x < 0.8 else BAD
    if x < 0.15:
        return NONE
    if x < 0.35:
        return BAD
    if q == "14":
        return {"k": "px", "v": [r.choice([1, 99, 720, 1080, 4320]), r.choice([1, 8, 640, 1920, 10000])]}
    return {"k": "mode", "v": [r.choice([0, 1, 1, 2, 2, 4])]}


def programs(count, key):
    r = random.Random(f"query-{key}")
    out = []
    for i in range(count):
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            ops.append({"op": "create", "in": r.random() < 0.85, "out": r.random() < 0.8, "res": [1280, 720] if r.random() < 0.3 else [r.randint(1, 4000), r.randint(1, 3000)],
                        "replies": {"10": any_reply(r, "10"), "11": any_reply(r, "11")}})
            for _ in range(r.randint(1, 8)):
                q = r.choice(["10", "11", "14", "14", "2026"])
                ops.append({"op": "ask", "q": q, "reply": any_reply(r, q)})
        out.append({"n": i, "ops": ops})
    return out


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    model_check(rep, workdir, "MCQuery", "MCQuery.cfg", env={"EMIT": emit, "DEPTH": "3" if quick else "4"}, workers=1, timeout=3000)
    ws = walks(emit)
    chosen = sample(ws, 900 if quick else 10000, f"{rep.prop}-{seed()}")
    rep.extra["model_walks"], rep.extra["model_walks_replayed"] = len(ws), len(chosen)
    progs = [{"n": i, "ops": w} for i, w in enumerate(chosen)] + programs(700 if quick else 10000, seed())
    random.Random(seed()).shuffle(progs)
    validate(rep, workdir, "TraceQuery", progs, "drv_query.py", timeout=3000, tlc_timeout=6000, confirm=4)
    rep.assumptions += ["a terminal answers the colour queries with something; it answers timed queries within 50 ms or not at all",
                        "a failure counts if one of four repetitions of the same program fails as well"]
