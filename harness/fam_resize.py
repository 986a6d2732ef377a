"""C07: the size of the terminal."""
import os
import random

from common import model_check, seed, tier, validate
from walks import sample, walks

KINDS = ["rec", "read", "draw", "probe", "raise"]


def actual(env, tty):
    return [env[0] or tty[0], env[1] or tty[1]]


def sized(start, ops):
    """Gives every probe the size that the terminal last read, which is what it looks for."""
    env, tty = list(start["env"]), list(start["tty"])
    seen = []
    out = []
    for op in ops:
        op = dict(op)
        if op["op"] == "env":
            env = [op["c"], op["n"]]
        elif op["op"] == "tty":
            tty = [op["c"], op["n"]]
        elif op["op"] == "create":
            seen.append(actual(env, tty))
        elif op["op"] == "read":
            seen[op["t"] - 1] = actual(env, tty)
        elif op["op"] == "probe":
            op["size"] = seen[op["t"] - 1]
        out.append(op)
    return {"env": list(start["env"]), "tty": list(start["tty"]), "ops": out}


def programs(count, key):
    r = random.Random(f"resize-{key}")

    def size(zero=True):
        big = r.random() < 0.2
        dim = lambda: 0 if zero and r.random() < 0.25 else r.randint(1, 60 if big else 5)
        return [dim(), dim()]

    out = []
    for _ in range(count):
        start = {"env": size(), "tty": size(False)}
        ops = [{"op": "create"}]
        n = 1
        for _ in range(r.randint(4, 30)):
            x = r.random()
            t = r.randint(1, n)
            if x < 0.05 and n < 3:
                ops.append({"op": "create"})
                n += 1
            elif x < 0.25:
                c, h = size()
                ops.append({"op": "env", "c": c, "n": h})
            elif x < 0.4:
                c, h = size(False)
                ops.append({"op": "tty", "c": c, "n": h})
            elif x < 0.55:
                ops.append({"op": "listen", "t": t, "kind": r.choice(KINDS)})
            elif x < 0.9:
                ops.append({"op": "read", "t": t, "via": r.choice(["size", "width", "height"])})
            elif x < 0.95:
                ops.append({"op": "draw", "t": t})
            else:
                ops.append({"op": "probe", "t": t})
        out.append(sized(start, ops))
    return out


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    model_check(rep, workdir, "MCResize", "MCResize.cfg", env={"EMIT": emit, "DEPTH": "5" if quick else "6"}, workers=1, timeout=3000)
    ws = walks(emit)
    chosen = sample(ws, 12000 if quick else 200000, f"{rep.prop}-{seed()}")
    rep.extra["model_walks"], rep.extra["model_walks_replayed"] = len(ws), len(chosen)
    progs = [sized(w[0], w[1:]) for w in chosen] + programs(2500 if quick else 50000, seed())
    for i, p in enumerate(progs):
        p["says"] = i % 2 == 1
    validate(rep, workdir, "TraceResize", progs, "drv_resize.py", timeout=600, tlc_timeout=6000)
    rep.assumptions += ["the size does not change while listeners run"]
