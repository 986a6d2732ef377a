"""C13-C15: spans."""
import os
import random

import gen_spans
from common import model_check, seed, tier, validate
from walks import sample, walks

ENV = {"SLATE_COLORSYS": "true_color"}


def chunked(ops, n):
    return [ops[i:i + n] for i in range(0, len(ops), n)]


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    r = random.Random(f"{rep.prop}-{seed()}")
    if rep.prop == "C15":
        model_check(rep, workdir, "MCDerive", "MCDerive.cfg", env={"EMIT": emit, "DEPTH": "3" if quick else "3"}, workers=1)
        ws = walks(emit)
        chosen = sample(ws, 6000 if quick else 10**6, f"{rep.prop}-{seed()}")
        progs = []
        for w in chosen:
            ops = []
            for o in w:
                o = dict(o)
                if "span" in o:
                    o["span"] = dict(o["span"], st=sorted(o["span"]["st"]))
                ops.append(o)
            progs.append({"kind": "derive", "ops": ops})
        progs += gen_spans.derive_programs(1500 if quick else 30000, seed())
    else:
        model_check(rep, workdir, "MCSpans", "MCSpans.cfg", env={"EMIT": emit, "DEPTH": "4" if quick else "5"}, workers=1,
                    timeout=3000)
        ws = walks(emit)
        chosen = sample(ws, 20000 if quick else 300000, f"{rep.prop}-{seed()}")
        if rep.prop == "C13":
            ops = [{"op": "parse", "pieces": [p if p[0] == "t" else [*p, gen_spans.body(r, p[1])] for p in w + [["t", [122]]]]}
                   for w in chosen]
            ops = [o for o in ops if not any(a[0] == b[0] == "t" for a, b in zip(o["pieces"], o["pieces"][1:]))] + \
                  [{"op": "parse", "pieces": o["pieces"][:-1]} for o in ops if o["pieces"][-2][0] == "t"]
            progs = [{"kind": "parse", "ops": c} for c in chunked(ops, 40)]
            progs += gen_spans.parse_programs(700 if quick else 20000, seed())
        else:
            # all combinations of attributes, each with some text and colours
            ops = []
            for mask in range(1024):
                s = gen_spans.span(r)
                s["st"] = [n for i, n in enumerate(gen_spans.SETTERS) if mask >> i & 1]
                for n in (0, 1, 3):
                    for rz in (True, False):
                        ops.append({"op": "print", "span": dict(s, t=gen_spans.text(r, n, n), rz=rz)})
            progs = [{"kind": "print", "ops": c} for c in chunked(ops, 40)]
            progs += gen_spans.print_programs(500 if quick else 20000, seed())
    rep.extra["model_walks"] = len(ws)
    rep.extra["model_walks_replayed"] = len(chosen) if rep.prop != "C14" else 0
    r.shuffle(progs)
    validate(rep, workdir, "TraceSpans", progs, "drv_spans.py", env=ENV, timeout=600, tlc_timeout=6000)
    rep.assumptions += ["a terminal interprets SGR as spec/Ansi.tla does; true colour"]
