"""C01-C06: the screen."""
import os
import random

import gen_screen
from common import known, model_check, seed, tier, validate
from walks import sample, walks

ENV = {"SLATE_COLORSYS": "true_color"}
FOCUS = {"C01": "text", "C02": "text", "C03": "text", "C04": "text", "C05": "layers", "C06": "text", "C21": "svg"}


def small(walk, term, svg=None, turn=0):
    ops = [dict(o) for o in walk]
    for n, o in enumerate(ops):
        if o["op"] == "write":
            if o["via"] == "list":
                o["via"] = ("list", "bulk", "iter")[(turn + n) % 3]
            for it in o["items"]:
                it["spans"] = [dict(s, st=sorted(s["st"])) for s in it["spans"]]
    if svg is not None:
        ops.append(svg)
    elif ops[-1]["op"] != "draw":
        ops.append({"op": "draw", "redraw": False})
    return {"target": "terminal" if term else "screen", "w": 2, "h": 2, "fill": 32, "cur": [0, 0],
            "origin": [2, 1], "margin": [2, 2], "ops": ops}


def run(rep, workdir):
    prop, quick = rep.prop, tier() == "quick"
    focus = FOCUS[prop]
    emit = os.path.join(workdir, "emit")
    depth = 3 if quick else 4
    if focus == "layers":
        depth -= 1
    module, cfg = ("MCSvg", "MCSvg.cfg") if focus == "svg" else ("MCScreen", f"MCScreen_{focus}.cfg")
    model_check(rep, workdir, module, cfg, env={"EMIT": emit, "DEPTH": str(depth)}, workers=1,
                timeout=3000)
    all_walks = walks(emit)
    rep.extra["model_walks"] = len(all_walks)
    chosen = sample(all_walks, 4000 if quick else 150000, f"{prop}-{seed()}")
    rep.extra["model_walks_replayed"] = len(chosen)
    r = random.Random(f"{prop}-{seed()}")
    progs = []
    for i, w in enumerate(chosen):
        term = i % 3 == 2 and (focus == "svg" or not any(o["op"] == "resize" for o in w))
        svg = gen_screen.export(r, "svg", gen_screen.PROFILES["C21"], 2, 2, term) if focus == "svg" else None
        progs.append(small(w, term, svg, i // 3))
    validate(rep, workdir, "TraceScreen", progs, "drv_screen.py", env=ENV, timeout=600, tlc_timeout=3000)
    n = 1500 if quick else 25000
    validate(rep, workdir, "TraceScreen", gen_screen.programs(prop, n, seed(), nops=14 if quick else 30, big=prop != "C21" or not quick),
             "drv_screen.py", env=ENV, timeout=600, tlc_timeout=6000)
    if prop == "C21":
        rep.assumptions += ["an SVG renderer paints in document order, with a monospaced font that advances by 0.60167 of its size",
                            "whole font sizes; control characters are not exported"]
        return
    known(rep, workdir, "TraceScreen", "drv_screen.py", env=ENV, prop="SCROLL")
    rep.assumptions += [
        "the display behaves like spec/Ansi.tla (ECMA-48 / xterm), one column per character",
        "writes start in or above a row of the screen (scrolling is a known finding)",
        "true colour terminal; alphas are chosen so that the exact rational blend never is an integer tie",
    ]
