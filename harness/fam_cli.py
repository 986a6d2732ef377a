"""C23: the command line tools."""
import os
import random

from common import model_check, seed, tier, validate
from fam_query import BAD, NONE, rgb
from walks import sample, walks

SPACES = ["true_color", "TRUE_COLOR", "eight_bit", "EIGHT_BIT", "no_color", "NO_COLOR", "standard", "Standard"]
TERMS = ["xterm", "xterm-256color", "256color", "dumb", "xterm-24bit", "truecolor", "screen", "x" * 60, "a", ""]
KEYS = ["\x1b[A", "\x1bOP", "\x1b", "\x7f", "\x01", "\x03", "\t", "\n", "a", "'", '"', "\\", "hello", "it's", "'\"", "\x1b[<0;3;4M", "\x1b[<67;1;200m",
        "\x1b[<35;9;9M", "\x1b[Z", "\x1b[3~", "\u00e9", "\u4e16\u754c", "\x1b[1;2A", "x y", " ", "\x1b\x7f", "\x1f", "~|~", "a" * 100]
UNKNOWN = ["\x1b[200~", "\x1b[?1;2c", "\x1b\x1b", "a\x01b"]       # shown literally unless raw


def world(r):
    env = {"SLATE_COLORSYS": [r.choice(SPACES)] if r.random() < 0.4 else [],
           "NO_COLOR": [r.choice(["", "1", "yes"])] if r.random() < 0.25 else [],
           "COLORTERM": [r.choice(["truecolor", "24bit", "256color", "", "yes", "TRUECOLOR"])] if r.random() < 0.5 else [],
           "TERM": [r.choice(TERMS)] if r.random() < 0.9 else []}
    def colour():
        return rgb(r) if r.random() < 0.85 else BAD
    sync = r.choice([NONE, BAD] + [{"k": "mode", "v": [v]} for v in (0, 1, 2, 3, 4)])
    w = r.choice([1, 2, 9, 10, 40, 80, 99, 100, 132, 9999, r.randint(1, 300)])
    h = r.choice([1, 5, 24, 99, 100, 1000, r.randint(1, 90)])
    if w * h > 20000:       # a screen that large takes its time
        h = r.choice([1, 2])
    return {"env": env, "w": w, "h": h,
            "in": r.random() < 0.85, "out": r.random() < 0.85, "re": {"10": colour(), "11": colour(), "2026": sync}}


def run_op(r):
    x = r.random()
    o = {"w": world(r), "raw": False, "t": []}
    if x < 0.15:
        return {**o, "cmd": "size"}
    if x < 0.55:
        return {**o, "cmd": "debug"}
    if x < 0.6:
        return {**o, "cmd": "usage", "args": r.choice([[], ["getch", "--rwa"], ["siz"], ["debug", "x"], ["size", "--raw"], [""], ["-x"]])}
    raw = r.random() < 0.4
    return {**o, "cmd": "getch", "raw": raw, "t": [ord(c) for c in r.choice(KEYS + UNKNOWN * raw)]}


def run(rep, workdir):
    quick = tier() == "quick"
    emit = os.path.join(workdir, "emit")
    model_check(rep, workdir, "MCCli", "MCCli.cfg", env={"EMIT": emit, "DEPTH": "2" if quick else "3"}, workers=1, timeout=3000)
    ws = walks(emit)
    chosen = sample(ws, 350 if quick else 5000, f"{rep.prop}-{seed()}")
    rep.extra["model_runs"], rep.extra["model_runs_replayed"] = len(ws), len(chosen)
    ops = [{"w": w[0]["w"], **w[0]["run"]} for w in chosen]
    r = random.Random(f"cli-{seed()}")
    progs = [{"n": i, "ops": ops[i:i + 2]} for i in range(0, len(ops), 2)]
    progs += [{"n": i, "ops": [run_op(r) for _ in range(2)]} for i in range(160 if quick else 3000)]
    validate(rep, workdir, "TraceCli", progs, "drv_cli.py", timeout=3000, tlc_timeout=6000, confirm=3)
    rep.assumptions += ["variables hold names of colour spaces or the values listed in ColourSpace.tla; the terminal answers colour queries",
                        "a failure counts if one of three repetitions of the same program fails as well"]
