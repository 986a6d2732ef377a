"""Executes colour-space programs on real Terminals and records traces."""
import os

from drvlib import Sink, main
from slate.core import ColorSpace, get_color_space
from slate.terminal import Terminal

NAMES = ("SLATE_COLORSYS", "NO_COLOR", "COLORTERM", "TERM")


def setvar(n, v):
    if v:
        os.environ[n] = v[0]
    else:
        os.environ.pop(n, None)


def listener(term, t, i, answer, calls):
    def hear(value):
        calls.append({"t": t, "i": i, "v": [] if value is None else [value.value], "sp": term.color_space.value})
        return answer

    return hear


def order(op, ev):
    a, b = ColorSpace(op["a"]), ColorSpace(op["b"])
    ev.update(gt=a > b, ge=a >= b, lt=a < b, le=a <= b, eq=a == b, ne=a != b,
              sgt=a > op["b"], sge=a >= op["b"], seq=a == op["b"])


def run(prog):
    env = prog.get("env") or {n: [] for n in NAMES}
    for n in NAMES:
        setvar(n, env[n])
    terms = [Terminal(stream=Sink(prog.get("says", False))) for _ in range(2)]
    ears = [0, 0]
    trace = [{"env": env, "n": 2}]
    calls = []
    for op in prog["ops"]:
        k = op["op"]
        ev = {**op, "exc": "", "get": "", "sp": ["", ""]}
        del calls[:]
        try:
            if k == "env":
                setvar(op["n"], op["v"])
            elif k == "force":
                terms[op["t"] - 1].color_space = ColorSpace(op["v"][0]) if op["v"] else None
            elif k == "listen":
                i = op["t"] - 1
                ears[i] += 1
                terms[i].on_color_space_set += listener(terms[i], op["t"], ears[i], [None, True, False][ears[i] % 3], calls)
            elif k == "order":
                order(op, ev)
            ev["calls"] = list(calls)
            ev["get"] = get_color_space().value
            ev["sp"] = [t.color_space.value for t in terms]
        except Exception as e:  # judged by the specification
            ev["exc"] = type(e).__name__
            ev["calls"] = list(calls)
        trace.append(ev)
        if ev["exc"]:
            break
    return trace


main(run)
