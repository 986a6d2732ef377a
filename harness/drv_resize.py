"""Executes size programs on real Terminals and records traces."""
import fcntl
import os
import pty
import struct
import sys
import termios

from drvlib import Sink, main
from slate.span import Span
from slate.terminal import Terminal

MASTER, SLAVE = pty.openpty()
os.dup2(SLAVE, sys.__stdout__.fileno())


def setenv(c, n):
    for name, v in (("COLUMNS", c), ("LINES", n)):
        if v:
            os.environ[name] = str(v)
        else:
            os.environ.pop(name, None)


def settty(c, n):
    fcntl.ioctl(SLAVE, termios.TIOCSWINSZ, struct.pack("HHHH", n, c, 0, 0))


def probe(term, size):
    """What can be seen of the screen's size by forced writes: cells, last column, beyond it."""
    w, h = size
    return [term.write([Span("x" * (w * h + 3))], cursor=(0, 0), force_overwrite=True),
            term.write([Span("x")], cursor=(w - 1, 0), force_overwrite=True),
            term.write([Span("x")], cursor=(w, 0), force_overwrite=True)]


class Heard(Exception):
    """What a listener raises."""


def listener(term, t, i, kind, calls):
    def hear(data):
        call = {"t": t, "i": i, "data": [int(v) for v in data], "read": [], "probe": []}
        calls.append(call)
        if kind == "read":
            call["read"] = [int(v) for v in term.size]
            if [term.width, term.height] != call["read"]:
                call["read"] = []
        elif kind == "draw":
            term.draw()
        elif kind == "probe":
            call["probe"] = probe(term, data)
        elif kind == "raise":
            raise Heard
        return [None, True, False][i % 3]

    return hear


def run(prog):
    setenv(*prog["env"])
    settty(*prog["tty"])
    terms, ears, screens, calls = [], [], [], []
    trace = [{"env": prog["env"], "tty": prog["tty"]}]
    for op in prog["ops"]:
        k = op["op"]
        ev = {**op, "exc": "", "got": []}
        del calls[:]
        i = op.get("t", 1) - 1
        try:
            if k == "create":
                terms.append(Terminal(stream=Sink(prog.get("says", False))))
                ears.append(0)
            elif k == "env":
                setenv(op["c"], op["n"])
            elif k == "tty":
                settty(op["c"], op["n"])
            elif k == "listen":
                ears[i] += 1
                terms[i].on_resize += listener(terms[i], op["t"], ears[i], op["kind"], calls)
            elif k == "draw":
                terms[i].draw()
            elif k == "read":
                v = getattr(terms[i], op["via"])
                ev["got"] = [int(x) for x in v] if op["via"] == "size" else [int(v)]
            elif k == "probe":
                ev["got"] = probe(terms[i], op["size"])
        except Exception as e:  # judged by the specification
            ev["exc"] = type(e).__name__
        ev["calls"] = list(calls)
        trace.append(ev)
        if ev["exc"] not in ("", "Heard"):
            break
    return trace


main(run)
