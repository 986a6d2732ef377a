"""Reads keys on a stand-in for Windows: the modules see os.name == "nt" and an msvcrt that answers from a list."""
import codecs, colorsys, contextlib, dataclasses, enum, functools, html, io, json, math, os, pathlib, re, resource, select, shutil  # noqa: F401
import signal, sys, threading, types, typing  # noqa: E401,F401


class Console:
    """Input that has come in portions; the next portion comes when the one before was read."""

    def __init__(self):
        self.queue = []

    def kbhit(self):
        return bool(self.queue)

    def getch(self):
        if not self.queue:
            raise RuntimeError("this would wait for ever")
        return bytes([self.queue.pop(0)])


CONSOLE = Console()
fake = types.ModuleType("msvcrt")
fake.kbhit = lambda: CONSOLE.kbhit()
fake.getch = lambda: CONSOLE.getch()
fake.getwch = lambda: CONSOLE.getch().decode("latin-1")
sys.modules["msvcrt"] = fake
os.name = "nt"

from drvlib import Sink, main  # noqa: E402
from keyrec import keyrec  # noqa: E402
from slate import core  # noqa: E402


def run(prog):
    CONSOLE.queue = []
    core.feeder_stream.seek(0)
    core.feeder_stream.truncate(0)
    trace = [{"enc": "nt"}]
    for op in prog["ops"]:
        ev = {**op, "exc": ""}
        if op["op"] == "console":
            CONSOLE.queue += op["t"]
        elif op["op"] == "feed":
            core.feed("".join(map(chr, op["t"])))
        else:
            ev["r"] = {"kind": "none"}
            try:
                ev["r"] = keyrec(core.getch_timeout(0.05, stream=Sink(True), raw=op["raw"]) if op.get("timed") else
                                 core.getch(stream=Sink(True), raw=op["raw"]))
            except Exception as e:
                ev["exc"] = type(e).__name__
        trace.append(ev)
        if ev["exc"]:
            break
    return trace


main(run)
