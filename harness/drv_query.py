"""Asks real Terminals about a terminal that is played by this driver, and records traces.

Standard input is the slave of a pseudo-terminal; the stream given to the Terminal answers
each question it sees by typing the reply.
"""
import os
import pty
import select
import signal
import sys
import termios
import threading
import time

from drv_query_replies import QUESTION, reply
from drvlib import Sink, main
from slate.core import get_default_color
from slate.terminal import Terminal

NULL = os.open(os.devnull, os.O_RDWR)
MASTER, SLAVE = pty.openpty()
FRESH = termios.tcgetattr(SLAVE)
DEADLINE = [0.0]


def watchdog():
    while True:
        time.sleep(0.5)
        if DEADLINE[0] and time.monotonic() > DEADLINE[0]:
            os._exit(3)


class Stream(Sink):
    """The terminal: it answers the questions that arrive."""

    def __init__(self, tty, closed):
        super().__init__(tty)
        self.closed_tty = closed
        self.replies = {}
        self.text = ""
        self.seen = 0

    def flush(self):
        super().flush()
        self.text += self.taken()
        for m in QUESTION.finditer(self.text, self.seen):
            self.seen = m.end()
            reply = self.replies.get(m[1] or m[2] or m[3])
            if reply:
                os.write(MASTER, reply.encode())

    def isatty(self):
        if not self.says and self.closed_tty:       # as files do that have been closed
            raise ValueError("I/O operation on closed file")
        return self.says

    def sent(self):
        n = {"10": 0, "11": 0, "14": 0, "2026": 0}
        for m in QUESTION.finditer(self.text):
            n[m[1] or m[2] or m[3]] += 1
        self.text, self.seen = "", 0
        return n


def ask(term, stream, q, ev):
    if q == "14":
        ev["got"] = [int(v) for v in term.resolution]
    elif q == "2026":
        v = term.supports_synchronized_update
        ev["got"] = [1 if v is True else 0 if v is False else -1]
    else:
        c = term.foreground_color if q == "10" else term.background_color
        ev["got"] = [int(v) for v in c.rgb]


def run(prog):
    DEADLINE[0] = time.monotonic() + 20
    signal.setitimer(signal.ITIMER_REAL, 0)
    termios.tcsetattr(SLAVE, termios.TCSAFLUSH, FRESH)
    while select.select([MASTER], [], [], 0)[0]:
        os.read(MASTER, 4096)
    trace = [{}]
    term = stream = None
    for n, op in enumerate(prog["ops"]):
        ev = {**op, "exc": "", "got": [], "sent": {}}
        try:
            if op["op"] == "create":
                os.dup2(SLAVE if op["in"] else NULL, 0)
                stream = Stream(op["out"], (prog.get("n", 0) + n) % 3 == 0)
                stream.replies = {q: reply(q, r, prog.get("n", 0)) for q, r in op["replies"].items()}
                given = {} if op["res"] == [1280, 720] else {"resolution_fallback": tuple(op["res"])}
                term = Terminal(stream=stream, **given)
            else:
                stream.replies = {op["q"]: reply(op["q"], op["reply"], prog.get("n", 0) + n)}
                ask(term, stream, op["q"], ev)
        except Exception as e:  # judged by the specification
            ev["exc"] = type(e).__name__
        ev["sent"] = stream.sent() if stream else {}
        ev["same"] = termios.tcgetattr(SLAVE) == FRESH
        trace.append(ev)
        while select.select([MASTER], [], [], 0)[0]:
            os.read(MASTER, 4096)
        termios.tcflush(SLAVE, termios.TCIFLUSH)
        if ev["exc"]:
            break
    os.dup2(NULL, 0)
    DEADLINE[0] = 0
    return trace


threading.Thread(target=watchdog, daemon=True).start()
main(run)
