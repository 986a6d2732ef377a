"""Shared by the drivers: the code under test comes from SLATE_REPO."""
import json
import os
import resource
import signal
import sys

import slate

assert os.path.abspath(slate.__file__).startswith(os.path.join(os.environ["SLATE_REPO"], "")), slate.__file__

from slate.color import Color
from slate.span import Span

NAMES = {1: "bold", 2: "dim", 3: "italic", 4: "underline", 5: "blink", 6: "fast_blink", 7: "invert",
         8: "conceal", 9: "strike", 99: "opaque"}


class Sink:
    """A stream; what was not flushed has not arrived anywhere."""

    def __init__(self, says=False):
        self.says = says
        self.kept = []
        self.out = []

    def write(self, text):
        self.kept.append(text)
        return len(text)

    def flush(self):
        self.out += self.kept
        self.kept = []

    def isatty(self):
        return self.says

    def taken(self):
        text = "".join(self.out)
        self.out = []
        return text


def mkcolor(c, back):
    if not c:
        return None
    if len(c) > 4:      # given as an index of the 256 colours, in the shorter form where there is one
        n = c[4]
        short = (30 + n if n < 8 else 82 + n) + 10 * back
        return Color.from_ansi(str(short) if n < 16 else f"{48 if back else 38};5;{n}", alpha=c[3] / 1000)
    return Color((c[0], c[1], c[2]), is_background=back, alpha=c[3] / 1000)


def mkspan(s):
    kw = {NAMES[n]: True for n in s["st"]}
    if s.get("link"):
        kw["hyperlink"] = s["link"]
    return Span(
        "".join(map(chr, s["t"])), foreground=mkcolor(s["fg"], False), background=mkcolor(s["bg"], True),
        reset_after=s["rz"], **kw,
    )


def milli(x):
    """A fraction in thousandths, -1 if it is not a whole number of them."""
    n = round(x * 1000)
    return n if abs(x * 1000 - n) < 1e-6 else -1


def colrec(c):
    if c is None:
        return []
    return [*map(int, c.rgb), milli(c.alpha), int(bool(c.is_background))]


def spanrec(s):
    return {
        "t": [ord(c) for c in s.text], "fg": colrec(s.foreground), "bg": colrec(s.background),
        "st": sorted(n for n, name in NAMES.items() if getattr(s, name)), "link": s.hyperlink,
        "rz": bool(s.reset_after),
    }


def main(run):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))     # code that eats memory shall fail, not the machine
    signal.signal(signal.SIGINT, signal.default_int_handler)       # checks may be started with it ignored
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    progs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], "w") as f:
        for p in progs:
            f.write(json.dumps({"program": p, "trace": run(p)}) + "\n")
            f.flush()
