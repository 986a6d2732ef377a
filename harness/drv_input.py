"""Executes programs of typing, feeding and reading on the real getch and records traces.

Typing means writing to the master of a pseudo-terminal whose slave is read; a second
thread types or sends signals while the read waits.
"""
import array
import fcntl
import json
import os
import pty
import select
import signal
import termios
import threading
import time
import tty

from drvlib import main
from keyrec import keyrec
from slate import core
from slate.core import feed, getch, getch_timeout, parse_mouse_event

MASTER, SLAVE = pty.openpty()
FRESH = termios.tcgetattr(SLAVE)
STREAMS = {enc: open(os.dup(SLAVE), "r", encoding=enc, closefd=False) for enc in ("utf-8", "latin-1")}
NOTTY = open(os.devnull)
MAIN = threading.main_thread().ident
DEADLINE = [0.0]


class Other(Exception):
    pass


def other(*_):
    raise Other


TCSETATTR = termios.tcsetattr


def patch(f):
    termios.tcsetattr = f
    tty.tcsetattr = f


OSREAD = os.read
ASKED = [False]


def asked(fd, n):
    if fd != MASTER:
        ASKED[0] = True
    return OSREAD(fd, n)


class Late:
    """Types something right before the settings are put back, when all else has been read."""

    def __init__(self, data, before):
        self.data, self.before = data, before

    def __call__(self, *args):
        if self.data and ASKED[0] and repr(args[2]) == self.before:
            self.type()
        TCSETATTR(*args)

    def type(self):
        data, self.data = self.data, b""
        os.write(MASTER, data)
        end = time.monotonic() + 0.4
        while not waiting() or pending() < len(data):
            if time.monotonic() > end:
                break
            time.sleep(0.0002)


def early(*args):
    """The interrupt comes at the very moment the settings have been changed."""
    TCSETATTR(*args)
    patch(TCSETATTR)
    signal.raise_signal(signal.SIGINT)


def watchdog():
    while True:
        time.sleep(0.5)
        if DEADLINE[0] and time.monotonic() > DEADLINE[0]:
            os._exit(3)


LFLAGS = {"icanon": termios.ICANON, "echo": termios.ECHO, "isig": termios.ISIG, "iexten": termios.IEXTEN,
          "echoe": termios.ECHOE, "noflsh": termios.NOFLSH}
IFLAGS = {"icrnl": termios.ICRNL, "ixon": termios.IXON, "inlcr": termios.INLCR, "istrip": 0, "ixany": termios.IXANY}
OFLAGS = {"opost": termios.OPOST, "onlcr": termios.ONLCR}


def attributes(cfg):
    a = json.loads(json.dumps(FRESH[:6])) + [list(FRESH[6])]
    for name, on in cfg.items():
        for index, flags in ((3, LFLAGS), (0, IFLAGS), (1, OFLAGS)):
            if name in flags:
                a[index] = a[index] | flags[name] if on else a[index] & ~flags[name]
        if name == "min":
            a[6][termios.VMIN] = on
        if name == "time":
            a[6][termios.VTIME] = on
        if name == "intr":
            a[6][termios.VINTR] = bytes([on])
    return a


def drain():
    while select.select([MASTER], [], [], 0)[0]:
        os.read(MASTER, 4096)


def pending():
    buf = array.array("i", [0])
    fcntl.ioctl(SLAVE, termios.FIONREAD, buf)
    return buf[0]


def settle(data, count):
    """Waits until the typed bytes have arrived in the tty."""
    flags = termios.tcgetattr(SLAVE)
    end = time.monotonic() + 0.4
    if not flags[3] & termios.ICANON:
        while pending() < count and time.monotonic() < end:
            time.sleep(0.0002)
    elif flags[3] & termios.ECHO:
        want = sum(2 if b < 32 and b != 9 else 1 for b in data)
        got = 0
        while got < want and time.monotonic() < end:
            if select.select([MASTER], [], [], 0.01)[0]:
                got += len(os.read(MASTER, 4096))
    else:
        time.sleep(0.05)


def waiting():
    flags = termios.tcgetattr(SLAVE)[3]
    return not flags & (termios.ICANON | termios.ECHO)


def helper(op, enc, already):
    if already:
        time.sleep(0.008)
    else:
        end = time.monotonic() + 3
        while not waiting() and time.monotonic() < end:
            time.sleep(0.0002)
        time.sleep(0.003)
    if op.get("feeding"):
        feed(text(op["feeding"]))
    data = text(op["during"]).encode(enc)
    at = 0
    for cut in [*op.get("cuts", []), len(data)]:
        if cut > at:
            if at:
                time.sleep(0.006)
            os.write(MASTER, data[at:cut])
            at = cut
    if op["end"]:
        partial = text(op.get("partial", [])).encode(enc)[: op.get("bytes", 0)]
        if partial:
            os.write(MASTER, partial)
            time.sleep(0.006)
        if op["end"] == "int":
            signal.pthread_kill(MAIN, signal.SIGINT)
        elif op["end"] == "usr":
            signal.pthread_kill(MAIN, signal.SIGUSR1)


def text(codes):
    return "".join(map(chr, codes))


DEFAULTS = [None, "", "default", "ctrl-c"]


def read(op, ev, enc, quiet):
    stream = STREAMS[enc]
    ev["before"] = repr(termios.tcgetattr(SLAVE))
    thread = None
    if op["during"] or op.get("feeding") or op["end"] not in ("", "early"):
        thread = threading.Thread(target=helper, args=(op, enc, waiting()))
    default = DEFAULTS[op.get("default", 2)]
    kw = {"raw": op["raw"]} if op["raw"] or op.get("default", 2) == 1 else {}
    late = Late(text(ev["late"]).encode(enc), ev["before"])
    if op["end"] == "early":
        patch(early)
    elif late.data:
        ASKED[0] = False
        os.read = asked
        patch(late)
    try:
        try:
            if thread:
                thread.start()
            if op["timeout"]:
                got = getch_timeout(op["timeout"] / 1000, default=default, stream=stream, **kw)
            else:
                got = getch(stream=stream, **kw)
            ev["r"] = {"kind": "default"} if got is default else keyrec(got)
        finally:
            patch(TCSETATTR)
            os.read = OSREAD
            if thread:
                thread.join()
    except Other:
        ev["exc"] = "Other"
    except BaseException as e:  # judged by the specification
        ev["exc"] = type(e).__name__
    ev["timer"] = 0 if signal.getitimer(signal.ITIMER_REAL) == (0.0, 0.0) else 1
    ev["after"] = repr(termios.tcgetattr(SLAVE))
    if late.data:
        os.write(MASTER, late.data)
        settle(late.data, len(late.data))


def run(prog):
    DEADLINE[0] = time.monotonic() + 15
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGUSR1, other)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_REAL, 0)
    enc = prog.get("enc", "utf-8")
    termios.tcsetattr(SLAVE, termios.TCSAFLUSH, attributes(prog.get("cfg", {})))
    stream = getattr(core, "feeder_stream", None)
    if hasattr(stream, "truncate"):
        stream.seek(0)
        stream.truncate(0)
    drain()
    trace = [{"enc": enc}]
    typed = 0
    for op in prog["ops"]:
        ev = {k: v for k, v in op.items() if k not in ("cuts", "partial", "bytes", "default")}
        ev["exc"] = ""
        k = op["op"]
        if k == "type":
            drain()
            data = text(op["t"]).encode(enc)
            typed += len(data)
            os.write(MASTER, data)
            settle(data, typed)
        elif k == "feed":
            feed(text(op["t"]))
        elif k == "read":
            ev["r"] = {"kind": "none"}
            ev["late"], ev["feeding"] = op.get("late", []), op.get("feeding", [])
            read(op, ev, enc, typed == 0)
            typed = (0 if not op.get("fed") else typed) + len(text(ev["late"]).encode(enc))
            drain()
        elif k == "junk":
            ev["r"] = {"kind": "none"}
            data = text(op["before"]).encode(enc) + bytes(op["junk"]) + text(op["after"]).encode(enc)
            os.write(MASTER, data)
            settle(data, len(data))
            try:
                ev["r"] = keyrec(getch(stream=STREAMS[enc], raw=op["raw"]))
            except Exception as e:
                ev["exc"] = type(e).__name__
            drain()
        elif k == "mouse":
            try:
                ev["got"] = parse_mouse_event(text(op["t"])) or ""
            except Exception as e:
                ev["exc"] = type(e).__name__
        elif k == "object":
            ev["r"] = {"kind": "none"}
            try:
                ev["r"] = keyrec(core.Key(tuple(map(text, op["names"]))))
            except Exception as e:
                ev["exc"] = type(e).__name__
        elif k == "notty":
            try:
                ev["r"] = keyrec(getch(stream=NOTTY, raw=op["raw"]))
            except Exception as e:
                ev["exc"] = type(e).__name__
        trace.append(ev)
        if ev["exc"] not in ("", "Other"):
            break
    DEADLINE[0] = 0
    return trace


threading.Thread(target=watchdog, daemon=True).start()
main(run)
