"""Runs the command line tools on a pseudo-terminal that this driver plays, and records traces."""
import fcntl
import os
import pty
import select
import signal
import struct
import subprocess
import sys
import termios
import time

import tok
from drv_query_replies import QUESTION, reply
from drvlib import main

BASE = {k: v for k, v in os.environ.items() if k not in ("SLATE_COLORSYS", "NO_COLOR", "COLORTERM", "TERM", "COLUMNS", "LINES")}
LIMIT = 25


def waiting(fd):
    return not termios.tcgetattr(fd)[3] & termios.ICANON


def execute(op, master, slave, n):
    w = op["w"]
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", w["h"], w["w"], 0, 0))
    env = {**BASE, **{k: v[0] for k, v in w["env"].items() if v}}
    args = {"usage": op.get("args", []), "getch": ["getch"] + ["--raw"] * op["raw"]}.get(op["cmd"], [op["cmd"]])
    r, wr = (None, None) if w["out"] else os.pipe()
    p = subprocess.Popen(
        [sys.executable, "-m", "slate", *args], stdin=slave if w["in"] else subprocess.DEVNULL,
        stdout=slave if w["out"] else wr, stderr=subprocess.DEVNULL, env=env, cwd=os.getcwd(), start_new_session=True)
    if wr is not None:
        os.close(wr)
    source = master if w["out"] else r
    data, seen, typed, lost = b"", 0, not (op["cmd"] == "getch" and w["in"]), False
    end = time.monotonic() + LIMIT
    done_at = None
    while True:
        if select.select([source], [], [], 0.003 if not typed else 0.02)[0]:
            chunk = os.read(source, 65536)
            if not chunk and not w["out"]:
                break
            data += chunk
            text = data.decode("utf-8", "replace")
            for m in QUESTION.finditer(text, seen):
                seen = m.end()
                a = reply(m[1] or m[2] or m[3], w["re"][m[1] or m[2] or m[3]], n)
                if a and w["in"]:
                    until = time.monotonic() + 2
                    while termios.tcgetattr(slave)[3] & termios.ECHO and time.monotonic() < until and p.poll() is None:
                        time.sleep(0.0005)      # so that the reply is not echoed
                    os.write(master, a.encode())
        elif p.poll() is not None:
            if done_at is not None:
                break
            done_at = time.monotonic()
        if not typed and b"Waiting for input..." in data and waiting(slave):
            time.sleep(0.005)
            if op["t"] == [3]:
                p.send_signal(signal.SIGINT)
            else:
                os.write(master, "".join(map(chr, op["t"])).encode())
            typed = True
        if time.monotonic() > end:
            lost = True
            os.killpg(p.pid, signal.SIGKILL)
            break
    code = p.wait()
    if r is not None:
        os.close(r)
    return data.decode("utf-8", "replace"), -99 if lost else code


LOST = []


def run(prog):
    if len(LOST) >= 3:      # enough is known
        return [{}]
    master, slave = pty.openpty()
    fresh = termios.tcgetattr(slave)
    trace = [{}]
    for n, op in enumerate(prog["ops"]):
        termios.tcsetattr(slave, termios.TCSANOW, fresh)
        text, code = execute(op, master, slave, prog.get("n", 0) + n)
        LOST.extend([1] * (code == -99))
        toks = [t for t in tok.tokens(text) if t[0] not in ("X", "R")]
        trace.append({**op, "code": code, "toks": toks, "same": termios.tcgetattr(slave) == fresh})
        termios.tcflush(slave, termios.TCIOFLUSH)
        while select.select([master], [], [], 0)[0]:
            os.read(master, 4096)
    os.close(master)
    os.close(slave)
    return trace


main(run)
