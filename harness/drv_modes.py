"""Executes programs of contexts, titles and controls on real Terminals and records traces."""
import os
import pty
import sys
import termios

from drvlib import Sink, main
from slate.span import Span
from slate.terminal import Terminal
from tok import tokens

NULL = os.open(os.devnull, os.O_RDWR)
MASTER, SLAVE = pty.openpty()
FRESH = termios.tcgetattr(SLAVE)


def settings(k):
    """Ttys that are set up in different ways, but for ECHO."""
    a = [*FRESH[:6], [*FRESH[6]]]
    if k % 2:
        a[3] &= ~(termios.IEXTEN | termios.ECHOCTL)
        a[0] &= ~termios.ICRNL
    if k // 2 % 2:
        a[3] &= ~termios.ICANON
        a[6][termios.VMIN], a[6][termios.VTIME] = 0, 3
    if k // 4 % 2:
        a[3] = a[3] & ~termios.ISIG | termios.NOFLSH
        a[1] &= ~termios.OPOST
        a[6][termios.VINTR] = b"\x07"
    return a


def rest():
    a = termios.tcgetattr(SLAVE)
    a[3] &= ~termios.ECHO
    return repr(a)


class Fault(Exception):
    pass


class Stream(Sink):
    """One that fails when it is told to, before it took something or after it passed it on."""

    left, at = 0, "write"

    def fault(self, at):
        if self.left and self.at == at:
            self.left -= 1
            if not self.left:
                raise Fault

    def write(self, text):
        self.fault("write")
        return super().write(text)

    def flush(self):
        super().flush()
        self.fault("flush")


class Custom(BaseException):
    pass


ERRORS = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
          "StopIteration": StopIteration, "RuntimeError": RuntimeError, "GeneratorExit": GeneratorExit,
          "Custom": Custom, "OSError": OSError}


def leave(cm, how):
    """Leaves the context as the with statement would; gives what the caller sees."""
    if not how:
        cm.__exit__(None, None, None)
        return ""
    try:
        raise ERRORS[how]("from the body")
    except BaseException as e:
        body = e
    try:
        swallowed = cm.__exit__(type(body), body, body.__traceback__)
    except BaseException as e:
        return how if e is body else "other " + type(e).__name__
    return "swallowed" if swallowed else how


class Beside:
    """Another terminal, whose modes must not matter to the one that is judged."""

    def __init__(self):
        self.term = Terminal(stream=Stream(False))
        self.open = []

    def step(self, n):
        k = n % 6
        if k in (0, 3):
            self.term.set_title("another" if k else None)
        elif k == 5 and self.open:
            self.open.pop().__exit__(None, None, None)
        else:
            self.open.append([self.term.alt_buffer, self.term.report_mouse, self.term.batch][n % 3]())
            self.open[-1].__enter__()


def run(prog):
    os.dup2(NULL, 0)
    termios.tcsetattr(SLAVE, termios.TCSANOW, settings(prog.get("settings", 0)))
    stream = Stream(prog.get("says", False))
    os.environ["COLUMNS"], os.environ["LINES"] = "4", "2"
    term = Terminal(stream=stream)
    other = Beside() if prog.get("beside") else None
    if prog.get("tty", True):
        os.dup2(SLAVE, 0)
    stream.taken()
    stack = []
    trace = [{"title": "orig", "rest": rest()}]
    n = 0
    for op in prog["ops"]:
        k = op["op"]
        ev = {**op, "exc": "", "reached": ""}
        if k == "leave" and not stack:
            break
        if other:
            other.step(prog["beside"] + len(trace))
        try:
            if k == "enter":
                stream.left, stream.at = op["fail"], op["at"]
                if op["kind"] == "alt":
                    cm = term.alt_buffer() if op["hide"] and len(stack) % 2 else term.alt_buffer(hide_cursor=op["hide"])
                else:
                    cm = {"mouse": term.report_mouse, "echo": term.no_echo, "batch": term.batch}[op["kind"]]()
                cm.__enter__()
                stack.append(cm)
            elif k == "leave":
                ev["reached"] = leave(stack.pop(), op["how"])
            elif k == "title":
                term.set_title(op["v"][0] if op["v"] else None)
            elif k == "cursor":
                term.show_cursor(op["on"])
            elif k == "mouse":
                term.set_report_mouse(op["on"])
            elif k == "bell":
                term.bell()
            elif k == "draw":
                n += 1
                term.write([Span("%03d" % n, bold=n % 2 == 0)], cursor=(0, 0))
                term.draw()
        except Fault:
            ev["exc"] = "Fault"
        except Exception as e:  # judged by the specification
            ev["exc"] = type(e).__name__
            if k == "leave":
                ev["reached"] = "other " + type(e).__name__
        stream.left = 0
        ev["toks"] = tokens(stream.taken())
        ev["echo"] = bool(termios.tcgetattr(SLAVE)[3] & termios.ECHO) if prog.get("tty", True) else True
        ev["rest"] = rest()
        trace.append(ev)
    # what is still open is left, so that nothing runs when it is collected
    while stack:
        try:
            stack.pop().__exit__(None, None, None)
        except Exception:
            pass
    os.dup2(NULL, 0)
    return trace


main(run)
