"""Runs code under the real timeout and records traces."""
import os
import select
import signal
import threading
import time

from drvlib import main
from slate.core import timeout

UNIT = 30       # milliseconds
READ, WRITE = os.pipe()


class Custom(BaseException):
    pass


ERRORS = {"ValueError": ValueError, "SystemExit": SystemExit, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError,
          "StopIteration": StopIteration, "TimeoutError": TimeoutError, "Custom": Custom, "GeneratorExit": GeneratorExit}


GUARDS = {"": (), "os": OSError, "value": (ValueError, TypeError), "lookup": (LookupError, AttributeError),
          "runtime": (RuntimeError, ArithmeticError, AssertionError), "end": (EOFError, StopIteration, KeyboardInterrupt)}


def work(units, how):
    end = time.monotonic() + units * UNIT / 1000
    while (left := end - time.monotonic()) > 0:
        if how == "sleep":
            time.sleep(left)
        elif how == "wait":
            select.select([READ], [], [], left)
        elif how == "lock":
            threading.Event().wait(left)


def body(op, ev, started):
    planned = 0
    for n in op["steps"]:
        planned += n * UNIT
        try:
            try:
                work(n, op["via"])
            except GUARDS[op["guard"]]:     # code may handle errors of its own
                pass
            ev["done"] += 1
        finally:    # a machine that is too slow to keep to the plan
            ev["slip"] = max(ev["slip"], int((time.monotonic() - started) * 1000) - planned)
    if op["how"]:
        raise ERRORS[op["how"]]("from the body")


def run(prog):
    signal.setitimer(signal.ITIMER_REAL, 0)
    trace = [{}]
    for op in prog["ops"]:
        ev = {"ms": op["d"] * UNIT, **op, "unit": UNIT, "done": 0, "exc": "", "late": "", "went": False, "slip": 0}
        started = time.monotonic()
        try:
            with timeout(ev["ms"] / 1000):
                body(op, ev, started)
            ev["went"] = True
        except BaseException as e:  # judged by the specification
            ev["exc"] = type(e).__name__
        ev["took"] = int((time.monotonic() - started) * 1000)
        try:
            ev["timer"] = int(signal.getitimer(signal.ITIMER_REAL) != (0.0, 0.0))
            if op["linger"]:
                work(op["d"] + 1, "sleep")
        except BaseException as e:
            ev["late"] = type(e).__name__
            ev.setdefault("timer", 1)
        trace.append(ev)
        if ev["late"]:
            break
    signal.setitimer(signal.ITIMER_REAL, 0)
    return trace


main(run)
