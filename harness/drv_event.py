"""Executes event programs on the real Event class and records traces."""
from drvlib import main
from slate.event import Event


class Raised(Exception):
    pass


class Data:
    """Emitted by identity: the listener must get this very object."""


# Data of all sorts; op["data"] picks one
DATA = [None, False, True, 0, "", (), (80, 24), "text", Data(), [], {}, 0.0, Exception("data"), lambda: None, [Data()], b""]


def which(n):
    return DATA[n % len(DATA)]


def listener(lis, evs, calls, sent, odd):
    name, outcome, target = lis

    def hear(data):
        calls.append([name, sent[-1] if sent and data is which(sent[-1]) else -1])
        if outcome == "raise":
            raise Raised(name)
        if outcome == "nest":
            if len(sent) != 1:
                return None
            sent.append(sent[-1] + 100)
            try:
                return evs[target - 1](which(sent[-1]))
            finally:
                sent.pop()
        return {"true": (True, 1), "false": (False, 0), "none": (None, None)}[outcome][odd]

    return hear


class Callable(list):
    """A listener that is an object, not a function, and is false like any empty list."""

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__

    def __init__(self, f):
        self.f = f

    def __call__(self, data):
        return self.f(data)


def run(prog):
    evs = [Event(f"event {i}") for i in range(prog["n"])]
    calls = []
    sent = []
    made = {}
    trace = [{"n": prog["n"]}]
    for op in prog["ops"]:
        k = op["op"]
        ev = {**op, "exc": "", "ret": False, "same": True}
        ev.pop("what", None)
        del calls[:]
        i = op["e"] - 1
        try:
            if k == "add":
                key = tuple(op["lis"])
                if key not in made:
                    made[key] = listener(key, evs, calls, sent, len(made) // 2 % 2)
                    if len(made) % 2:
                        made[key] = Callable(made[key])
                if op["via"] == "iadd":
                    before = evs[i]
                    evs[i] += made[key]
                    ev["same"] = evs[i] is before
                else:
                    ev["same"] = evs[i].append(made[key]) is made[key]
            elif k == "refuse":
                evs[i] += op.get("what", "this won't work")
            elif k == "clear":
                evs[i].clear()
            elif k == "emit":
                sent[:] = [op["data"]]
                ev["ret"] = bool(evs[i](which(op["data"])))
        except Raised as e:
            ev["exc"] = str(e)
        except Exception as e:  # judged by the specification
            ev["exc"] = type(e).__name__
        ev["calls"] = [list(c) for c in calls]
        ev["bools"] = [bool(e) for e in evs]
        trace.append(ev)
    return trace


main(run)
