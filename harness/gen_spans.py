"""Random span programs."""
import random

TEXT = [ord(c) for c in "abcdefXYZ 0123456789;m[]H#<>&'\"-~.,:\\"] + [0xE9, 0x2588, 0x3B1, 0x4E2D, 0x1F600, 0x301, 9]
SETTERS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 99]
UNSETTERS = [22, 23, 24, 25, 26, 27, 28, 29, 39, 49]
BAD = [10, 11, 19, 20, 21, 50, 53, 54, 55, 58, 59, 65, 73, 74, 75, 76, 80, 89, 98, 108, 110, 120, 256, 300, 999]
ALPHAS = [0, 51, 129, 333, 500, 613, 787, 900, 999]


def rgb(r):
    return r.choice([[0, 0, 0], [255, 255, 255], [r.randrange(256) for _ in range(3)]])


def text(r, lo, hi, newline=0.0):
    return [10 if r.random() < newline else r.choice(TEXT) for _ in range(r.randint(lo, hi))]


def colour_params(r, allow_alpha):
    back = r.random() < 0.5
    x = r.random()
    if x < 0.4:
        ps = [r.choice([40, 100] if back else [30, 90]) + r.randrange(8)]
    elif x < 0.7:
        ps = [48 if back else 38, 5, r.choice([0, 7, 8, 15, 16, 196, 231, 232, 255, r.randrange(256)])]
    else:
        ps = [48 if back else 38, 2, *rgb(r)]
    if allow_alpha and r.random() < 0.15:
        ps.append(-1000 - r.choice(ALPHAS + [1000]))
    return ps


def params(r, bad=0.0):
    ps = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
        x = r.random()
        if x < bad:
            y = r.random()
            if y < 0.6:
                ps.append(r.choice(BAD))
            elif y < 0.75:
                ps += [r.choice([38, 48]), 5, r.choice([256, 300, 1000])]
            elif y < 0.9:
                c = rgb(r)
                c[r.randrange(3)] = r.choice([256, 300, 999])
                ps += [r.choice([38, 48]), 2, *c]
            else:
                ps.append(-1)
        elif x < 0.4:
            ps.append(r.choice(SETTERS))
        elif x < 0.58:
            ps.append(r.choice(UNSETTERS))
        elif x < 0.66:
            ps.append(0)
        else:
            ps += colour_params(r, True)
    return ps


def body(r, ps):
    """The parameters as they are sent; a reset may be an empty parameter."""
    out = []
    for n in ps:
        if n == 0 and len(ps) == 1 and r.random() < 0.5:
            out.append("")
        elif n == -1:
            out.append(r.choice(["x", "1a", "?25", "-3"]))
        elif n <= -1000:
            out.append(f"{(-1000 - n) / 1000}")
        else:
            out.append(str(n))
    return ";".join(out)


def line(r, bad=0.0):
    pieces = []
    for _ in range(r.randint(0, 7)):
        if r.random() < 0.5:
            t = text(r, 1, 4, 0.08)
            if pieces and pieces[-1][0] == "t":
                pieces[-1][1].extend(t)
            else:
                pieces.append(["t", t])
        else:
            ps = params(r, bad)
            pieces.append(["m", ps, body(r, ps)])
    return {"op": "parse", "pieces": pieces}


def colour(r, alpha=0.2):
    return rgb(r) + [r.choice(ALPHAS) if r.random() < alpha else 1000]


LINKS = ["https://example.com", "http://a.b/c?d=e&f=[x]#y", "file:///tmp/x y"]


def span(r, newline=0.05):
    p = r.choice([0.0, 0.1, 0.3, 0.9])
    return {
        "t": text(r, 0, r.choice([0, 1, 1, 2, 6]), newline),
        "fg": colour(r) if r.random() < 0.4 else [], "bg": colour(r) if r.random() < 0.4 else [],
        "st": [n for n in SETTERS if r.random() < p], "link": r.choice(LINKS) if r.random() < 0.25 else "",
        "rz": r.random() < 0.7,
    }


def parse_programs(count, seed):
    r = random.Random(f"parse-{seed}")
    return [{"kind": "parse", "ops": [line(r, 0.04 if r.random() < 0.35 else 0.0) for _ in range(12)]} for _ in range(count)]


def print_programs(count, seed):
    r = random.Random(f"print-{seed}")
    progs = [{"kind": "print", "ops": [{"op": "print", "span": span(r)} for _ in range(12)]} for _ in range(count)]
    for n in (256, 300, 1100, 4200):      # long texts
        progs.append({"kind": "print", "ops": [{"op": "print", "span": {**span(r), "t": text(r, n, n, 0.01)}}]})
    return progs


def opt(r, lo, hi):
    return [] if r.random() < 0.25 else [r.randint(lo, hi)]


def derive_op(r, n):
    i = r.randint(1, n)
    k = r.choice(["make", "slice", "slice", "index", "split", "attr", "attr", "text", "link", "reset", "colour", "colour",
                  "screen", "screen", "below", "read"])
    op = {"op": k, "i": i}
    if k == "make":
        return {"op": "make", "span": span(r)}
    if k == "slice":
        op.update(a=opt(r, -8, 8), b=opt(r, -8, 8), step=r.choice([1, 1, 1, 2, -1, -2]))
    elif k == "index":
        op.update(k=r.randint(-4, 4))
    elif k == "split":
        op.update(sep=r.choice([[32], [97], [98], [97, 98], [97, 97]]), default=r.random() < 0.5)
    elif k == "attr":
        op.update(n=r.choice(SETTERS), on=r.random() < 0.7, via=r.choice(["as", "mutate"]), default=r.random() < 0.5)
    elif k == "text":
        op.update(t=text(r, 0, 4))
    elif k == "link":
        op.update(link=r.choice(LINKS + [""]), via=r.choice(["as", "mutate"]))
    elif k == "reset":
        op.update(on=r.random() < 0.5)
    elif k == "colour":
        op.update(c=[] if r.random() < 0.15 else colour(r), back=r.random() < 0.5, via=r.choice(["as", "mutate"]),
                  how=r.randrange(3))
    elif k == "screen":
        op.update(x=r.randrange(4))
    elif k == "read":
        op.update(ex=r.random() < 0.5, al=r.random() < 0.5)
    return op


def splitty(r):
    s = span(r)
    s["t"] = [r.choice([32, 97, 97, 98, 99]) for _ in range(r.randint(0, 8))]
    return s


def derive_programs(count, seed):
    r = random.Random(f"derive-{seed}")
    out = []
    for _ in range(count):
        ops = [{"op": "make", "span": splitty(r) if r.random() < 0.6 else span(r)} for _ in range(r.randint(1, 2))]
        if r.random() < 0.003:      # many parts
            ops[0]["span"]["t"] = [r.choice([32, 97, 98]) for _ in range(r.randint(130, 270))]
            ops = [ops[0], {"op": "split", "i": 1, "sep": [r.choice([32, 97, 98])], "default": False}]
            out.append({"kind": "derive", "ops": ops})
            continue
        n = len(ops)
        for _ in range(r.randint(1, 8)):
            op = derive_op(r, n)
            ops.append(op)
            n += 1
        out.append({"kind": "derive", "ops": ops})
    return out
