"""Colour programs."""
import random

SPACES = ["standard", "no_color", "eight_bit", "true_color"]
ALPHAS = [0, 1000, 51, 129, 250, 333, 500, 613, 787, 900, 999]
EDGE = [0, 1, 2, 25, 26, 50, 51, 76, 77, 85, 95, 127, 128, 135, 153, 170, 175, 204, 215, 229, 230, 254, 255]


def chan(r):
    return r.choice(EDGE) if r.random() < 0.4 else r.randrange(256)


def rgb(r):
    x = r.random()
    if x < 0.15:
        v = chan(r)
        return [v, v, v]
    return [chan(r), chan(r), chan(r)]


def names():
    import os, re
    text = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "ColourTables.tla")).read()
    return re.findall(r"(\w+) \|-> <<", text)


NAMES = names()


def sgr(r):
    back = r.random() < 0.5
    x = r.random()
    if x < 0.4:
        return [r.choice([40, 100] if back else [30, 90]) + r.randrange(8)]
    if x < 0.7:
        return [48 if back else 38, 5, r.randrange(256)]
    return [48 if back else 38, 2, *rgb(r)]


def bare(n):
    return not str(n).startswith("4") and not (30 <= n <= 38 or 90 <= n <= 97 or 100 <= n <= 107)


def desc(r):
    x = r.random()
    a = r.choice(ALPHAS)
    if x < 0.2:
        four = r.random() < 0.4
        return {"d": {"k": "rgb", "v": rgb(r), "four": four, "a": a if four else 1000}}
    if x < 0.35:
        return {"d": {"k": "hex", "v": rgb(r), "up": r.random() < 0.3, "a": 1000}, "via": r.choice(["color", "hex"])}
    if x < 0.45:
        return {"d": {"k": "hexa", "v": rgb(r), "a": r.choice([0, 1, 127, 128, 254, 255, r.randrange(256)]), "up": r.random() < 0.3}}
    if x < 0.6:
        al = r.random() < 0.3
        return {"d": {"k": "name", "name": r.choice(NAMES), "a": a if al else 1000, "alpha": al}}
    al = r.random() < 0.3
    ps = sgr(r)
    if r.random() < 0.1:
        n = r.randrange(256)
        if bare(n):
            ps = [n]
    return {"d": {"k": "sgr", "ps": ps, "a": a if al else 1000, "alpha": al}, "via": r.choice(["color", "ansi"])}


def bad(r):
    x = r.random()
    if r.random() < 0.05:
        return {"d": {"k": "other", "text": r.choice(["none", "int", "float", "bytes", "list", "set"]), "a": 1000}}
    c = rgb(r)
    c[r.randrange(3)] = r.choice([-1, 256, 300, 1000, -255])
    if x < 0.08:     # digits too many: the last channel is out of range
        n = r.choice([7, 9, 10, 12])
        return {"d": {"k": "bad", "text": "#" + "".join(r.choice("0123456789abcdefABCDEF") for _ in range(4)) + r.choice("123456789abcdef")
                      + "".join(r.choice("0123456789abcdef") for _ in range(n - 5)), "a": 1000}}
    if x < 0.3:
        return {"d": {"k": "rgb", "v": c, "a": 1000}}
    if x < 0.5:
        return {"d": {"k": "sgr", "ps": [r.choice([38, 48]), 5, r.choice([256, 257, 300, 999, -1, -5, -255, -256])], "a": 1000}}
    if x < 0.7:
        return {"d": {"k": "sgr", "ps": [r.choice([38, 48]), 2, *[abs(v) if abs(v) > 255 or v >= 0 else 256 for v in c]], "a": 1000}}
    if x < 0.8:
        return {"d": {"k": "sgr", "ps": [r.choice([256, 300, 999, -1, -8, -100])], "a": 1000}}
    return {"d": {"k": "bad", "text": r.choice(["notacolor", "Reddish", "#gggggg", "#12xx56", "", "redd", "aquamarines", "#zz0000",
                                                 "light blue", "38;9;1;2;3", "38;2;-1;0;0", "48;2;1;2;-3", "-5", "#-10000", "#1000-1", "1;red"]), "a": 1000}}


def fix_bad(u):
    d = u["d"]
    if d["k"] == "sgr" and len(d["ps"]) == 5 and all(0 <= v <= 255 for v in d["ps"][2:]):
        d["ps"][2] = 256
    return u


def all_descriptions():
    us = []
    for n in NAMES:
        us.append({"d": {"k": "name", "name": n, "a": 1000}})
        us.append({"d": {"k": "name", "name": n, "a": 333, "alpha": True}})
    for n in range(256):
        for lead in (38, 48):
            us.append({"d": {"k": "sgr", "ps": [lead, 5, n], "a": 1000}, "via": "ansi" if n % 2 else "color"})
        us.append({"d": {"k": "sgr", "ps": [38 + 10 * (n % 2), 5, n], "a": 613, "alpha": True}, "via": "ansi" if n % 4 > 1 else "color"})
        if bare(n):
            us.append({"d": {"k": "sgr", "ps": [n], "a": 1000}})
        us.append({"d": {"k": "hexa", "v": [n, 255 - n, (n * 7) % 256], "a": n}})
        us.append({"d": {"k": "hex", "v": [(n * 3) % 256, n, 255 - n], "up": n % 2 == 0, "a": 1000}})
    for base in (30, 40, 90, 100):
        for k in range(8):
            us.append({"d": {"k": "sgr", "ps": [base + k], "a": 1000}, "via": "ansi"})
            us.append({"d": {"k": "sgr", "ps": [base + k], "a": 1000}})
            us.append({"d": {"k": "sgr", "ps": [base + k], "a": 333, "alpha": True}})
    for name, v in (("black", 0), ("white", 255)):
        for back in (False, True):
            for default in (False, True):
                us.append({"d": {"k": "rgb", "v": [v, v, v], "a": 1000}, "via": name, "mods": [["layer", back]], "default": default})
    return us


def programs_c16(count, seed):
    r = random.Random(f"c16-{seed}")
    us = all_descriptions()
    ops = [{"op": "describe", "u": u} for u in us]
    ops += [{"op": "describe", "u": use(r) if r.random() < 0.8 else fix_bad(bad(r))} for _ in range(count)]
    return [{"env": SPACES[i % 4], "ops": ops[i * 60:(i + 1) * 60]} for i in range((len(ops) + 59) // 60)]


def use(r):
    u = desc(r)
    if r.random() < 0.35:
        u["mods"] = [["layer", r.random() < 0.5]] if r.random() < 0.8 else [["alpha", r.choice(ALPHAS)], ["layer", r.random() < 0.5]]
        u["default"] = r.random() < 0.5
    return u


def switch(r):
    how = r.choice(["force", "force", "force", "unforce", "env"])
    return {"op": "space", "how": how, "v": r.choice(SPACES)}


def programs_c17(count, seed, grid):
    r = random.Random(f"c17-{seed}")
    progs = []
    # the same colours again and again under changing spaces
    for _ in range(count):
        us = [use(r) for _ in range(r.randint(1, 6))]
        fgs = [u for u in (use(r) for _ in range(6)) if not is_back(u)]
        bgs = [dict(u, mods=[["layer", True]]) for u in (use(r) for _ in range(2))]
        ops = []
        for _ in range(r.randint(4, 24)):
            x = r.random()
            if x < 0.25:
                ops.append(switch(r))
            elif x < 0.85:
                ops.append({"op": "encode", "u": r.choice(us)})
            else:
                fg = [r.choice(fgs)] if fgs and r.random() < 0.7 else []
                bg = [r.choice(bgs)] if r.random() < 0.6 else []
                ops.append({"op": "print", "fg": fg, "bg": bg})
        progs.append({"env": r.choice(SPACES), "ops": ops})
    # a grid of colours in every space, and every colour that can be given
    us = [{"d": {"k": "rgb", "v": [a, b, c], "a": 1000}, "mods": [["layer", True]] if (a + b + c) % 2 else []}
          for a in grid for b in grid for c in grid]
    us += [{"d": {"k": "rgb", "v": [n, n, n], "a": 1000}} for n in range(256)]
    # every value of every channel
    us += [{"d": {"k": "rgb", "v": [n, (n * 37) % 256, 255 - n], "a": 1000}, "mods": [["layer", True]] if n % 2 else []} for n in range(256)]
    us += [{"d": {"k": "rgb", "v": [(n * 91 + 5) % 256, n, (n * 29) % 256], "a": 1000}} for n in range(256)]
    us += [{"d": {"k": "sgr", "ps": [38 + 10 * (n % 2), 5, n], "a": 1000}} for n in range(256)]
    us += [{"d": {"k": "sgr", "ps": [b + k], "a": 1000}} for b in (30, 40, 90, 100) for k in range(8)]
    us += [{"d": {"k": "name", "name": n, "a": 1000}} for n in NAMES]
    us += [{"d": {"k": "rgb", "v": [v] * 3, "a": 1000}, "via": n, "mods": [["layer", b]]} for n, v in (("black", 0), ("white", 255)) for b in (False, True)]
    for i in range(0, len(us), 30):
        for s in SPACES:
            progs.append({"env": s, "ops": [{"op": "encode", "u": u} for u in us[i:i + 30]]})
    return progs


def is_back(u):
    d = u["d"]
    back = d["k"] == "sgr" and (d["ps"][0] in range(40, 49) or d["ps"][0] in range(100, 108))
    for m in u.get("mods", []):
        if m[0] == "layer":
            back = m[1]
    return back


def mix_op(r):
    op = {"p": rgb(r), "back": r.random() < 0.5}
    k = r.choice(["blend"] * 5 + ["lighten", "darken", "contrast", "contrast", "complement", "turn", "triad", "tetrad",
                                  "analog", "layer", "alpha", "choose", "choose", "oppose", "light"])
    op["op"] = k
    if r.random() < 0.4:    # neither how a colour was made nor its alpha matters for what follows
        op.update(a=r.choice(ALPHAS), qa=r.choice(ALPHAS + [1000] * 5), made=r.choice(["", "ansi", "hex"]), qmade=r.choice(["", "ansi", "hex"]))
    if k in ("blend", "oppose"):
        n, d, exact = r.choice([
            (0, 1, True), (1, 1, True), (1, 2, True), (1, 4, True), (3, 4, True), (r.randint(0, 16), 16, True),
            (r.choice([51, 129, 333, 477, 613, 787, 933, 7, 1, 999, 391]), 1000, False),
            (r.choice([51, 129, 333, 477, 613, 787, 933, 7, 1, 999, 391]), 1000, False),
            (r.randint(0, 1000), 1000, False), (3, 2, True), (-1, 2, True), (5, 4, True), (2, 1, True), (-1, 1, True),
        ])
        op.update(n=n, d=d, exact=exact)
        if k == "blend":
            op.update(q=rgb(r), qback=r.random() < 0.5, to=r.choice(["", "", "", "front", "back"]))
    elif k == "choose":
        op.update(white=rgb(r) if r.random() < 0.7 else [], black=rgb(r) if r.random() < 0.7 else [], qback=r.random() < 0.5)
    elif k in ("lighten", "darken"):
        op.update(count=r.randint(0, 12) if r.random() < 0.85 else -r.randint(1, 5), step=r.choice([100, 100, 100, 250, 333, 50, 0]), exact=False)
    elif k == "turn":
        op.update(n=r.randint(0, 12))
    elif k in ("layer", "alpha"):
        op.update(to=r.random() < 0.5 if k == "layer" else r.choice(ALPHAS), a=r.choice(ALPHAS + [1000]), made=r.choice(["", "ansi", "hex"]))
    return op


def programs_c19(count, seed, grid):
    r = random.Random(f"c19-{seed}")
    ops = []
    for _ in range(count):
        op = mix_op(r)
        ops.append(op)
        if r.random() < 0.3:    # and the same on the other layer
            ops.append(dict(op, back=not op["back"]))
            if "qback" in op and r.random() < 0.5:
                ops.append(dict(op, qback=not op["qback"]))
    for a in grid:
        for b in grid:
            for c in grid:
                for k in ("contrast", "complement", "triad"):
                    ops.append({"op": k, "p": [a, b, c], "back": (a + b + c) % 2 == 0})
    for n in range(256):
        ops.append({"op": "contrast", "p": [n, n, n], "back": n % 2 == 0})
        ops.append({"op": "complement", "p": [n, n, n], "back": n % 2 == 0})
        ops.append({"op": "light", "p": [n, n, n], "back": n % 2 == 0})
    blocks = [ops[i:i + 6] for i in range(0, len(ops), 6)]
    r.shuffle(blocks)
    ops = [op for b in blocks for op in b]
    return [{"env": "true_color", "ops": ops[i:i + 60]} for i in range(0, len(ops), 60)]
