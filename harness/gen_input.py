"""Input programs."""
import os
import random
import re

HERE = os.path.dirname(os.path.abspath(__file__))
KEYS, NT_KEYS = ([[int(x) for x in m.split(",")] for m in re.findall(r"<<<<([0-9, ]+)>>,", part)] for part in
                 open(os.path.join(HERE, "..", "spec", "KeyTable.tla")).read().split("NtTable"))
# Everything gets through
CLEAN = {"icanon": 0, "echo": 0, "isig": 0, "iexten": 0, "icrnl": 0, "ixon": 0}
CANON = {"isig": 0, "iexten": 0, "icrnl": 0, "ixon": 0}
PRINT = [97, 122, 65, 48, 57, 32, 33, 59, 91, 126, 60, 77, 109]
WIDE = [233, 255, 0x4E16, 0x1F600, 0x7FF, 0x800, 0xFFFD]


def code(s):
    return [ord(c) for c in s]


def some(r, enc="utf-8", low=1, high=6):
    pool = PRINT + (WIDE if enc == "utf-8" else [233, 255, 161])
    return [r.choice(pool) for _ in range(r.randint(low, high))]


def unknown(r, enc="utf-8"):
    """An escape sequence that is no known key and no mouse report."""
    while True:
        t = code(r.choice(["\x1b[", "\x1bO", "\x1b", "\x1b[1;", "\x1b[<", "\x1b[<0;", "\x1b[<0;1;2", "\x1b]10;", "\x1b[200"])) + some(r, enc, high=3)
        if t not in KEYS and 27 not in t[1:] and not re.fullmatch(r"\x1b\[<\d+;\d+;\d+[Mm]", "".join(map(chr, t))):
            return t


def report(r):
    b = r.choice([r.randrange(0, 128), r.choice([0, 2, 32, 34, 35, 64, 65, 66, 67]) + 4 * r.randrange(8)])
    return code(f"\x1b[<{b};{r.choice([0, 1, 9, 10, 80, 223, 224, 999])};{r.randint(0, 300)}{r.choice('Mm')}")


def content(r, enc, controls):
    x = r.random()
    keys = KEYS if controls else [k for k in KEYS if all(c == 27 or 32 <= c < 127 for c in k)]
    if x < 0.35:
        return r.choice(keys)
    if x < 0.41:    # keys typed ahead, or pasted
        return r.choice(keys) + r.choice([r.choice(keys), [10] if controls else [32], some(r, enc, high=2)])
    if x < 0.45:
        return report(r)
    if x < 0.6:
        return unknown(r, enc)
    return some(r, enc)


def mixes(t):
    """Mouse reports together with anything else are a known finding, see known_findings.jsonl."""
    s = "".join(map(chr, t))
    return re.search(r"\x1b\[<\d+;\d+;\d+[Mm]", s) and not re.fullmatch(r"\x1b\[<\d+;\d+;\d+[Mm]", s)


def cuts(r, t, enc):
    """Places inside characters to interrupt the typing at."""
    out, at = [], 0
    for c in t:
        n = len(chr(c).encode(enc))
        out += range(at + 1, at + n)
        at += n
    return sorted(r.sample(out, r.randint(0, min(2, len(out)))))


def program(r, cfg, enc, n):
    controls = not cfg.get("isig", 1)
    canon = cfg.get("icanon", 1)
    ops, fed, pend = [], [], []
    for _ in range(n):
        x = r.random()
        if x < 0.2:
            t = content(r, enc, True)
            if not mixes(fed + t):
                fed = fed + t
                ops.append({"op": "feed", "t": t})
        elif x < 0.4:
            t = content(r, enc, controls and not canon)
            if not mixes(pend + t):
                pend = pend + t
                ops.append({"op": "type", "t": t})
        else:
            op = {"op": "read", "raw": r.random() < 0.3, "during": [], "end": "", "timeout": 0}
            if fed or pend:
                op["timeout"] = r.choice([0, 0, 3000])
                op["fed"] = bool(fed)
                if fed:
                    fed = []
                else:
                    pend = op["late"] = some(r, enc, high=3) if r.random() < 0.2 else []
            elif r.random() < 0.75:
                op["during"] = content(r, enc, controls)
                op["cuts"] = cuts(r, op["during"], enc)
                op["timeout"] = r.choice([0, 0, 3000])
                if r.random() < 0.2:
                    fed = op["feeding"] = content(r, enc, True)
                elif r.random() < 0.2:
                    pend = op["late"] = some(r, enc, high=3)
            else:
                op["end"] = r.choice(["int", "usr", "time", "early"])
                op["timeout"] = r.choice([15, 30]) if op["end"] == "time" else r.choice([0, 3000])
                op["default"] = r.randrange(4)
                if enc == "utf-8" and r.random() < 0.5:
                    c = r.choice(WIDE)
                    op["partial"], op["bytes"] = [c], r.randint(1, len(chr(c).encode()) - 1)
                    op["timeout"] += 20 if op["end"] == "time" else 0
                if op["end"] != "early" and r.random() < 0.2:
                    fed = op["feeding"] = content(r, enc, True)
                elif op["end"] != "early" and not op.get("partial") and r.random() < 0.2:
                    pend = op["late"] = some(r, enc, high=3)
            ops.append(op)
    return {"cfg": cfg, "enc": enc, "ops": ops}


def configs(r):
    x = r.random()
    if x < 0.35:
        return CLEAN
    if x < 0.5:
        return CANON
    if x < 0.65:
        return {}
    # other settings; letters and escape sequences are not affected by them
    cfg = {f: r.randrange(2) for f in ("echo", "iexten", "echoe", "noflsh", "opost", "onlcr", "ixany") if r.random() < 0.4}
    if r.random() < 0.4:
        cfg.update(icanon=0, min=r.choice([0, 1, 3]), time=r.choice([0, 2]))
    else:
        cfg["echo"] = 1
    if r.random() < 0.3:
        cfg["intr"] = r.choice([0, 7, 3])
    return cfg


def programs(count, key, n=8):
    r = random.Random(f"input-{key}")
    return [program(r, configs(r), "latin-1" if r.random() < 0.15 else "utf-8", r.randint(2, n)) for _ in range(count)]


def rd(during=(), raw=False, end="", timeout=0, **kw):
    return {"op": "read", "raw": raw, "during": list(during), "end": end, "timeout": timeout, **kw}


def key_programs():
    """Every key in every way."""
    out = []
    for k in KEYS:
        for raw in (False, True):
            out.append({"cfg": CLEAN, "ops": [rd(k, raw), {"op": "type", "t": k}, rd(raw=raw), {"op": "feed", "t": k}, rd(raw=raw, fed=True)]})
    for t in ("[<0;1;1M", "[<35;10;2m", "x[<0;1;1M", "\x1bx[<0;1;1M"):     # typed, no report
        out.append({"cfg": CLEAN, "ops": [rd(code(t)), {"op": "feed", "t": code(t)}, rd(fed=True), rd(code(t), True)]})
    r = random.Random("long")
    for n in (50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4000):
        t = [r.choice(PRINT) for _ in range(n)]
        u = [r.choice(PRINT + WIDE) for _ in range(n // 4)]
        out.append({"cfg": CLEAN, "ops": [{"op": "type", "t": t}, rd(raw=n % 2 == 0), {"op": "feed", "t": t}, rd(fed=True)]})
        out.append({"cfg": CLEAN, "ops": [{"op": "type", "t": u}, rd(raw=n % 2 == 1), {"op": "feed", "t": u + u}, rd(fed=True)]})
    # as if it had been pasted in pieces
    for n in (10, 100, 500):
        out.append({"cfg": CLEAN, "ops": [{"op": "type", "t": [97] * n}, {"op": "type", "t": [98] * n}, {"op": "type", "t": [233] * n}, rd()]})
    # keys with any number of names
    names = ["a", "up", "shift-up", "ctrl-i", "tab", "\x1b[A", "", "x y"]
    for n in range(1, len(names) + 1):
        for k in range(len(names) - n + 1):
            out.append({"ops": [{"op": "object", "names": [code(v) for v in names[k:k + n]]}]})
    out.append({"ops": [{"op": "notty", "raw": False}, {"op": "notty", "raw": True}]})
    return out


JUNK = [[255], [128], [195], [228, 184], [240, 159, 152], [192, 128], [237, 160, 128], [254, 255, 255], [191, 191]]


def junk_programs(count, key):
    """Bytes that are no text, with text around them."""
    r = random.Random(f"junk-{key}")
    pool = [97, 98, 48, 32, 126, *WIDE]
    out = []
    for k in range(count):
        seq = []
        for _ in range(3):
            seq.append({"op": "junk", "before": [r.choice(pool) for _ in range(r.randint(0, 3))], "junk": JUNK[k % len(JUNK)],
                        "after": [r.choice(pool) for _ in range(r.randint(1, 4))], "raw": r.random() < 0.5})
        out.append({"cfg": CLEAN, "ops": seq})
    return out


def nt_programs(count, key):
    """Reads of a Windows console: each takes what is there, or what was fed."""
    r = random.Random(f"nt-{key}")
    text = [*range(32, 127)]
    out = [{"ops": [op for raw in (False, True) for op in ({"op": "console", "t": [224 if c == 27 and len(k) > 1 else c for c in k]},
                                                            {"op": "ntread", "raw": raw})]} for k in NT_KEYS]
    for _ in range(count):
        seq, fed, pend = [], False, []
        for _ in range(r.randint(1, 9)):
            x = r.random()
            if x < 0.35:
                special = [224 if c == 27 and i == 0 and len(k) > 1 else c for k in [r.choice(NT_KEYS)] for i, c in enumerate(k)]
                t = r.choice([[r.choice(text) for _ in range(r.randint(1, 5))], [r.choice(text)], [r.choice([0, 224]), r.choice(text)], [13], [27], [9], [3], special])
                if t[0] in (0, 224) and pend or pend and pend[0] in (0, 224):       # a special key is read alone
                    continue
                pend = pend + t
                seq.append({"op": "console", "t": t})
            elif x < 0.5:
                fed = True
                seq.append({"op": "feed", "t": r.choice([[r.choice(text)], [r.choice(text + WIDE) for _ in range(r.randint(1, 6))], r.choice(NT_KEYS)])})
            else:
                seq.append({"op": "ntread", "raw": r.random() < 0.3, "timed": r.random() < 0.3})
                fed, pend = False, pend if fed else []
        out.append({"ops": seq + [{"op": "ntread", "raw": False}]})
    return out


def end_programs():
    """Every end of a read, in every part of a character, under several settings."""
    out = []
    for cfg in ({}, CLEAN, CANON, {"echo": 0, "icanon": 0, "min": 0, "time": 5}, {"intr": 7, "opost": 0}):
        for end in ("int", "usr", "time", "early"):
            for c in (None, *WIDE) if end != "early" else (None,):
                sizes = [0] if c is None else range(1, len(chr(c).encode()))
                for n in sizes:
                    for timed in (False, True) if end != "time" else (True,):
                        to = 0 if not timed else 30 if end == "time" else 3000
                        op = rd(end=end, timeout=to, raw=len(out) % 3 == 0, default=len(out) % 4)
                        if n:
                            op["partial"], op["bytes"] = [c], n
                        out.append({"cfg": cfg, "ops": [op, rd([97])]})
    return out


def mouse_programs(count, key):
    r = random.Random(f"mouse-{key}")
    ops = []
    for b in range(0, 260):
        for f in "Mm":
            ops.append({"op": "mouse", "t": code(f"\x1b[<{b};{r.randint(0, 500)};{r.randint(0, 500)}{f}")})
    junk = ["", "\x1b", "a", ";;", "1;2;3", "\x1b[<;;M", "\x1b[<0;1;M", "\x1b[<0;;1M", "\x1b[<;1;1M", "\x1b[<0;1M", "\x1b[<0;1;1;1M", "\x1b[<0;1;1",
            "\x1b[<0;1;1N", "[<0;1;1M", "\x1b[0;1;1M", "\x1b<0;1;1M", "\x1b[<0;1;1M ", " \x1b[<0;1;1M", "\x1b[<0;1;1MM", "\x1b[<a;1;1M", "\x1b[<0;b;1M",
            "\x1b[<0;1;cM", "\x1b[<-1;1;1M", "\x1b[<0;-1;1M", "\x1b[<0;1;1\n", "\x1b[<0;1;1M\n", "\x1b[<3;1;1M", "\x1b[<1;1;1M", "\x1b[<128;1;1M",
            "\x1b]10;rgb:1234/1234/1234\x1b\\", "\x1b[?2026;2$y", "\x1b[4;720;1280t", "\x1b[1;2;3R", "\x1b[38;2;3m", "\x1b[?1;2;4c", "\x1b[M !!",
            "\x1b[<0.5;1;1M", "\x1b[<0;1;1;M", "\x1b[<<0;1;1M", "\x1b[[<0;1;1M", "\x1b\x1b[<0;1;1M", "\x1b[<\u0661;1;1M", "\x1b[<0;\u0661;1M", "\x1b[<+0;1;1M",
            "\x1b[< 0;1;1M", "\x1b[<0; 1;1M", "\x1b[<1_0;1;1M", "\x1b[<0;1;1\x1bM"]
    ops += [{"op": "mouse", "t": code(j)} for j in junk]
    out = [{"ops": ops[i:i + 40]} for i in range(0, len(ops), 40)]
    for _ in range(count):
        seq = []
        for _ in range(40):
            t = report(r)
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                i = r.randrange(len(t))
                x = r.random()
                if x < 0.4:
                    t = t[:i] + t[i + 1:]
                elif x < 0.7:
                    t = t[:i] + [r.choice([27, 91, 60, 59, 77, 109, 48, 49, 32, 45, 97])] + t[i:]
                else:
                    t = t[:i] + [r.choice([27, 91, 60, 59, 77, 109, 48, 53, 233])] + t[i + 1:]
            s = "".join(map(chr, t))
            if not re.search(r"[<;]0\d", s) and not re.search(r"\d{7}", s):
                seq.append({"op": "mouse", "t": t})
        out.append({"ops": seq})
    # and through getch, typed and fed
    for b in list(range(0, 100)):
        t = code(f"\x1b[<{b};{r.randint(1, 300)};{r.randint(1, 99)}{r.choice('Mm')}")
        out.append({"cfg": CLEAN, "ops": [rd(t), {"op": "feed", "t": t}, rd(fed=True)]})
    for j in junk:
        # the last report of several is taken, see known_findings.jsonl
        if j and j.isascii() and "\n" not in j and "\x1b\x1b" not in j and not mixes(code(j)):
            out.append({"cfg": CLEAN, "ops": [rd(code(j)), {"op": "feed", "t": code(j)}, rd(fed=True), rd(code(j), True)]})
    return out
