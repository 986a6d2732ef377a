"""Random programs for the screen drivers."""
import random

CHARS = [ord(c) for c in "abcXYZ019#<&\"'-~."] + [0xE9, 0x2588, 0x3B1, 0x41F]
ALPHAS = [333, 477, 129, 613, 787, 933, 51, 951, 7, 893, 907, 999]


POOL = []
FORMS = []      # is it allowed to give colours in another form than RGB?


def table256(n):
    if n < 16:
        return [[0, 0, 0], [170, 0, 0], [0, 170, 0], [170, 85, 0], [0, 0, 170], [170, 0, 170], [0, 170, 170], [170, 170, 170], [85, 85, 85],
                [255, 85, 85], [85, 255, 85], [255, 255, 85], [85, 85, 255], [255, 85, 255], [85, 255, 255], [255, 255, 255]][n]
    if n < 232:
        n -= 16
        return [[0, 95, 135, 175, 215, 255][k] for k in (n // 36, n // 6 % 6, n % 6)]
    return [8 + 10 * (n - 232)] * 3


def color(r, alpha):
    """Half of the time one that was used before in the program, so that colours repeat."""
    if POOL and r.random() < 0.5:
        fit = [c for c in POOL if (c[3] == 1000) == (r.random() >= alpha)]
        if fit:
            return list(r.choice(fit))
    POOL.append(_color(r, alpha))
    return list(POOL[-1])


def _color(r, alpha):
    if FORMS and r.random() < 0.25:
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 60, 103, 144, 187, 220, 232, 240, 255])
        return table256(n) + [r.choice(ALPHAS) if r.random() < alpha else 1000, n]
    base = r.choice([
        [0, 0, 0], [255, 255, 255], [255, 0, 0], [0, 255, 0], [0, 0, 255], [10, 200, 30],
        [r.randrange(256), r.randrange(256), r.randrange(256)],
    ])
    return base + [r.choice(ALPHAS) if r.random() < alpha else 1000]


def text(r, n, newline, blank=0.25, few=0):
    out = []
    if r.random() < few:        # runs of the same glyph, blocks
        c = r.choice([97, 97, 32, 0x2588, 0x2580, 0x259F, 0x25A0, 60, 160])
        return [c if r.random() < 0.9 else r.choice(CHARS) for _ in range(n)]
    for _ in range(n):
        x = r.random()
        if x < newline:
            out.append(10)
        elif x < newline + blank:
            out.append(32)
        else:
            out.append(r.choice(CHARS))
    return out


def span(r, prof, maxlen, plain_only=False):
    n = r.choice([0, 1, 1, 2, 3, r.randint(1, maxlen)])
    if r.random() < prof.get("long", 0.02):      # over the edge of the screen, or several times around
        n = min(r.choice([2, 3, 5]) * maxlen + r.randint(-2, 2), 400)
    st = [s for s in (1, 2, 3, 4, 5, 6, 7, 8, 9) if r.random() < prof["style"]]
    if r.random() < prof.get("opaque", 0):
        st.append(99)
    out = {} if plain_only or r.random() > 0.06 else {"link": r.choice(["https://x.y", "file:///z?a=b"])}
    return {
        **out,
        "t": text(r, n, prof["newline"], few=prof.get("few", 0)),
        "fg": color(r, 0 if plain_only else prof["alpha"] / 2) if r.random() < 0.4 else [],
        "bg": color(r, 0 if plain_only else prof["alpha"]) if r.random() < prof["bg"] else [],
        "st": st,
        "rz": plain_only or r.random() < prof.get("reset", 0.85),
    }


def item(r, prof, w, h, first, string):
    x = r.random()
    if x < prof["nopos"] and first:
        at = []
    elif x < 0.9:
        at = [r.randrange(w or 1), r.randrange(h or 1)]
        if w > 90 and r.random() < 0.4:     # near the last column, or row
            at[0] = w - r.randint(1, 4)
        if h > 90 and r.random() < 0.4:
            at[1] = h - r.randint(1, 4)
    else:
        at = [r.choice([-2, -1, 0, w - 1, w, w + 2]), r.choice([-2, -1, min(0, h - 1), h - 1])]
    k = r.choice([1, 1, 1, 2, 3]) if r.random() > 0.03 else 0
    return {"at": at, "spans": [span(r, prof, max(2, w * h // 2), string) for _ in range(k)]}


def inside(it, w, h):
    """Does it surely end on the screen, so that the next one can go on from there?"""
    if not it["at"] or not 0 <= it["at"][0] < w:
        return False
    x, y = it["at"]
    for s in it["spans"]:
        for c in s["t"]:
            if c == 10:
                y += 1
            else:
                x, y = (x + 1, y) if x + 1 < w else (0, y + 1)
    return 0 <= it["at"][1] and y < h


PROFILES = {
    "C01": dict(spaces=0.2, style=0.12, newline=0.03, alpha=0.1, bg=0.3, nopos=0.2,
                ops=dict(write=6, bulk=1, draw=4, redraw=1.3, clear=0.6, resize=0.6, cursor=0.4, scribble=0.6, again=1.2)),
    "C02": dict(style=0.1, newline=0.03, alpha=0.1, bg=0.3, nopos=0.2, force=0.25,
                ops=dict(write=6, bulk=2, draw=4, redraw=0.7, clear=0.5, resize=0.5, cursor=0.3, again=2)),
    "C03": dict(style=0.15, newline=0.12, alpha=0.0, bg=0.2, nopos=0.15,
                ops=dict(write=5, bulk=1, draw=5, redraw=0.3, clear=0.4, resize=0.3, cursor=0.3, again=0.5)),
    "C04": dict(style=0.08, newline=0.08, alpha=0.05, bg=0.2, nopos=0.6,
                ops=dict(write=7, bulk=2, draw=1, redraw=0.3, clear=0.5, resize=0.5, cursor=1, again=0.8)),
    "C05": dict(style=0.1, newline=0.02, alpha=0.7, bg=0.85, nopos=0.05, opaque=0.12,
                ops=dict(write=1, bulk=6, draw=5, redraw=0.3, clear=0.3, resize=0.2, cursor=0.1, again=0.6)),
    "C17": dict(spaces=1, style=0.05, newline=0.03, alpha=0.0, bg=0.6, nopos=0.2,
                ops=dict(write=4, bulk=1, draw=4, redraw=1.5, clear=0.3, resize=0.6, cursor=0.2, again=0.6)),
    "C21": dict(style=0.2, newline=0.03, alpha=0.1, bg=0.4, nopos=0.2, few=0.4, reset=0.95,
                ops=dict(write=5, bulk=1, draw=0.3, clear=0.4, resize=0.5, cursor=0.2, svg=2, spansvg=0.5)),
    "C06": dict(huge=0.04, style=0.1, newline=0.03, alpha=0.05, bg=0.3, nopos=0.2,
                ops=dict(write=4, bulk=1, draw=3, redraw=0.5, clear=1.2, resize=3, cursor=0.4, again=1.5)),
}


def size(r, big):
    if r.random() < 0.3:
        return r.randint(1, 3), r.randint(1, 3)
    if big and r.random() < 0.06:
        return 80, 24
    if big and r.random() < 0.05:     # numbers of three digits
        n = r.choice([99, 100, 101, 128, 200, 256, 300, 530, 600])
        return (n, r.randint(1, 2)) if r.random() < 0.6 else (r.randint(1, 2), n)
    return r.randint(1, 12), r.randint(1, 8)


def export(r, kind, prof, w, h, term):
    """An export, of the screen or of a span on its own."""
    op = {"op": kind, "fs": r.choice([15, 15, 1, 7, 12, 16, 20, 33, 40]), "say": r.random() < 0.3,
          "at": r.choice([[0, 0], [0, 0], [5, 7], [16, 16], [100, 3]])}
    whole = kind == "svg" and not term
    for key in ("dfg", "dbg"):
        if whole or r.random() < 0.3:
            op[key] = r.choice([[0, 0, 0], [255, 255, 255], [r.randrange(256) for _ in range(3)]])
    if kind == "spansvg":
        op["how"] = r.choice(["inline", "class"])
        op["span"] = span(r, dict(prof, newline=0, alpha=0), 8)
    elif term and r.random() < 0.3:
        op["size"] = [max(1, w + r.randint(-2, 2)), max(1, h + r.randint(-2, 2))]
    elif r.random() < 0.3:
        op["cls"] = r.choice(["s{i}", "a-{i}-b"])
    return op


def program(r, name, nops, big=False):
    prof = PROFILES[name]
    POOL.clear()
    w, h = size(r, big)
    if big and r.random() < prof.get("huge", 0):      # wider, or higher, than a byte counts
        w, h = r.choice([(r.randint(256, 300), 1), (r.randint(1, 2), r.randint(256, 300))])
    term = r.random() < 0.4
    prog = {
        "target": "terminal" if term else "screen", "w": w, "h": h,
        "fill": 32 if term or r.random() < 0.7 else r.choice(CHARS),
        "cur": [0, 0] if term or r.random() < 0.8 else [r.randrange(w), r.randrange(h)],
        "origin": [1, 1] if r.random() < 0.6 else [r.randint(1, 5), r.randint(1, 4)],
        "margin": r.choice([[0, 0], [0, 0], [2, 1], [1, 0], [0, 2]]), "ops": [],
    }
    if r.random() < 0.4:
        prog["tty"] = True
    if r.random() < 0.25:
        prog["beside"] = prog["target"]
    if r.random() < prof.get("spaces", 0):
        prog["space"] = r.choice(["standard", "no_color", "eight_bit"])
    FORMS[:] = [] if "space" in prog else [True]
    ops = prog["ops"]
    kinds, weights = zip(*prof["ops"].items())
    last = None
    for _ in range(nops):
        k = r.choices(kinds, weights)[0]
        if k in ("write", "bulk"):
            via = "bulk" if k == "bulk" else r.choice(["list", "list", "iter", "str"])
            strings = term and "space" not in prog       # a parsed colour is what was sent, not what was meant
            if via == "str" and not strings:
                via = "list"
            how = r.choice(["list", "iter", "str"] if strings else ["list", "iter"]) if via == "bulk" and term else "list"
            string = via == "str" or how == "str"
            n = 1 if k == "write" else r.choice([0, 1, 2, 2, 3, 4, 6])
            items = []
            for i in range(n):
                items.append(item(r, prof, w, h, i == 0 or inside(items[-1], w, h), string))
            if k == "bulk" and n > 1 and r.random() < prof["alpha"]:
                # make the layers overlap
                at = [r.randrange(w or 1), r.randrange(h or 1)]
                for it in items:
                    it["at"] = list(at) if r.random() < 0.7 else [r.randrange(w or 1), r.randrange(h or 1)]
            last = {"op": "write", "via": via, "how": how, "items": items,
                    "force": r.random() < prof.get("force", 0.08)}
            if not term and r.random() < 0.3:
                last["tbg"] = [r.randrange(256) for _ in range(3)] + [1000]
            ops.append(last)
        elif k == "again":
            # the same write again changes nothing, unless it is forced
            if last is not None:
                ops.append(dict(last, force=r.random() < 0.4))
        elif k == "scribble":
            ops.append({"op": "scribble"})
        elif k in ("draw", "redraw"):
            ops.append({"op": "draw", "redraw": k == "redraw"})
        elif k in ("svg", "spansvg"):
            ops.append(export(r, k, prof, w, h, term))
            if ops[-1].get("size"):
                w, h = ops[-1]["size"]
                last = None
        elif k == "clear":
            ops.append({"op": "clear", "fill": 32 if r.random() < 0.6 else r.choice(CHARS)})
        elif k == "cursor":
            at = [r.randrange(w or 1), r.randrange(h or 1)]
            if r.random() < 0.25:      # anywhere; the next write from there is not drawn, or only in part
                at = [r.choice([-2, -1, 0, w, w + 1, 2 * w]), r.choice([-2, -1, 0, h - 1, h, h + 2])]
            ops.append({"op": "cursor", "at": at})
        elif k == "resize":
            if r.random() < 0.2:
                pass
            elif r.random() < 0.3:
                w, h = size(r, False)
            else:
                least = 0 if name == "C06" and not term else 1
                w, h = max(least, w + r.randint(-2, 2)), max(least, h + r.randint(-2, 2))
            ops.append({"op": "resize", "w": w, "h": h, "fill": 32 if r.random() < 0.6 else r.choice(CHARS),
                        "keep": r.random() < 0.85, "read": r.randrange(3)})
            if last is not None and not all(i["at"] and i["at"][1] < h for i in last["items"]):
                last = None
    if "svg" in prof["ops"]:
        ops.append(export(r, "svg", prof, w, h, term))
        return prog
    ops.append({"op": "draw", "redraw": any(o["op"] == "scribble" for o in ops) and r.random() < 0.7})
    if r.random() < 0.3:
        ops.append({"op": "draw", "redraw": r.random() < 0.5})
    return prog


def programs(name, count, seed, nops=14, big=True):
    r = random.Random(f"{name}-{seed}")
    return [program(r, name, r.randint(2, nops), big) for _ in range(count)]
