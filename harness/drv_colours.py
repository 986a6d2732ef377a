"""Executes colour programs on the real Color class and records traces."""
import os
import re
import warnings

import slate
from drvlib import main
from slate.color import Color, calculate_contrast, color
from slate.core import ColorSpace
from slate.span import Span
from slate.terminal import terminal
from tok import tokens


def text_of(d):
    """The description, as a user would write it."""
    k = d["k"]
    if k == "rgb":
        return tuple(d["v"]) if not d.get("four") else (*d["v"], d["a"] / 1000)
    if k in ("hex", "hexa"):
        t = "%02x%02x%02x" % tuple(d["v"])
        if k == "hexa":
            t += "%02x" % d["a"]
        return "#" + (t.upper() if d.get("up") else t)
    if k == "name":
        return d["name"] + (f";{d['a'] / 1000}" if d.get("alpha") else "")
    if k == "sgr":
        return ";".join(map(str, d["ps"])) + (f";{d['a'] / 1000}" if d.get("alpha") else "")
    if k == "other":
        return {"none": None, "int": 5, "float": 0.5, "bytes": b"red", "list": [1, 2, 3], "set": {1, 2}}[d["text"]]
    return d["text"]


def build(u):
    d = u["d"]
    if u.get("via") == "hex":
        c = Color.from_hex(text_of(d))
    elif u.get("via") in ("black", "white"):
        back = bool(u["mods"] and u["mods"][-1][1])
        return getattr(Color, u["via"])(back) if back or u.get("default") else getattr(Color, u["via"])()
    elif u.get("via") == "ansi":
        c = Color.from_ansi(text_of(d))
    else:
        c = color(text_of(d))
    for m in u.get("mods", []):
        if m[0] == "layer":
            c = c.as_background() if m[1] and u.get("default") else c.as_background(m[1])
        else:
            c = c.as_alpha(m[1] / 1000)
    return c


def clean(u):
    return {"d": u["d"], "mods": u.get("mods", [])}


def rgb(c):
    return [int(v) for v in c.rgb]


def made(v, back, alpha, how):
    """The same colour, come by in different ways."""
    if how == "ansi":
        return Color.from_ansi(";".join(map(str, [48 if back else 38, 2, *v])), alpha=alpha / 1000)
    if how == "hex":
        return Color.from_hex("#%02x%02x%02x" % tuple(v), alpha=alpha / 1000).as_background(back)
    return Color(tuple(v), is_background=back, alpha=alpha / 1000)


def mixed(op, ev):
    base = made(op["p"], op["back"], op.get("a", 1000), op.get("made", ""))
    k = op["op"]
    if k == "blend":
        other = made(op["q"], op["qback"], op.get("qa", 1000), op.get("qmade", ""))
        to = op.get("to", "")
        got = [base.blend(other, op["n"] / op["d"]) if not to else base.blend(other, op["n"] / op["d"], is_background=to == "back")]
    elif k in ("lighten", "darken"):
        f = getattr(base, k)
        got = [f(op["count"]) if op["step"] == 100 else f(op["count"], step_size=op["step"] / 1000)]
        ev["n"], ev["d"] = op["count"] * op["step"], 1000
    elif k == "choose":
        opt = {name: Color(tuple(op[name]), is_background=op["qback"]) for name in ("white", "black") if op[name]}
        got = [calculate_contrast(base, **opt)]
    elif k == "oppose":
        got = [base.blend_complement(op["n"] / op["d"])]
    elif k == "light":
        got = [base]
        ev["y"], ev["l"] = round(base.luminance * 1000000000), round(base.brightness * 100000)
    elif k in ("contrast", "complement"):
        got = [getattr(base, k)]
    elif k == "turn":
        got = [base.hue_shift(op["n"] / 12)]
    elif k in ("triad", "tetrad", "analog"):
        got = list(getattr(base, {"triad": "triadic_group", "tetrad": "tetradic_group", "analog": "analogous_group"}[k]))
    elif k == "layer":
        got = [base.as_background(op["to"])]
    elif k == "alpha":
        got = [base.as_alpha(op["to"] / 1000)]
    ev["r"] = [rgb(c) for c in got]
    ev["backs"] = [bool(c.is_background) for c in got]
    ev["alpha"] = round(got[0].alpha * 1000000)


def one(op):
    k = op["op"]
    if k == "space":
        ev = dict(op)
        if op["how"] == "env":
            os.environ["SLATE_COLORSYS"] = op["v"]
        else:
            terminal.color_space = ColorSpace(op["v"]) if op["how"] == "force" else None
        return ev
    if k == "describe":
        u = op["u"]
        ev = {"op": k, "d": u["d"], "mods": u.get("mods", []), "exc": "", "c": [], "back": False, "alpha": 0, "hex": -1}
        try:
            c = build(u)
            ev.update(c=rgb(c), back=bool(c.is_background), alpha=round(c.alpha * 1000000))
            if re.fullmatch(r"#[0-9A-Fa-f]{6}", c.hex):
                ev["hex"] = int(c.hex[1:], 16)
        except Exception as e:
            ev["exc"] = type(e).__name__
        return ev
    if k == "encode":
        ev = {"op": k, "u": clean(op["u"]), "exc": "", "ps": []}
        try:
            key = repr(op["u"])
            if key not in CACHE:
                CACHE[key] = build(op["u"])
            text = CACHE[key].ansi
            ev["ps"] = [int(p) if p.isdigit() else -1 for p in text.split(";")]
        except Exception as e:
            ev["exc"] = type(e).__name__
        return ev
    if k == "print":
        ev = {"op": k, "fg": [clean(u) for u in op["fg"]], "bg": [clean(u) for u in op["bg"]], "exc": "", "ps": []}
        try:
            s = Span("x", foreground=build(op["fg"][0]) if op["fg"] else None,
                     background=build(op["bg"][0]) if op["bg"] else None)
            first = tokens(str(s))[0]
            ev["ps"] = first[1] if first[0] == "m" else []
        except Exception as e:
            ev["exc"] = type(e).__name__
        return ev
    ev = dict(op, exc="", r=[[0, 0, 0]], backs=[], alpha=0)
    try:
        mixed(op, ev)
    except Exception as e:
        ev["exc"] = type(e).__name__
    return ev


CACHE = {}


def run(prog):
    CACHE.clear()
    os.environ["SLATE_COLORSYS"] = prog["env"]
    terminal.color_space = None
    return [{"env": prog["env"]}] + [one(op) for op in prog["ops"]]


if __name__ == "__main__":
    main(run)
