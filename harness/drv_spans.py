"""Executes span programs on the real Span class and records traces."""
import io

from tok import tokens

import slate
from drvlib import NAMES, main, mkcolor, mkspan, spanrec
from slate.color import color
from slate.screen import Screen
from slate.span import Span


def parse(op):
    line = ""
    for p in op["pieces"]:
        line += "".join(map(chr, p[1])) if p[0] == "t" else "\x1b[" + p[2] + "m"
    ev = {"op": "parse", "pieces": [p[:2] for p in op["pieces"]], "exc": "", "spans": [], "first": []}
    try:
        ev["spans"] = [spanrec(s) for s in Span.yield_from(line)]
        first = Span.first_from(line)
        ev["first"] = [] if first is None else [spanrec(first)]
    except Exception as e:
        ev["exc"] = type(e).__name__
        ev["spans"] = []
    return ev


def lists(span, **kw):
    return [tokens(c, "\t") for c in span.get_characters(**kw)]


def show(op):
    ev = {"op": "print", "span": op["span"], "exc": "", "toks": [], "chars": [], "len": 0, "wspan": 0, "wstr": 0}
    try:
        s = mkspan(op["span"])
        ev["toks"] = tokens(str(s), "\t")
        for ex in (False, True):
            for al in (False, True):
                ev["chars"].append({"ex": ex, "al": al,
                                    "lists": lists(s, exclude_color=ex, always_include_sequence=al)})
        ev["len"], ev["wspan"], ev["wstr"] = len(s), slate.width(s), slate.width(str(s))
    except Exception as e:
        ev["exc"] = type(e).__name__
    return ev


def bound(v):
    return v[0] if v else None


def use(pool, op):
    """Performs one derivation; gives the new spans."""
    name = op["op"]
    if name == "make":
        return [mkspan(op["span"])]
    s = pool[op["i"] - 1]
    if name == "slice":
        return [s[bound(op["a"]):bound(op["b"]):None if op["step"] == 1 else op["step"]]]
    if name == "index":
        return [s[op["k"]]]
    if name == "split":
        sep = "".join(map(chr, op["sep"]))
        return list(s.split() if sep == " " and op.get("default") else s.split(sep))
    if name == "attr":
        attr = NAMES[op["n"]]
        if op.get("via") == "as" and attr != "opaque":
            f = getattr(s, "as_" + attr)
            return [f() if op["on"] and op.get("default") else f(op["on"])]
        return [s.mutate(**{attr: op["on"]})]
    if name == "text":
        return [s.mutate(text="".join(map(chr, op["t"])))]
    if name == "link":
        if op["link"] == "" and op.get("via") == "as" and op["i"] % 2:
            return [s.as_hyperlink()]
        return [s.as_hyperlink(op["link"]) if op.get("via") == "as" else s.mutate(hyperlink=op["link"])]
    if name == "reset":
        return [s.mutate(reset_after=op["on"])]
    if name == "colour":
        c = mkcolor(op["c"], op["back"])
        if op.get("via") == "as" and c is not None:
            if op["c"][3] == 1000 and not op["back"]:
                how = op.get("how", 0)
                if how == 1:
                    return [s.as_color("#%02x%02x%02x" % tuple(op["c"][:3]))]
                if how == 2:
                    return [s.as_color(tuple(op["c"][:3]))]
            return [s.as_color(c)]
        return [s.mutate(**{"background" if op["back"] else "foreground": c})]
    if name == "screen":
        scr = Screen(4, 2)
        scr.write([s, s], cursor=(op["x"], 0))
        scr.write_bulk([((0, 1), [s]), ((0, 1), [s])])
        scr.render((1, 1))
        return []
    if name == "below":
        # a write that starts under the bottom row (what it shows is not judged here)
        scr = Screen(4, 2)
        scr.write([s], cursor=(0, 2))
        scr.render((1, 1))
        return []
    if name == "read":
        chars = s.get_characters(exclude_color=op["ex"], always_include_sequence=op["al"])
        chars.append("junk")
        chars[0] = "junk"
        attrs = s.attrs
        attrs.update(text="junk", bold=True, foreground=None)
        _ = (len(s), "a" in s, repr(s), s == s, hash(s) if op["ex"] else None, s.get_svg_styles(), s.as_svg())
        return []
    raise AssertionError(name)


def run(prog):
    trace = [{"kind": prog["kind"]}]
    if prog["kind"] == "parse":
        return trace + [parse(op) for op in prog["ops"]]
    if prog["kind"] == "print":
        return trace + [show(op) for op in prog["ops"]]
    pool = []
    for op in prog["ops"]:
        if op["op"] != "make" and not 0 < op["i"] <= len(pool):
            op = dict(op, i=(op["i"] - 1) % len(pool) + 1)
        if op["op"] == "index":
            n = len(pool[op["i"] - 1].text)
            if n == 0:
                continue
            if not -n <= op["k"] < n:
                op = dict(op, k=op["k"] % n)
        ev = dict(op, exc="", pool=[], shown=[])
        for k in ("via", "default", "how"):
            ev.pop(k, None)
        try:
            pool = pool + use(pool, op)
            ev["pool"] = [spanrec(s) for s in pool]
            # what the spans show is looked at after every use that makes no span, and at the end
            if op is prog["ops"][-1] or op["op"] in ("screen", "below", "read"):
                ev["shown"] = [{"toks": tokens(str(s), "\t"), "plain": lists(s),
                                "every": lists(s, exclude_color=True, always_include_sequence=True)} for s in pool]
        except Exception as e:
            ev["exc"] = type(e).__name__
        trace.append(ev)
        if ev["exc"]:
            break
    return trace


if __name__ == "__main__":
    main(run)
