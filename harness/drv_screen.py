"""Executes screen programs on the real Screen / Terminal and records traces."""
import json
import os

from svg import colour, elements, marks
from tok import tokens

from drvlib import Sink, main, mkcolor, mkspan
from slate.screen import Screen
from slate.terminal import Terminal


class Target:
    def __init__(self, prog):
        self.kind = prog["target"]
        self.origin = tuple(prog["origin"])
        self.size = (prog["w"], prog["h"])
        self.margin = prog["margin"]
        if self.kind == "terminal":
            os.environ["COLUMNS"], os.environ["LINES"] = map(str, self.size)
            self.stream = Sink(prog.get("tty", False))
            self.obj = Terminal(stream=self.stream, **({"origin": self.origin} if self.origin != (1, 1) else {}))
            self.tbg = list(self.obj.background_color.rgb) + [1000]
        else:
            self.obj = Screen(*self.size, cursor=tuple(prog["cur"]), fillchar=chr(prog["fill"]))
            self.tbg = [0, 0, 0, 1000]
        self.spans = {}

    def phys(self):
        w, h = self.size
        return [max(1, w + self.origin[0] - 1 + self.margin[0]), max(1, h + self.origin[1] - 1 + self.margin[1])]

    def taken(self):
        if self.kind != "terminal":
            return ""
        return self.stream.taken()

    def span(self, s):
        # Equal span descriptions share one Span object, as an application would
        key = json.dumps(s)
        if key not in self.spans:
            self.spans[key] = mkspan(s)
        return self.spans[key]

    def data(self, item, via):
        spans = [self.span(s) for s in item["spans"]]
        if via == "str":
            return "".join(map(str, spans))
        return iter(spans) if via == "iter" else spans

    def apply(self, op, ev):
        o = self.obj
        name = op["op"]
        if name == "write":
            kw = {}
            if op.get("force"):
                kw["force_overwrite"] = True
            if op.get("tbg") and self.kind == "screen":
                kw["terminal_background"] = mkcolor(op["tbg"], True)
            if op["via"] != "bulk" and len(op["items"]) == 1:
                item = op["items"][0]
                if item["at"]:
                    kw["cursor"] = tuple(item["at"])
                ev["ret"] = o.write(self.data(item, op["via"]), **kw)
            else:
                ev["ret"] = o.write_bulk(
                    [(tuple(i["at"]) if i["at"] else None, self.data(i, op.get("how", "list"))) for i in op["items"]], **kw)
        elif name == "clear":
            o.clear(chr(op["fill"])) if op["fill"] != 32 else o.clear()
        elif name == "cursor":
            o.cursor = tuple(op["at"])
        elif name == "resize":
            self.size = (op["w"], op["h"])
            if self.kind == "terminal":
                os.environ["COLUMNS"], os.environ["LINES"] = map(str, self.size)
                _ = {0: lambda: o.size, 1: lambda: o.width, 2: lambda: o.height}[op.get("read", 0)]()
            else:
                kw = {}
                if op["fill"] != 32:
                    kw["fillchar"] = chr(op["fill"])
                if not op["keep"]:
                    kw["keep_original"] = False
                o.resize(self.size, **kw)
            ev["pw"], ev["ph"] = self.phys()
        elif name == "draw":
            if self.kind == "terminal":
                o.draw(redraw=True) if op["redraw"] else o.draw()
                return None
            return o.render(origin=self.origin, redraw=True) if op["redraw"] else o.render(self.origin)
        elif name == "svg":
            self.export(op, ev)
        elif name == "spansvg":
            self.export_span(op, ev)
        return None

    def export(self, op, ev):
        o, kw = self.obj, {}
        if op.get("dfg"):
            kw["default_foreground"] = mkcolor(op["dfg"] + [1000], False)
        if op.get("dbg"):
            kw["default_background"] = mkcolor(op["dbg"] + [1000], True)
        if self.kind == "terminal":
            if op.get("size"):      # the terminal changed, and nobody has read its size since
                self.size = tuple(op["size"])
                os.environ["COLUMNS"], os.environ["LINES"] = map(str, self.size)
            ev["w"], ev["h"] = self.size
            ev["pw"], ev["ph"] = self.phys()
            text = o.export_svg(op["fs"], **kw) if op["fs"] != 15 or op.get("say") else o.export_svg(**kw)
            ev["els"], ev["page"] = elements(text, None, (16, 16))
        else:
            if op.get("cls"):
                kw["style_class_template"] = op["cls"]
            text, css = o.export_svg_with_styles(op["fs"], tuple(op["at"]), **kw)
            ev["els"], ev["page"] = elements(text, css, op["at"])

    def export_span(self, op, ev):
        span, kw = self.span(op["span"]), {}
        if op.get("dfg"):
            kw["default_foreground"] = mkcolor(op["dfg"] + [1000], False)
        if op.get("dbg"):
            kw["default_background"] = mkcolor(op["dbg"] + [1000], True)
        css = ""
        styles = span.get_svg_styles()
        ev["css"] = [colour(styles["fill"]) if "fill" in styles else -1, marks(styles)]
        if op["how"] == "inline":
            kw["inline_styles"] = True
        elif op["how"] == "class":
            kw["cls"] = "some"
            css = ".some {" + ";".join(f"{k}: {v}" for k, v in styles.items()) + "}"
        if op["fs"] != 15 or op.get("say"):
            kw["font_size"] = op["fs"]
        if op["at"] != [0, 0]:
            kw["origin"] = tuple(op["at"])
        ev["els"], _ = elements(span.as_svg(**kw), css, op["at"])


def aside(other, op, n):
    """The same on another screen, which must not matter to the one that is judged."""
    if other is None or op["op"] not in ("write", "clear", "draw", "cursor") or n % 3 == 2:
        return
    try:
        other.apply(op, {})
    except Exception:
        pass


def number(c):
    return c[0] * 65536 + c[1] * 256 + c[2]


def run(prog):
    space = os.environ["SLATE_COLORSYS"] = prog.get("space", "true_color")
    t = Target(prog)
    term = t.kind == "terminal"
    pw, ph = t.phys()
    cfg = {"w": prog["w"], "h": prog["h"], "fill": 32 if term else prog["fill"],
           "cur": [0, 0] if term else prog["cur"], "pw": pw, "ph": ph, "target": t.kind, "space": space}
    t.taken()
    other = None
    if prog.get("beside"):
        other = Target({**prog, "target": prog["beside"], "w": prog["w"] + (not term), "cur": [0, 0]})
        other.spans = t.spans
    trace = [cfg]
    for n, op in enumerate(prog["ops"]):
        aside(other, op, n)
        ops = [op]
        if op["op"] == "write" and op["items"] and not op["items"][0]["at"] and not op.get("anyhow"):
            try:
                if not 0 <= t.obj.cursor[1] < t.size[1]:
                    ops.insert(0, {"op": "cursor", "at": [0, 0]})
            except Exception:
                pass
        for op in ops:
            ev = {k: v for k, v in op.items() if k not in ("how", "read", "anyhow", "size", "say", "cls")}
            ev.update(exc="", ret=0, toks=[])
            if op["op"] == "resize":
                ev["pw"], ev["ph"] = 1, 1
                ev["auto"] = term
                if term:
                    ev["fill"], ev["keep"] = 32, True
            if op["op"] == "write":
                ev["tbg"] = (op.get("tbg") or t.tbg) if not term else t.tbg
                ev["force"] = bool(op.get("force"))
                ev["items"] = op["items"]
            if op["op"] in ("svg", "spansvg"):
                spare = op["op"] == "spansvg"
                ev.update(els=[], css=[-2, []], page={"w": 0, "h": 0, "box": [], "font": 0}, auto=term, w=t.size[0], h=t.size[1], pw=1, ph=1)
                ev["dfg"] = number(op.get("dfg") or ([0xDD] * 3 if spare else list(t.obj.foreground_color.rgb)))
                ev["dbg"] = number(op.get("dbg") or ([0x21] * 3 if spare else list(t.obj.background_color.rgb)))
            if op["op"] == "draw":
                ev["origin"] = list(t.origin)
            try:
                text = t.apply(op, ev)
                if not isinstance(ev["ret"], int):
                    ev["ret"] = -1
                ev["toks"] = tokens(text if text is not None else t.taken())
            except Exception as e:  # judged by the specification
                ev["exc"] = type(e).__name__
                t.taken()
            try:
                ev["cur"] = [int(v) for v in t.obj.cursor]
            except Exception as e:
                ev["cur"] = []
            trace.append(ev)
            if ev["exc"]:
                return trace
    return trace


main(run)
