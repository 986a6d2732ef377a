"""Purely lexical split of a terminal stream into the tokens of spec/Ansi.tla."""
import re

_RE = re.compile(
    r"\x1b\[(?P<csi>[0-?]*)(?P<inter>[ -/]*)(?P<fin>[@-~])"
    r"|\x1b\](?P<osc>[^\x07\x1b]*)(?:\x07|\x1b\\)"
    r"|\x1b[PX^_](?P<str>[^\x1b]*)\x1b\\"
    r"|\x1b(?P<esc>.)"
    r"|(?P<ctl>[\x00-\x1f\x7f])",
    re.S,
)


def _ints(body):
    out = []
    for part in re.split(r"[;:]", body):
        if part == "":
            out.append(0)
        elif part.isascii() and part.isdigit() and len(part) < 9:
            out.append(int(part))
        else:
            out.append(-1)
    return out


def _csi(body, inter, fin):
    if not inter:
        if fin == "m" and body[:1] not in ("?", "<", "=", ">"):
            return ["m", _ints(body)]
        if fin in "Hf" and (body == "" or body[0] not in "?<=>"):
            ps = (_ints(body) + [0, 0])[:2]
            return ["H", ps[0], ps[1]]
        if fin in "ABCDEFGd" and (body == "" or body.isdigit()):
            return ["C", fin, max(1, int(body or 1))]
        if fin in "hl" and body[:1] == "?":
            return [["D", n, int(fin == "h")] for n in _ints(body[1:])]
        if fin == "t" and body[:1] not in ("?", "<", "=", ">"):
            return ["W", _ints(body)]
    return ["X", "CSI " + body + inter + fin]


def tokens(text, glyphs=""):
    """The tokens of `text`; control characters in `glyphs` count as printable."""
    if glyphs:
        parts = re.split("([" + glyphs + "]+)", text)
        toks = []
        for k, part in enumerate(parts):
            for tok in [["t", [ord(c) for c in part]]] if k % 2 else tokens(part):
                if tok[0] == "t" and toks and toks[-1][0] == "t":
                    toks[-1][1].extend(tok[1])
                else:
                    toks.append(tok)
        return toks
    toks = []
    pos = 0

    def put(tok):
        toks.append(tok)

    for m in _RE.finditer(text):
        if m.start() > pos:
            put(["t", [ord(c) for c in text[pos : m.start()]]])
        pos = m.end()
        if m["fin"] is not None:
            tok = _csi(m["csi"], m["inter"], m["fin"])
            if tok and isinstance(tok[0], list):
                toks.extend(tok)
            else:
                put(tok)
        elif m["osc"] is not None:
            code, _, rest = m["osc"].partition(";")
            if code in ("0", "2"):
                put(["T", rest])
            elif code == "8":
                put(["L", rest.partition(";")[2]])
            else:
                put(["X", "OSC " + m["osc"]])
        elif m["str"] is not None:
            put(["X", "STR"])
        elif m["esc"] is not None:
            put(["X", "ESC " + (m["esc"] if m["esc"].isprintable() else "?")])
        else:
            c = m["ctl"]
            put({"\n": ["N"], "\r": ["R"], "\x07": ["B"]}.get(c, ["X", "C0 %02x" % ord(c)]))
    if pos < len(text):
        put(["t", [ord(c) for c in text[pos:]]])
    return toks
