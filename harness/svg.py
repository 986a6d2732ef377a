"""An exported SVG as the list of what it paints, in thousandths of a pixel."""
import re
import xml.etree.ElementTree as ET

NS = "{http://www.w3.org/2000/svg}"
STYLES = {("font-weight", "bold"): 1, ("opacity", "0.7"): 2, ("font-style", "italic"): 3}


def milli(v):
    return round(float(str(v).removesuffix("px")) * 1000)


def colour(v):
    assert re.fullmatch("#[0-9a-fA-F]{6}", v), v
    return int(v[1:], 16)


def declarations(css):
    out = {}
    for part in css.split(";"):
        if part.strip():
            k, v = part.split(":", 1)
            out[k.strip()] = v.strip()
    return out


def sheet(css):
    """Rules by selector, later ones over earlier ones."""
    rules = {}
    css = re.sub(r"/\*.*?\*/", "", css, flags=re.S)
    for sel, body in re.findall(r"([^{}]+)\{([^{}]*)\}", css):
        rules.setdefault(sel.strip(), {}).update(declarations(body))
    return rules


SPACE = "{http://www.w3.org/XML/1998/namespace}space"


def shown(text, kept):
    """The characters a renderer shows; ordinary blanks collapse unless the image says otherwise."""
    return text if kept else re.sub("[ \t\r\n]+", " ", text).strip(" ")


def marks(props):
    """The styles that CSS properties give a text."""
    st = {n for (k, v), n in STYLES.items() if props.get(k) == v}
    lines = props.get("text-decoration", "").split()
    return sorted(st | ({4} if "underline" in lines else set()) | ({9} if "line-through" in lines else set()))


def styled(el, rules, origin, kept):
    props = {"fill": el.get("fill")}
    props.update({k: v for k, v in rules.get("text", {}).items() if k in ("fill", "opacity", "font-weight", "font-style", "text-decoration", "white-space")})
    for cls in (el.get("class") or "").split():
        props.update(rules.get("." + cls, {}))
    props.update(declarations(el.get("style") or ""))
    kept = kept or props.get("white-space") in ("pre", "pre-wrap", "break-spaces")
    x, y = origin
    assert el.get("dy") == "-0.25em", el.get("dy")
    return {"k": "t", "x": milli(el.get("x", 0)) + x, "y": milli(el.get("y", 0)) + y, "fill": colour(props["fill"]),
            "st": marks(props), "t": [ord(c) for c in shown("".join(el.itertext()), kept)]}


def elements(text, css="", origin=(0, 0)):
    """The elements of an image (or of a piece of one), relative to the origin, and the page."""
    root = ET.fromstring(text.strip() if css is None else f"<svg xmlns='http://www.w3.org/2000/svg'>{text}</svg>")
    rules = sheet(css if css is not None else "".join(s.text or "" for s in root.iter(NS + "style")))
    out = []

    def walk(el, dx, dy, kept):
        m = re.fullmatch(r"\s*translate\(\s*([-\d.]+)[\s,]+([-\d.]+)\s*\)\s*", el.get("transform") or "")
        assert m or not el.get("transform"), el.get("transform")
        if m:
            dx, dy = dx + milli(m[1]), dy + milli(m[2])
        kept = {"preserve": True, "default": False}.get(el.get(SPACE), kept)
        tag = el.tag.removeprefix(NS)
        if tag == "rect":
            out.append({"k": "r", "x": milli(el.get("x", 0)) + dx, "y": milli(el.get("y", 0)) + dy, "w": milli(el.get("width")),
                        "h": milli(el.get("height")), "fill": colour(el.get("fill"))})
        elif tag == "text":
            out.append(styled(el, rules, (dx, dy), kept))
        else:
            assert tag in ("svg", "g", "style"), tag
            for child in el:
                walk(child, dx, dy, kept)

    walk(root, -origin[0] * 1000, -origin[1] * 1000, False)
    page = {"w": 0, "h": 0, "box": [], "font": 0}
    if css is None:
        page = {"w": milli(root.get("width")), "h": milli(root.get("height")), "box": [milli(v) for v in root.get("viewBox").split()],
                "font": milli(rules.get("text", {}).get("font-size", "0"))}
    return out, page
