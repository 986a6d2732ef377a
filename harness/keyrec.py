"""A key, for the traces."""


def codes(value):
    return [ord(c) for c in value] if isinstance(value, str) else [-1]


def keyrec(key):
    values = list(key)
    return {
        "kind": "key", "s": [v if isinstance(v, str) and v.isascii() and v.isprintable() else "" for v in values],
        "c": [codes(v) for v in values], "eqs": [bool(key == v) for v in values],
        "odd": any(key == v for v in ("".join(values) + "x", "no such key", 5, None, ("a",),
                                          *({w for v in values if isinstance(v, str) for w in (v.swapcase(), v + " ", " " + v, v[1:])} - {*values}))),
        "str": codes(str(key)), "iter": [codes(v) for v in iter(key)],
    }
