"""Questions to a terminal, and the bytes of its replies."""
import re

QUESTION = re.compile(r"\x1b\](10|11);\?(?:\x1b\\|\x07)|\x1b\[(14)t|\x1b\[\?(2026)\$p")


def reply(q, r, n):
    """The bytes of a reply."""
    k = r["k"]
    if k == "rgb":
        return "\x1b]%s;rgb:%04x/%04x/%04x\x1b\\" % (q, *r["v"])
    if k == "px":
        return "\x1b[4;%d;%dt" % tuple(r["v"])
    if k == "mode":
        return "\x1b[?2026;%d$y" % r["v"][0]
    if k == "bad":
        return BAD[q][n % len(BAD[q])]
    return None


BAD = {
    "10": ["x", "\x1b]10;rgb:12/34\x1b\\", "\x1b]10;rgb:zzzz/0000/0000\x1b\\", "\x1b[?1;2c", "\x1b]10;?\x1b\\", "\x1b]10;rgb:1234/5678",
           "\x1b[A", "\x1b]4;1;rgb:1111/2222/3333\x1b\\", "\x1b]10;#123456\x1b\\", "\u00e9\u4e16", "\x1b", "\x1b]10;rgb:1234/5678/\x1b\\"],
    "11": ["y", "\x1b]11;rgb:12/34\x1b\\", "\x1b]11;rgb:gggg/0000/0000\x1b\\", "\x1b[?62;c", "\x1b]11;\x1b\\", "\x1b]11;rgb:",
           "\x1b[1;5A", "\x1b]12;rgb:1111/2222/3333\x1b\\", "\x1b]11;black\x1b\\", "\x1b[<0;1;1M"],
    "14": ["z", "\x1b[4;t", "\x1b[4;12t", "\x1b[8;24;80t", "\x1b[4;;t", "\x1b[4;a;bt", "\x1b[4;12;34", "\x1b[?1;2c", "\x1b[4;-1;5t", "\x1b",
           "\x1b]4;1;2\x1b\\"],
    "2026": ["w", "\x1b[?2026;$y", "\x1b[?2026$y", "\x1b[?2027;2$y", "\x1b[2026;2$y", "\x1b[?2026;2", "\x1b", "\x1b[A", "\x1b[?2026;22$y"],
}
