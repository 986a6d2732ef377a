"""Writes spec/ColourTables.tla from the standards (not from the code).

usage: mktables.py css.json   (name -> [r, g, b], the CSS3 named colours)
"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
css = json.load(open(sys.argv[1]))
css.pop("rebeccapurple", None)
css.update(slate=[0x71, 0x7E, 0x8D], zenith=[0x4A, 0x7A, 0x9F], celadon=[0xAF, 0xE1, 0xAF], carmine=[0xD7, 0x00, 0x40])


def lin(c):
    v = c / 255
    return v / 12.92 if v <= 0.04045 else ((v + 0.055) / 1.055) ** 2.4


lum = [round(lin(c) * 1e5) for c in range(256)]
thr = []
for k in range(23):
    lstar = 100 * (k + 0.5) / 23
    y = lstar * 27 / 24389 if lstar <= 8 else ((lstar + 16) / 116) ** 3
    thr.append(round(y * 1e9))


def wrap(items, per):
    return ",\n    ".join(", ".join(items[i:i + per]) for i in range(0, len(items), per))


out = f"""---------------------------- MODULE ColourTables ----------------------------
(***************************************************************************)
(* Tables from the standards, written by harness/mktables.py:              *)
(* Named   the CSS3 colour names and the library's own four                *)
(* Linear  sRGB channel to linear light (IEC 61966-2-1), times 10^5        *)
(* GreyUp  relative luminance, times 10^9, at which the CIE L* lightness   *)
(*         on a scale of 0..23 passes k - 1/2, for k = 1..23               *)
(***************************************************************************)
Named == [
    {wrap([f"{k} |-> <<{v[0]},{v[1]},{v[2]}>>" for k, v in sorted(css.items())], 3)}]

Linear == <<
    {wrap([str(x) for x in lum], 16)}>>

GreyUp == <<
    {wrap([str(x) for x in thr], 8)}>>
=============================================================================
"""
open(os.path.join(V, "spec", "ColourTables.tla"), "w").write(out)
