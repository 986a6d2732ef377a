"""C16, C17, C19: colours."""
import gen_colours as g
import gen_screen
from common import model_check, seed, tier, validate


def run(rep, workdir):
    quick = tier() == "quick"
    model_check(rep, workdir, "MCColours", "MCColours.cfg", env={"TIER": tier()}, workers=6)
    grid = [0, 51, 85, 128, 170, 204, 255] if quick else list(range(0, 256, 15))
    if rep.prop == "C16":
        progs = g.programs_c16(6000 if quick else 150000, seed())
    elif rep.prop == "C17":
        progs = g.programs_c17(800 if quick else 15000, seed(), grid)
    else:
        progs = g.programs_c19(10000 if quick else 200000, seed(), grid)
    validate(rep, workdir, "TraceColours", progs, "drv_colours.py", timeout=600, tlc_timeout=6000)
    if rep.prop == "C17":       # and what a screen sends
        validate(rep, workdir, "TraceScreen", gen_screen.programs("C17", 400 if quick else 8000, seed(), nops=10, big=False),
                 "drv_screen.py", timeout=600, tlc_timeout=6000)
    rep.assumptions += [
        "luminance and lightness are compared with a slack of 6e-6 (tables in spec/ColourTables.tla)",
        "the colour space of the module-level terminal is the one in force",
    ]
