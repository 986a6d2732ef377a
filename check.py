#!/usr/bin/env python3
"""check.py <property>: decides one property for the code in /repo (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
from common import MachineryError, Report, Scratch  # noqa: E402

FAMILY = {
    **{p: "fam_screen" for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C21")},
    **{p: "fam_spans" for p in ("C13", "C14", "C15")},
    **{p: "fam_colours" for p in ("C16", "C17", "C19")},
    "C07": "fam_resize",
    "C08": "fam_modes",
    "C09": "fam_modes",
    **{p: "fam_input" for p in ("C10", "C11", "C12")},
    "C18": "fam_space",
    "C22": "fam_query",
    "C20": "fam_event",
    "C23": "fam_cli",
    "C24": "fam_timeout",
}


def main():
    prop = sys.argv[1]
    rep = Report(prop)
    try:
        with Scratch() as workdir:
            importlib.import_module(FAMILY[prop]).run(rep, workdir)
    except MachineryError as e:
        if not rep.violations:
            print(f"MACHINERY-ERROR {prop}: {e}", file=sys.stderr)
            return 2
    except Exception:
        if not rep.violations:
            traceback.print_exc()
            return 2
    return rep.finish()


sys.exit(main())
