"""Writes spec/KeyTable.tla: the key names the library documents, as sequences of codes.

Run once on the reviewed tree; the result is committed and is the oracle from then on.
"""
import os
import sys

sys.path.insert(0, "/repo")
from slate.key_names import NT_KEY_NAMES, POSIX_KEY_NAMES  # noqa: E402


def rows(table):
    return ",\n".join("    <<<<%s>>, <<%s>>>>" % (", ".join(str(ord(c)) for c in seq), ", ".join('"%s"' % n for n in names))
                      for seq, names in table.items())


path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "KeyTable.tla")
with open(path, "w") as f:
    f.write("------------------------------ MODULE KeyTable ------------------------------\n")
    f.write("(* Key sequences (as character codes) and the names of the keys, the first  *)\n(* one being how the key prints.                                            *)\n")
    f.write("KeyTable == <<\n" + rows(POSIX_KEY_NAMES) + "\n>>\n")
    f.write("\n(* The same for Windows, where the prefix 224 of the console is read as 27.  *)\n")
    f.write("NtTable == <<\n" + rows(NT_KEY_NAMES) + "\n>>\n")
    f.write("=============================================================================\n")
