#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property by static analysis of /repo."""
import importlib
import os
import sys
import warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import check as C  # noqa: E402


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    m = importlib.import_module("props." + prop.lower())
    return C.run(prop, m.check, tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
