#!/opt/venv/bin/python -B
"""check.py <property id>: run one property's check (tier from VERIF_TIER)."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), os.path.join(os.path.dirname(HERE), "shims")]

import vcommon  # noqa


MODULES = ["storechecks", "examplechecks", "kelchecks", "telchecks", "subchecks", "replychecks", "keepchecks", "habchecks", "streamchecks", "bodychecks", "tholdchecks"]


def find(prop):
    import importlib
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.CHECKS:
            return mod.CHECKS[prop]
    raise SystemExit("no check for " + prop)


if __name__ == "__main__":
    p = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(vcommon.main(p, find(p)))
