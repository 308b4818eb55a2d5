import importlib
import json
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa: E402,F401
from mc import core  # noqa: E402


def all_checks():
    import mc.checks
    found = {}
    for m in pkgutil.iter_modules(mc.checks.__path__):
        mod = importlib.import_module("mc.checks." + m.name)
        for c in getattr(mod, "CHECKS", []):
            assert c.ID not in found, c.ID
            found[c.ID] = c
    return found


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = all_checks()[pid]
    if len(argv) > 2 and argv[1] == "--replay":
        doc = json.load(open(argv[2]))
        return core.run_check(check, tier, seed, only_case=doc["case"])
    return core.run_check(check, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
