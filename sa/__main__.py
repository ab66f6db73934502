import os
import sys

from .check import run
from . import catalog


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        else:
            ids.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if ids == ["all"]:
        ids = [p["id"] for p in catalog.P]
    if not ids:
        print("usage: python3 -m sa <property id>... [--tier quick|thorough]")
        return 2
    return max(run(i, tier, seed) for i in ids)


sys.setrecursionlimit(10000)
sys.exit(main(sys.argv[1:]))
