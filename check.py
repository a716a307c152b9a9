#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--tier quick|thorough]   decide one property on /repo's current source"""
import importlib
import os
import pkgutil
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import checks  # noqa
from sa import report  # noqa

for m in pkgutil.iter_modules(checks.__path__):
    importlib.import_module("checks." + m.name)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    if argv == ["--selftest"]:
        from sa.prog import Program
        n = sum(1 for _ in Program().all_funcs())
        print(f"analyser ready: {len(report.REG)} checks, {n} functions parsed")
        return 0
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        else:
            ids.append(argv[i])
        i += 1
    if ids == ["all"]:
        ids = sorted(report.REG)
    rc = 0
    for p in ids:
        r = report.run(p, tier)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
