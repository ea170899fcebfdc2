#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: see DESIGN.md and MANIFEST.json."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import common  # noqa: E402
import findings  # noqa: E402

MODULE = {}
for module, props in {
        "templates": "P02 P03 P04 P05 P06 P07 P08", "sync": "P01", "refs": "P09 P10 P11", "backend": "P12 P13",
        "workspace": "P14 P16 P19 P22 P23", "debounce": "P15", "queues": "P17", "robust": "P18", "config": "P20",
        "node": "P21", "life": "P24", "editor": "P25"}.items():
    for p in props.split():
        MODULE[p] = module


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        common.build()
        c = importlib.import_module(MODULE[prop]).check(prop, tier)
        findings.reproduce(c)
        return c.finish()
    except common.Broken as e:
        print("no answer:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
