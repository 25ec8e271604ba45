#!/usr/bin/env python3
"""Decide one property of the current /repo tree:  run.py <property id> [quick|thorough]"""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    os.environ.setdefault("VERIF_TIER", "quick")
    t0 = time.time()
    from props import common, registry
    mod, fn, meta = registry.CHECKS[prop]
    rep = common.Report(prop)
    try:
        getattr(importlib.import_module("props." + mod), fn)(rep)
    except common.Broken as e:
        print("%s: analysis broken: %s" % (prop, e))
        if rep.viol:
            return common.finish(rep, meta, t0)
        return 2
    except common.extract.ExtractError as e:
        print("%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return common.finish(rep, meta, t0)


if __name__ == "__main__":
    sys.exit(main())
