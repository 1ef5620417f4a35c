#!/usr/bin/env python
"""Runs the check of one property: run.py Cxx [--replay FILE] [--only scenario,...]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import mon.boot  # noqa: F401
    from mon.core import run_check

    module = importlib.import_module("checks." + a.property.lower())
    only = a.only.split(",") if a.only else None
    return run_check(module, a.property, tier, abs(seed), a.replay, only, a.scale)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
