#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--runs N] [--workers N] | check.py --replay FILE"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


if not os.environ.get("VERIF_KEEP_HASHSEED") and os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from sim import runner
    if a.replay:
        return runner.replay(a.replay)
    rc, _ = runner.check(a.prop, a.tier, a.seed, workers=a.workers, runs=a.runs, wall_cap=a.wall)
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
