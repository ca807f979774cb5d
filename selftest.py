#!/usr/bin/env python3
"""Determinism self-test: the same seeds, run twice in different processes, worker counts and hash seeds, must give
the same event-log digests.  --quick: a smoke test used by setup_cmd."""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def child(prop, runs, workers, seed):
    from sim import runner
    dg = {}
    runner.VERIF = os.environ["VERIF_SELFTEST_DIR"]
    rc, out = runner.check(prop, "quick", seed, workers=workers, runs=runs, quiet=True, digests=dg)
    print("DIGESTS " + json.dumps([rc, sorted(dg.items())]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--quick", action="store_true")
    ap.add_argument("--runs", type=int, default=200)
    ap.add_argument("--child", nargs=4)
    ap.add_argument("props", nargs="*")
    a = ap.parse_args()
    if a.child:
        child(a.child[0], int(a.child[1]), int(a.child[2]), int(a.child[3]))
        return 0
    import tempfile
    import shutil
    props = a.props or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    runs = a.runs
    if a.quick:
        runs = 16
    bad = 0
    tmp = tempfile.mkdtemp(prefix="verif-selftest-")
    try:
        shutil.copy(os.path.join(HERE, "known_findings.json"), tmp) if os.path.exists(os.path.join(HERE, "known_findings.json")) else None
        for p in props:
            ref = None
            combos = [(8, "0"), (3, "12345")] if a.quick else [(8, "0"), (3, "12345"), (1, "777"), (5, "random")]
            for workers, hs in combos:
                env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_SELFTEST_DIR=tmp, VERIF_KEEP_HASHSEED="1")
                r = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", p, str(runs), str(workers), "1"],
                                   env=env, stdout=subprocess.PIPE, text=True)
                line = [l for l in r.stdout.splitlines() if l.startswith("DIGESTS ")]
                got = line[0] if line else "no output (rc %d)\n%s" % (r.returncode, r.stdout[-2000:])
                if ref is None:
                    ref = got
                    if not line:
                        bad += 1
                        print(p, got)
                elif got != ref:
                    bad += 1
                    print("NONDETERMINISTIC %s workers=%d hashseed=%s" % (p, workers, hs))
            if not a.quick:
                print(p, "deterministic" if not bad else "see above", flush=True)
    finally:
        shutil.rmtree(tmp)
    if a.quick:
        # a smoke test only: what the code under test does is for the checks to judge
        print("setup ok" if not bad else "setup finished with remarks")
        return 0
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
