"""Seeded search: batches of runs in forked workers, minimisation, replay, evidence."""
import gc
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mono():
    return time.monotonic()


class HarnessError(Exception):
    pass


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def run_seed(prop, master, index):
    from .core import mix
    return mix("run", prop, master, index)


def execute(mod, plan, keep_log=False):
    """Execute one plan. Returns result dict; never raises for a violation."""
    from . import core
    try:
        res = mod.execute(plan, keep_log) if keep_log else mod.execute(plan)
        res.setdefault("violation", None)
        for k in ("image", "lines"):
            res.pop(k, None)
    except core.Violation as v:
        res = {"violation": [v.cls, v.detail]}
        last = getattr(mod, "LAST_WORLD", None)
    except core.StepLimit as e:
        res = {"violation": ["unbounded-work", str(e)]}
    except MemoryError as e:
        res = {"violation": ["unbounded-memory", "MemoryError in %s" % core.where(e)]}
    except RecursionError as e:
        if core.from_code_under_test(e):
            res = {"violation": ["unbounded-recursion", core.where(e)]}
        else:
            raise
    except (Exception,) as e:
        # the check modules call the library through core.lib; whatever else escapes from the
        # code under test is an exception nobody asked for
        if not core.from_code_under_test(e):
            raise
        res = {"violation": ["unexpected-exception", "%s: %s (in %s)" % (type(e).__name__, str(e)[:200], core.where(e))]}
    core.CURRENT = None
    return res


def limit_memory(mod):
    mb = getattr(mod, "MEMORY_MB", 3000)
    if mb:
        resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))


def _child(mod, prop, master, tier, indices, wfd, stop_at):
    """Runs in a forked worker."""
    out = {"results": [], "error": None}
    try:
        limit_memory(mod)
        for i in indices:
            seed = run_seed(prop, master, i)
            t0 = time.perf_counter()
            plan = mod.generate(random.Random(seed), tier, i)
            plan["seed"] = seed
            res = execute(mod, plan)
            res["index"] = i
            res["wall"] = time.perf_counter() - t0
            if res["violation"]:
                res["plan"] = plan
            out["results"].append(res)
            if res["violation"]:
                break
            gc.collect()
    except BaseException as e:  # harness error
        out["error"] = "index %r: %s" % (i, traceback.format_exc())
    data = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


class Pool(object):
    def __init__(self, mod, prop, master, tier, workers, batch_timeout):
        self.mod, self.prop, self.master, self.tier = mod, prop, master, tier
        self.workers = workers
        self.timeout = batch_timeout
        self.live = {}      # fd -> (pid, indices, start, chunks)

    def spawn(self, indices):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for fd in list(self.live):
                    os.close(fd)
                _child(self.mod, self.prop, self.master, self.tier, indices, w, None)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.live[r] = (pid, indices, mono(), [])

    def poll(self):
        """Wait for something; yields finished (indices, out or None, why)."""
        fds = list(self.live)
        ready, _, _ = select.select(fds, [], [], 1.0)
        done = []
        for fd in ready:
            pid, indices, t0, chunks = self.live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                chunks.append(b)
                continue
            os.close(fd)
            del self.live[fd]
            _, status = os.waitpid(pid, 0)
            data = b"".join(chunks)
            if not data:
                done.append((indices, None, "worker died with status %d" % status))
            else:
                done.append((indices, pickle.loads(data), None))
        now = mono()
        for fd, (pid, indices, t0, chunks) in list(self.live.items()):
            if now - t0 > self.timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del self.live[fd]
                done.append((indices, None, "wall-clock watchdog after %d s" % self.timeout))
        return done

    def kill(self):
        for fd, (pid, indices, t0, chunks) in list(self.live.items()):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
        self.live = {}


def fork_execute(mod, plans, timeout=120):
    """Execute plans in order in a fresh fork; returns the last result (or the first violating)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            limit_memory(mod)
            try:
                res = None
                for p in plans:
                    res = execute(mod, p)
                    if res["violation"]:
                        break
                    gc.collect()
                out = {"res": res, "error": None}
            except BaseException:
                out = {"res": None, "error": traceback.format_exc()}
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    t0 = mono()
    ok = True
    while True:
        left = timeout - (mono() - t0)
        if left <= 0:
            ok = False
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            ok = False
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    if not ok or not chunks:
        return {"violation": None, "harness": "timeout or death"}
    out = pickle.loads(b"".join(chunks))
    if out["error"]:
        return {"violation": None, "harness": out["error"]}
    return out["res"]


def minimise(mod, plans, vclass, budget_s):
    """Delta-debug the operation list of the last plan (and drop earlier plans)."""
    end = mono() + budget_s
    tried = [0]

    def fails(ps):
        tried[0] += 1
        r = fork_execute(mod, ps, timeout=60)
        return bool(r["violation"]) and r["violation"][0] == vclass

    # drop preceding plans
    if len(plans) > 1 and fails(plans[-1:]):
        plans = plans[-1:]
    i = 0
    while len(plans) > 1 and i < len(plans) - 1 and mono() < end:
        cand = plans[:i] + plans[i + 1:]
        if fails(cand):
            plans = cand
        else:
            i += 1
    plan = plans[-1]
    keys = getattr(mod, "SHRINK", ("ops",))
    for key in keys:
        if key not in plan:
            continue
        ops = list(plan[key])
        n = 2
        while len(ops) >= 1 and mono() < end:
            chunk = max(1, len(ops) // n)
            reduced = False
            s = 0
            while s < len(ops) and mono() < end:
                cand = ops[:s] + ops[s + chunk:]
                p2 = dict(plan)
                p2[key] = cand
                if fails(plans[:-1] + [p2]):
                    ops = cand
                    plan = p2
                    reduced = True
                else:
                    s += chunk
            if chunk == 1 and not reduced:
                break
            if not reduced:
                n = min(len(ops), n * 2)
            else:
                n = max(2, n - 1) if chunk > 1 else n
                if chunk == 1:
                    continue
            if n > len(ops):
                n = max(1, len(ops))
    shrink_args = getattr(mod, "shrink_args", None)
    if shrink_args:
        changed = True
        while changed and mono() < end:
            changed = False
            for cand in shrink_args(plan):
                if mono() >= end:
                    break
                if fails(plans[:-1] + [cand]):
                    plan = cand
                    changed = True
                    break
    return plans[:-1] + [plan], tried[0]


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            dst[k] = dst.get(k, 0) + v


def prepare(mod):
    """the base images the runs start from are made by the library: making them can already show a violation"""
    from . import core
    if not hasattr(mod, "setup"):
        return None
    try:
        mod.setup()
    except core.Violation as e:
        return "setup:" + e.cls, e.detail
    except Exception as e:
        import traceback
        files = [x.filename for x in traceback.extract_tb(e.__traceback__)]
        if not any(os.sep + "aaf2" + os.sep in x for x in files):
            raise
        return "setup:unexpected-exception", "making the base images raised %s: %s" % (type(e).__name__, str(e)[:200])
    gc.collect()
    gc.freeze()
    return None


def setup_failed(prop, tier, master, vclass, detail):
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d.json" % (prop, tier, master))
    with open(rp, "w") as f:
        json.dump({"property": prop, "class": vclass, "detail": detail, "master_seed": master, "tier": tier, "setup": True, "plans": []}, f, indent=1)
    print("violation while making the base images (fixed seeds): %s: %s" % (vclass, detail))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1, {"prop": prop, "evaluations": 0, "wall": 0, "capped": False}


def check(prop, tier, master, workers=None, runs=None, wall_cap=None, quiet=False, digests=None):
    from . import core
    t0 = mono()
    core.install()
    mod = load(prop)
    bad = prepare(mod)
    stale = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d.json" % (prop, tier, master))
    if os.path.exists(stale):
        os.unlink(stale)
    if bad:
        return setup_failed(prop, tier, master, *bad)
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    total = runs if runs is not None else mod.RUNS[tier]
    cap = wall_cap or (getattr(mod, "WALL_CAP", {}).get(tier) or (300 if tier == "quick" else 3000))
    batch = getattr(mod, "BATCH", 10)
    pool = Pool(mod, prop, master, tier, workers, 400 if tier == "quick" else 1200)
    known = known_findings(prop)
    agg = {"probes": {}, "faults": {}, "disk": {}}
    evals = 0
    digset = set()
    nontrivial = 0
    states = set()
    samples = []
    best = None         # (index, res)
    nxt = 0
    capped = False
    errors = []
    while True:
        while len(pool.live) < workers and nxt < total and len(errors) < 5:
            if best is not None and nxt > best["index"]:
                break
            if mono() - t0 > cap:
                capped = True
                break
            idx = list(range(nxt, min(total, nxt + batch)))
            nxt += batch
            pool.spawn(idx)
        if not pool.live:
            break
        for indices, out, why in pool.poll():
            if out is None or out["error"]:
                errors.append(why or out["error"])
                continue
            for r in out["results"]:
                if r.get("violation"):
                    if best is None or r["index"] < best["index"]:
                        r["prior"] = [i for i in indices if i < r["index"]]
                        best = r
                    continue
                evals += 1
                merge(agg, r.get("stats", {}))
                d = r.get("digest")
                if digests is not None:
                    digests[r["index"]] = d
                if d not in digset:
                    digset.add(d)
                    if r.get("nontrivial", True):
                        nontrivial += 1
                for s in r.get("states", ()):
                    states.add(s)
                if len(samples) < 3 and r.get("sample"):
                    samples.append(r["sample"])
        if len(errors) >= 5:
            pool.kill()
            break
    wall = mono() - t0
    out = {"prop": prop, "evaluations": evals, "wall": wall, "capped": capped}
    if errors and best is None:
        print("ERROR property=%s harness failure: %s" % (prop, errors[0]))
        return 2, out
    rc = 0
    viol = 0
    if best is not None:
        viol = 1
        rc = 1
        vclass, detail = best["violation"]
        plan = best["plan"]
        plans = [plan]
        r = fork_execute(mod, plans)
        if not r["violation"] or r["violation"][0] != vclass:
            prior = []
            for i in best["prior"]:
                s = run_seed(prop, master, i)
                p = mod.generate(random.Random(s), tier, i)
                p["seed"] = s
                prior.append(p)
            plans = prior + [plan]
            r = fork_execute(mod, plans)
            if not r["violation"]:
                print("ERROR property=%s run %d violated (%s: %s) but does not replay" % (prop, best["index"], vclass, detail))
                return 2, out
        mb = 60 if tier == "quick" else 300
        plans, tried = minimise(mod, plans, vclass, float(os.environ.get("VERIF_MIN_BUDGET", mb)))
        r = fork_execute(mod, plans)
        if r["violation"]:
            vclass, detail = r["violation"]
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d.json" % (prop, tier, master))
        with open(rp, "w") as f:
            json.dump({"property": prop, "class": vclass, "detail": detail, "master_seed": master, "tier": tier,
                       "run_index": best["index"], "run_seed": best["plan"]["seed"],
                       "minimisation_runs": tried, "plans": plans}, f, indent=1)
        print("violation in run %d (seed %d): %s: %s" % (best["index"], best["plan"]["seed"], vclass, detail))
        for k in getattr(mod, "SHRINK", ("ops",)):
            if k in plans[-1]:
                print("minimised to %d %s after %d replays" % (len(plans[-1][k]), k, tried))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for k in known:
        # a listed finding is re-demonstrated on every run
        kp = json.load(open(os.path.join(VERIF, k["replay"])))
        r = fork_execute(mod, kp["plans"])
        if r["violation"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    probes = agg.pop("probes", {})
    faults = agg.pop("faults", {})
    level = getattr(mod, "LEVEL", "exploration")
    ev = {
        "property": prop, "tier": tier, "seed": master, "level": level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs_per_hour": int(evals / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(evals / max(wall, 1e-9) * 3600),
            "fault_kinds_fired": faults,
            "probes": probes,
            "distinct_states": len(states),
            "state_measure": getattr(mod, "STATE_MEASURE", "distinct event-log digests"),
            "totals": agg,
            "components_real": getattr(mod, "REAL", ["aaf2 (all modules)", "io.Buffered* classes"]),
            "components_stubbed": getattr(mod, "STUBS", ["raw file and disk", "os.urandom", "datetime.now", "gc instants", "cache capacities"]),
            "stopped_at_wall_cap": capped,
            "workers": workers,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if not quiet:
        print("%s %s seed=%d: %d runs, %d distinct non-trivial, %d states, %.1f s%s" % (
            prop, tier, master, evals, nontrivial, len(states), wall, " (wall cap)" if capped else ""))
    if rc == 0 and evals == 0:
        print("ERROR property=%s nothing was evaluated" % prop)
        return 2, out
    return rc, out


def replay(path):
    from . import core
    core.install()
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    bad = prepare(mod)
    if bad:
        print("replayed: %s: %s" % bad)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if d.get("setup"):
        print("replay: no violation")
        return 0
    r = fork_execute(mod, d["plans"])
    if r.get("harness"):
        print("ERROR replay: %s" % r["harness"])
        return 2
    if r["violation"]:
        print("replayed: %s: %s" % tuple(r["violation"]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("replay of %s does not violate %s" % (path, d["property"]))
    return 0
