"""C13: sessions on different files do not influence each other."""
import importlib
import random

from .. import aafsim, core, runner, threads
from ..core import Violation, mix

RUNS = {"quick": 240, "thorough": 20000}
WALL_CAP = {"quick": 75, "thorough": 3000}
BATCH = 1
MEMORY_MB = 6000
LEVEL = "exploration"
RULE = ("one run = two to four sessions, each a seeded history of another check (compound files, object graphs, faulty and failing sessions, "
        "read-only use, copies, registrations), run in threads of one process under a seeded scheduler that may hand over at every raw I/O "
        "operation and at seeded steps inside the code under test; every session is also run alone in a process of its own; results, logged "
        "values and, where nothing is collected, raw I/O and so the bytes written must be equal; distinct by outcome and schedule digest; "
        "non-trivial = at least one preemption")
STATE_MEASURE = "distinct (kind preempted, kind resumed, place in the code) triples"
ASSUMPTIONS = ["a session (its files and objects) is used from one thread", "one thread runs at a time: handovers happen at raw I/O operations and loop steps"]
SHRINK = ("sessions",)
KINDS = {"c01": 2, "c02": 1, "c03": 2, "c04": 1, "c05": 4, "c07": 3, "c08": 4, "c09": 4, "c11": 2, "c12": 1.5, "c15": 3, "c17": 5}
MODS = {}


def setup():
    aafsim.rich_images()
    for k in KINDS:
        m = MODS[k] = importlib.import_module("sim.props." + k)
        if hasattr(m, "setup"):
            m.setup()


def session(rng, kind, tier, index):
    m = MODS[kind]
    seed = rng.getrandbits(63)
    p = m.generate(random.Random(seed), "quick", index)
    p["seed"] = seed
    n = rng.choice([20, 60]) if kind in ("c01", "c02", "c03", "c04") else rng.choice([3, 6, 12])
    if kind == "c17" and rng.random() < .7:
        # one file, mostly registrations
        p["cfg"] = [dict(p["cfg"][0], third=None)] if rng.random() < .7 else p["cfg"][:1]
        p["ops"] = [o for o in p["ops"] if o[4] == o[5] == 0 or o[4] == 0 and o[0] != "copy"]
    if "ops" in p:
        p["ops"] = p["ops"][:n]
    return {"kind": kind, "plan": p}


def generate(rng, tier, index):
    kinds = sorted(KINDS)
    ws = [KINDS[k] for k in kinds]
    n = rng.choice([2, 2, 2, 3, 4])
    ss = [session(rng, k, tier, index) for k in rng.choices(kinds, ws, k=n)]
    if rng.random() < .3:
        # the same thing twice
        ss[1] = {"kind": ss[0]["kind"], "plan": ss[0]["plan"]}
    elif rng.random() < .4:
        ss[1] = session(rng, ss[0]["kind"], tier, index)
    return {"sessions": ss, "gc": rng.random() < .35,
            "sched": {"seed": rng.getrandbits(32), "io_p": rng.choice([.001, .01, .1, .5, 1]), "burst": rng.choice([0, .5]),
                      "jump_mean": rng.choice([None, 30, 300, 3000, 30000]), "limit": rng.choice([5, 300, 3000])}}


def job(s):
    m = MODS[s["kind"]]

    def go():
        r = runner.execute(m, s["plan"])
        return {"violation": r["violation"], "digest": r.get("digest")}
    return go


class Seen(object):
    def __init__(self, sched):
        self.switches, self.points, self.trace, self.sites = sched.switches, sched.points, sched.trace, sched.sites


def together(jobs, sc):
    sched = threads.Sched(random.Random(sc["seed"]), sc["io_p"], sc["jump_mean"], sc["limit"], sc["burst"])
    got = sched.run(jobs)
    return got, Seen(sched)


def execute(plan, keep_log=False):
    core.GC_ALLOWED = core.IO_IN_DIGEST = True
    if plan["gc"]:
        core.IO_IN_DIGEST = False
    else:
        core.GC_ALLOWED = False
    try:
        jobs = [(s["kind"], "s%d/" % i, job(s)) for i, s in enumerate(plan["sessions"])]
        want = [threads.alone(tag, fn) for _, tag, fn in jobs]
        sc = plan["sched"]
        # in a process of its own as well, so that no run sees what an earlier one left behind
        r = threads.alone("", lambda: together(jobs, sc))
        if isinstance(r, dict):
            raise runner.HarnessError(r["harness"])
        got, sched = r
    finally:
        core.GC_ALLOWED = core.IO_IN_DIGEST = True
    for i, (a, b) in enumerate(zip(want, got)):
        if "harness" in a and "harness" in b:
            raise runner.HarnessError(a["harness"])
        if a != b:
            raise Violation("interference", "session %d (%s): %s alone, %s with %d others after %d handovers" % (
                i, plan["sessions"][i]["kind"], brief(a), brief(b), len(got) - 1, sched.switches))
    st = {"operations": sum(len(s["plan"].get("ops", ())) for s in plan["sessions"]), "handover_points": sched.points, "handovers": sched.switches,
          "probes": {"sessions": len(got), "runs with collection": int(plan["gc"]), "runs with the same session twice":
                     int(any(plan["sessions"][0]["plan"]["seed"] == s["plan"]["seed"] for s in plan["sessions"][1:]))}}
    for s in plan["sessions"]:
        st["probes"]["session " + s["kind"]] = st["probes"].get("session " + s["kind"], 0) + 1
    return {"digest": "%016x" % mix([x.get("digest") for x in got], sched.trace), "stats": st, "states": sorted(sched.sites),
            "nontrivial": sched.switches > 0,
            "sample": {"seed": plan["seed"], "sched": sc, "sessions": [[s["kind"], len(s["plan"].get("ops", ()))] for s in plan["sessions"]],
                       "handovers": sched.trace[:6]},
            "log": [repr(x) for x in sched.trace] if keep_log else None}


def brief(r):
    if "harness" in r:
        return "ended with %s" % r["harness"].strip().split("\n")[-1][:200]
    if r["violation"]:
        return "%s: %s" % (r["violation"][0], r["violation"][1][:200])
    return "result %s" % r["digest"]


def shrink_args(plan):
    sc = plan["sched"]
    for lim in (1, 2, 3, 5, 10, 30, 100, 300, 1000):
        if lim < sc["limit"]:
            yield dict(plan, sched=dict(sc, limit=lim))
    for k, v in (("jump_mean", None), ("io_p", 0), ("burst", 0)):
        if sc[k] != v:
            yield dict(plan, sched=dict(sc, **{k: v}))
    for i, s in enumerate(plan["sessions"]):
        ops = s["plan"].get("ops")
        if not ops:
            continue
        for cut in (ops[:len(ops) // 2], ops[len(ops) // 2:], ops[:-1], ops[1:]):
            if len(cut) < len(ops):
                ss = list(plan["sessions"])
                ss[i] = {"kind": s["kind"], "plan": dict(s["plan"], ops=cut)}
                yield dict(plan, sessions=ss)
