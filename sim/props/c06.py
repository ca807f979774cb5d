"""C06: collection instants and cache capacities change nothing."""
from .. import aafsim, cfbsim, refcfb
from ..core import Violation, mix
from . import c05

RUNS = {"quick": 170, "thorough": 12000}
WALL_CAP = {"quick": 100, "thorough": 3000}
BATCH = 5
RULE = ("one run = one seeded history (stream/namespace API or object API) executed under 3 policies that differ only in what the simulator "
        "decides about memory: which objects the program keeps, collection at seeded steps inside the code under test, and the capacity of "
        "every internal cache (1 upwards); each execution is checked against the model, and the histories of results and the final files "
        "of the 3 are compared; distinct by event-log digests; non-trivial = at least 5 operations executed")
STATE_MEASURE = "distinct model states (tree shape or class census) at verification points"
ASSUMPTIONS = ["collections happen at loop steps of the code under test, at most 80 per execution",
               "identity of live objects is not compared, only their contents"]
SHRINK = ("ops", "policies")


def setup():
    c05.setup()


def generate(rng, tier, index):
    aaf = rng.random() < .5
    if aaf:
        cfg = aafsim.gen_cfg(rng, .1)
        ops = aafsim.gen_ops(rng, rng.choice([4, 10, 20, 40]))
    else:
        cfg = cfbsim.gen_cfg(rng)
        cfg["strict"] = False
        ops = cfbsim.Gen(rng, cfbsim.W_ALL).ops(rng.choice([10, 30, 60]))
    base = {"cache": None, "gc_mean": None, "hold": 1, "gc_every": 0}
    pol = [base]
    for i in range(2):
        pol.append({"cache": rng.choice([1, 1, 2, 3, 5, 8, 20, None]), "gc_mean": rng.choice([None, 100, 1000, 5000, 30000]) if not aaf else
                    rng.choice([None, 3000, 20000, 100000]), "hold": rng.choice([0, 0, .1, .5]), "gc_every": rng.choice([0, 1, 2, 5]), "policy": i + 1})
    return {"aaf": aaf, "cfg": cfg, "policies": pol, "ops": ops}


def tree(data):
    r = refcfb.Reader(data)
    out = {}
    for path, e in r.tree().items():
        out[path] = (e.type, bytes(e.clsid), r.content(e) if e.type == 2 else None)
    return out


def execute(plan, keep_log=False):
    eng = aafsim if plan["aaf"] else cfbsim
    first = None
    digs, states, stats, lines = [], set(), {}, []
    from ..runner import merge
    for i, p in enumerate(plan["policies"]):
        sub = dict(plan, cfg=dict(plan["cfg"], **p))
        try:
            r = eng.run_plan(sub, keep_log)
        except Violation as v:
            raise Violation(v.cls, "policy %s: %s" % (p, v.detail))
        digs.append(r["digest"])
        states.update(r["states"])
        merge(stats, r["stats"])
        lines += r["log"] or []
        if first is None:
            first = r
            want = logical(plan, r)
            continue
        if r["logic"] != first["logic"]:
            raise Violation("results-differ", "policy %s: the history of results differs from the run where everything stays in memory" % p)
        got = logical(plan, r)
        if got != want:
            bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            raise Violation("file-differs", "policy %s: the files differ at %s" % (p, bad[:3]))
    return {"digest": "%x" % mix(*digs), "stats": stats, "states": list(states), "nontrivial": first["nontrivial"],
            "sample": dict(first["sample"], policies=plan["policies"]), "log": lines if keep_log else None}


def logical(plan, r):
    if plan["aaf"]:
        a = aafsim.read_image(r["image"], strict=False)
        out = {"refs": a.table}
        for o in a.objs:
            out[o.path] = (o.clsid, [(p.pid, p.form, p.raw, None if p.form in "sVS" else p.val, getattr(p, "next_free", None))
                                     for p in o.props.values()])
        return out
    return tree(r["image"])
