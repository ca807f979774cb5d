"""C12: copies between and within files."""
import random

from .. import aafsim, cfbsim, core, defs, faulty
from ..core import Violation, mix

RUNS = {"quick": 400, "thorough": 30000}
WALL_CAP = {"quick": 80, "thorough": 3000}
BATCH = 4
RULE = ("one run = two open files (made by the library, with and without extensions, or by other software; one of them sometimes "
        "read-only) and a seeded history of copies between them and within them, mixed with edits of either, saves, reopens, collection "
        "and transient read faults of the file copied from; both are compared with their models live, after close by the independent reader, and "
        "after reopen; distinct by event-log digest; non-trivial = at least one copy")
STATE_MEASURE = "distinct class censuses at verification points"
ASSUMPTIONS = ["a weak reference's target counts as part of the copy when the target file lacks it",
               "plain identifiers (SourceID, Parameter.Definition) are copied as values; what they name is not",
               "an object class or property is identified by its AUID; where the files name it differently the target's name is used"]
SHRINK = ("ops",)
W = {"copy": 14, "update": 1.5, "set": 4, "unset": 1, "ref": 1.5, "vec": 3, "setp": 2, "weak": 1.5, "mob": 1.5, "mobid": 1, "stream": 2, "helper": 1.5,
     "bad": .5, "save": 1, "gc": 2, "verify": .7, "reopen": 1}


def setup():
    aafsim.rich_images()


def gen_cfg(rng):
    cfg = aafsim.gen_cfg(rng, .2, .35)
    cfg["gc_mean"] = None
    return cfg


def generate(rng, tier, index):
    a, b = gen_cfg(rng), gen_cfg(rng)
    if rng.random() < .2:
        b = dict(a, ext=rng.random() < .7)
    b["mode"] = rng.choice(["r", "rw", "rw"])
    if b["mode"] == "r":
        b["fresh"] = False
    w = {k: v * rng.choice([.3, 1, 1, 2]) for k, v in W.items()}
    kinds = sorted(w)
    ws = [w[k] for k in kinds]
    ops = []
    faulted = rng.random() < .4
    for s in (0, 0, 1, 1):
        ops.append(["mob", rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32), s, 0, []])
    for _ in range(rng.choice([4, 8, 16, 30])):
        k = rng.choices(kinds, ws)[0]
        who = rng.choice([0, 0, 1])
        frm = rng.choice([1 - who] * 3 + [who])
        if b["mode"] == "r" and k == "copy" and rng.random() < .8:
            who, frm = 0, 1
        ops.append([k, rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32), who, frm,
                    faulty.gen_faults(rng, 60) if faulted and k == "copy" and rng.random() < .6 else []])
    cache = rng.choice([None, None, 1, 2, 8])
    return {"cfg": [a, b], "cache": cache, "gc_mean": rng.choice([None, None, 20000]), "hold": rng.choice([0, .2, .6, 1]), "ops": ops}


READS = ("verify", "gc", "reopen", "peek", "find")


def execute(plan, keep_log=False):
    with core.world(plan["seed"], cache_size=plan.get("cache"), keep_log=keep_log, gc_mean=plan.get("gc_mean")) as w:
        ss = []
        for i, cfg in enumerate(plan["cfg"]):
            s = defs.DefSession(w, dict(cfg, hold=plan["hold"]), "ab"[i])
            s.rng = random.Random(plan["seed"])
            s.nav = random.Random(mix("nav", plan["seed"], i))
            s.start()
            ss.append(s)
        copies = 0
        for op in plan["ops"]:
            kind, k1, k2, seed, who, frm, faults = op
            s, src = ss[who], ss[frm]
            if kind in ("copy", "update"):
                rng = random.Random(seed)
                w.advance(1)
                w.log("op", kind, who, frm)
                w.ops += 1
                r = s.copy_from(src, k1, k2, rng, faults) if kind == "copy" else s.dict_update(src, rng)
                if r is False:
                    s.skipped += 1
                else:
                    copies += kind == "copy"
                    s.executed += 1
                    s.counts[kind] = s.counts.get(kind, 0) + 1
            elif s.mode == "r" and kind not in READS:
                continue
            else:
                s.step(op)
        for s in ss:
            s.verify("at the end")
        order = ss if plan["seed"] % 2 else ss[::-1]
        for s in order:
            if s.mode == "r":
                s.close()
                s.same_bytes()
            else:
                s.pool = []
                s.finish()
                s.open("r", bool(plan["seed"] % 3))
                s.verify("after reopen")
                s.close()
        st = aafsim.stats(w, ss[0])
        for k, v in ss[1].counts.items():
            st["probes"]["op " + k] = st["probes"].get("op " + k, 0) + v
        st["operations"] += ss[1].executed
        return {"digest": w.log.digest(), "stats": st, "states": list(ss[0].states | ss[1].states), "nontrivial": copies > 0,
                "sample": {"seed": plan["seed"], "cfg": plan["cfg"], "ops": plan["ops"][:8]}, "log": w.log.lines if keep_log else None}
