"""C18: derived queries and editing helpers agree with the object graph."""
import random

from .. import aafsim, cfbsim, core, faulty, timeline
from ..core import mix

RUNS = {"quick": 700, "thorough": 40000}
WALL_CAP = {"quick": 75, "thorough": 3000}
BATCH = 5
RULE = ("one run = one file (made by the library, with and without extensions, by other software, or an editing document) and a seeded history "
        "of building and cutting timelines, aiming clips, adding keyframes, removing and re-keying mobs and of the create_ calls, interleaved with "
        "queries, collection of live objects, saves and reopens; some queries run while raw reads fail and are then asked again; distinct by "
        "event-log digest; non-trivial = at least five queries answered")
STATE_MEASURE = "distinct class censuses at verification points"
ASSUMPTIONS = ["where a length, slot id or media kind the answer depends on is missing, or a transition is longer than its neighbours, no answer is prescribed",
               "a query may fail while reads fail, but an answer it gives is right, and once reads work again it is answered",
               "walk() names, for a sequence, the component playing at the start of the clip before it"]
SHRINK = ("ops",)
W = {"q": 16, "chain": 5, "cut": 4, "aim": 4, "create": 3, "param": 2, "key": 1.5, "usage": 1, "dropmob": .7, "mobid": .7, "helper": 2, "set": .6, "unset": .2,
     "vec": .5, "find": .3, "save": 1, "gc": 2, "verify": .3, "reopen": 1.2}


def setup():
    aafsim.rich_images()


def generate(rng, tier, index):
    cfg = aafsim.gen_cfg(rng, .12, .3)
    w = {k: v * rng.choice([.3, 1, 1, 2]) for k, v in W.items()}
    kinds = sorted(w)
    ws = [w[k] for k in kinds]
    ops = []
    faulted = rng.random() < .4
    for i in range(rng.choice([2, 3, 4])):
        ops.append(["chain", rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32)])
    for _ in range(rng.choice([10, 25, 25, 50])):
        k = rng.choices(kinds, ws)[0]
        op = [k, rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32)]
        if faulted and k == "q" and rng.random() < .4:
            op.append(faulty.gen_faults(rng, 40))
        ops.append(op)
    return {"cfg": cfg, "gc_mean": rng.choice([None, None, 20000, 4000]), "ops": ops}


def execute(plan, keep_log=False):
    cfg = plan["cfg"]
    with core.world(plan["seed"], cache_size=cfg.get("cache"), keep_log=keep_log, gc_mean=plan.get("gc_mean")) as w:
        cfbsim.apply_disk_cfg(w, cfg)
        s = timeline.TimelineSession(w, cfg)
        s.rng = random.Random(plan["seed"])
        s.nav = random.Random(mix("nav", plan["seed"], 0))
        s.start()
        s.run(plan["ops"])
        s.verify("at the end", plan["seed"] % 3 == 0)
        s.finish()
        # everything is asked again of the file that was written
        s.open("r", cfg.get("ext", True))
        rng = random.Random(mix("final", plan["seed"]))
        for i in range(42):
            s.step(["q", rng.getrandbits(16), i % 14, rng.getrandbits(32)])
        s.close()
        q = s.counts.get("q", 0) + s.counts.get("q under faults", 0)
        return {"digest": w.log.digest(), "stats": aafsim.stats(w, s), "states": list(s.states), "nontrivial": q >= 5,
                "sample": {"seed": plan["seed"], "cfg": cfg, "ops": plan["ops"][:8]}, "log": w.log.lines if keep_log else None}
