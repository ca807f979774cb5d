"""C15: closed AAF files are self-consistent documents."""
from .. import aafsim
from . import c05

RUNS = {"quick": 480, "thorough": 30000}
BATCH = 6
WALL_CAP = {"quick": 90, "thorough": 3000}
RULE = ("one run = one seeded history of many short sessions on a new file, a file of the library or a file from other software; every "
        "closed file is parsed by an independent reader of the AAF layout that checks ownership, index streams, keys, weak references, "
        "identifiers, storage forms, required properties and stored definitions, and compares the graph with the program's; distinct by "
        "event-log digest; non-trivial = at least 3 operations executed")
STATE_MEASURE = "distinct (class of object -> how many, detached objects) censuses at closes"
ASSUMPTIONS = c05.ASSUMPTIONS
W = {"set": 6, "unset": 4, "ref": 6, "vec": 9, "setp": 7, "weak": 6, "mob": 5, "mobid": 3, "stream": 3, "helper": 6, "bad": 3,
     "save": 3, "gc": 3, "reopen": 5}
setup = c05.setup


def generate(rng, tier, index):
    cfg = aafsim.gen_cfg(rng, .25)
    cfg["live"] = False
    return {"cfg": cfg, "ops": aafsim.gen_ops(rng, rng.choice([3, 10, 20, 40]), W)}


def execute(plan, keep_log=False):
    r = aafsim.run_plan(plan, keep_log)
    r["nontrivial"] = r["stats"]["operations"] >= 3
    return r
