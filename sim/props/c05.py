"""C05: AAF object graph round trip."""
from .. import aafsim

RUNS = {"quick": 400, "thorough": 30000}
BATCH = 6
WALL_CAP = {"quick": 100, "thorough": 3000}
RULE = ("one run = one seeded history of object-graph edits (sessions, saves, reopens, collections) executed on the real AAF file over the "
        "simulated disk and on the graph model; distinct by event-log digest; non-trivial = at least 5 operations executed")
STATE_MEASURE = "distinct (class of object -> how many, detached objects) censuses at verification points"
ASSUMPTIONS = ["property values below 64 KiB", "definitions that are referenced are not removed",
               "times are stored without microseconds"]


def setup():
    aafsim.rich_images()
    for ext in (True, False):
        for ss in (512, 4096):
            aafsim.image(ext, ss)
    for name in aafsim.THIRD:
        aafsim.image(False, name)
        for ext in (True, False):
            aafsim.session_types(name, ext)


def generate(rng, tier, index):
    cfg = aafsim.gen_cfg(rng)
    return {"cfg": cfg, "ops": aafsim.gen_ops(rng, rng.choice([5, 15, 30, 60]))}


def execute(plan, keep_log=False):
    return aafsim.run_plan(plan, keep_log)
