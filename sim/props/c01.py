"""C01: streams refine byte arrays."""
from .. import cfbsim

RUNS = {"quick": 2400, "thorough": 40000}
BATCH = 20
RULE = ("one run = one seeded history of stream operations (interleaved over up to 12 open handles) executed on the real "
        "container over the simulated disk and on byte-array models; distinct by event-log digest; non-trivial = at least 5 operations executed")
STATE_MEASURE = "distinct (sector size, backing, tree shape, size class of every stream) at verification points"
ASSUMPTIONS = ["bytes exposed by growing a stream with truncate are unspecified until written",
               "a stream being written is not read through another handle at the same time",
               "entry names inside one storage differ by more than case"]


def generate(rng, tier, index):
    cfg = cfbsim.gen_cfg(rng)
    cfg["strict"] = False
    big = rng.random() < .1
    g = cfbsim.Gen(rng, cfbsim.W_STREAM, big)
    ops = [["new", rng.randrange(1000), rng.randrange(1000), "rw", 0] for _ in range(rng.randrange(1, 5))]
    ops += g.ops(rng.choice([10, 30, 60, 120]))
    return {"cfg": cfg, "ops": ops}


def execute(plan, keep_log=False):
    return cfbsim.run_plan(plan, keep_log)
