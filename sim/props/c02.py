"""C02: the directory tree refines a tree model."""
from .. import cfbsim

RUNS = {"quick": 2000, "thorough": 30000}
BATCH = 20
RULE = ("one run = one seeded history of namespace operations (with stream writes, forbidden operations, GC and reopen points) on the "
        "real container and a tree model; distinct by event-log digest; non-trivial = at least 5 operations executed")
STATE_MEASURE = "distinct (sector size, backing, tree shape, size class of every stream) at verification points"
ASSUMPTIONS = ["entry names inside one storage differ by more than case", "storage paths use '/' separators"]


def generate(rng, tier, index):
    cfg = cfbsim.gen_cfg(rng)
    cfg["strict"] = False
    g = cfbsim.Gen(rng, cfbsim.W_NAME)
    ops = g.ops(rng.choice([10, 30, 60, 120]))
    if rng.random() < .15:
        at = rng.randrange(len(ops))
        n = rng.choice([300, 600, 1200])
        ops[at:at] = [["fill", rng.randrange(1000), n, rng.randrange(4), rng.randrange(1 << 30), rng.randrange(3)],
                      ["thin", 0, rng.choice([20, 50, 90]), rng.randrange(3), rng.randrange(1 << 30)],
                      ["reopen"],
                      ["thin", 0, rng.choice([20, 50, 90]), rng.randrange(3), rng.randrange(1 << 30)]]
    return {"cfg": cfg, "ops": ops}


def execute(plan, keep_log=False):
    return cfbsim.run_plan(plan, keep_log)
