"""C08: a write fault is never silent."""
import random

from .. import aafsim, cfbsim, core
from ..core import Violation, mix

RUNS = {"quick": 2600, "thorough": 40000}
WALL_CAP = {"quick": 90, "thorough": 3000}
BATCH = 10
RULE = ("one run = one seeded modifying history (compound-file or object API) with failing, short or refused raw writes, failing truncates "
        "and closes and full disks injected at seeded positions; the run ends at the first exception, which is allowed only once a fault has "
        "fired; if no call raised, the closed file must equal the model, judged by an independent reader and by reopening; distinct by "
        "event-log digest; non-trivial = at least one fault fired")
STATE_MEASURE = "distinct (tree shape and sizes, or class census) at full comparisons"
ASSUMPTIONS = ["a program stops using the file at the first exception", "a short write accepts at least one byte"]
SHRINK = ("ops", "faults")
KINDS = ["w_eio", "w_eio", "w_enospc", "w_short", "w_short", "t_eio", "c_eio", "full", "max_write"]
ERR = ("w_eio", "w_enospc", "t_eio", "c_eio", "disk_full")


def setup():
    aafsim.rich_images()


def gen_faults(rng, nops, aaf):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        at = rng.choice([-1, nops, nops, rng.randrange(nops + 1), rng.randrange(nops + 1), rng.randrange(nops + 1)])
        kind = rng.choice(KINDS)
        far = 300 if at == nops and aaf else 60 if at in (-1, nops) else 8
        after = int(rng.random() ** 2 * far)
        if kind in ("t_eio", "c_eio"):
            after = rng.choice([0, 0, 0, 1])
        if kind == "full":
            after = rng.choice([0, 0, 1, 100, 4096, 5000, 20000, 100000])     # bytes the disk still has
        out.append([at, kind, after, rng.choice([1, 1, 2, 10, 10000]), rng.choice([0, rng.randrange(1 << 16)])])
    return out


def generate(rng, tier, index):
    aaf = rng.random() < .35
    if aaf:
        cfg = aafsim.gen_cfg(rng, .2, 0)
        cfg["buffering"] = rng.choice([-1, -1, 0, 0, 64, 512, 65536])
        cfg["rich"] = None
        if rng.random() < .3:
            cfg.update(rich=rng.randrange(aafsim.NRICH), fresh=False)
        cfg["live"] = False
        ops = aafsim.gen_ops(rng, rng.choice([1, 4, 10, 20]), dict(aafsim.W_OBJ, verify=.3, stream=6, reopen=2, save=4))
    else:
        cfg = cfbsim.gen_cfg(rng, ("buf", "buf", "raw"))
        cfg.pop("max_read", None)
        cfg.pop("max_write", None)
        ops = cfbsim.Gen(rng, cfbsim.W_ALL, rng.random() < .1).ops(rng.choice([3, 10, 30, 60]))
    return {"aaf": aaf, "cfg": cfg, "ops": ops, "faults": gen_faults(rng, len(ops), aaf)}


def arm(w, s, faults, at, name):
    for a, kind, after, times, arg in faults:
        if a != at:
            continue
        if kind == "full":
            f = w.disk.files.get(name)
            w.disk.full_at = (f.size if f else 0) + after
        elif kind == "max_write":
            w.disk.max_write = [29, 100, 511, 4097][arg % 4]
        else:
            w.disk.arm(kind, after, times, arg)


def errors(w):
    return sum(w.disk.fired.get(k, 0) for k in ERR)


def execute(plan, keep_log=False):
    cfg = plan["cfg"]
    with core.world(plan["seed"], cache_size=cfg.get("cache"), keep_log=keep_log, gc_mean=cfg.get("gc_mean")) as w:
        if plan["aaf"]:
            s = aafsim.Session(w, cfg)
            s.rng = random.Random(plan["seed"])
            s.nav = random.Random(mix("nav", plan["seed"]))
            name, steps = s.name, aaf_steps(plan, w, s)
        else:
            s = cfbsim.Session(w, cfg)
            name, steps = s.FILE, cfb_steps(plan, w, s)
        # only this file sees faults
        w.disk.fault_scope = name
        reported = None
        try:
            for at in steps:
                arm(w, s, plan["faults"], at, name)
        except Violation as v:
            if v.cls != "unexpected-exception" or not errors(w):
                raise
            reported = v.detail
        except Exception as e:
            if not core.from_code_under_test(e) or not errors(w):
                raise
            reported = "%s in %s" % (e, core.where(e))
        w.log("reported", reported)
        if reported is not None:
            w.probe("sessions_that_raised")
            s.f = None
        elif sum(w.disk.fired.values()):
            w.probe("sessions_complete_despite_a_fault")
            if errors(w):
                w.probe("sessions_complete_despite_a_failed_call")
        r = {"digest": w.log.digest(), "stats": (aafsim if plan["aaf"] else cfbsim).stats(w, s), "states": list(s.states),
             "nontrivial": sum(w.disk.fired.values()) > 0,
             "sample": {"seed": plan["seed"], "cfg": cfg, "ops": plan["ops"][:8], "faults": plan["faults"], "reported": reported},
             "log": w.log.lines if keep_log else None}
        w.disk.disarm()
        return r


def cfb_steps(plan, w, s):
    s.i = -1
    yield -1
    s.create()
    for i, op in enumerate(plan["ops"]):
        yield i
        s.i = i
        w.log("op", i, op)
        w.log("->", getattr(s, "op_" + op[0])(*op[1:]))
        s.nops += 1
        ge = plan["cfg"].get("gc_every")
        if ge and s.nops % ge == 0:
            w.gc()
    yield len(plan["ops"])
    s.i = len(plan["ops"])
    s.close()
    # from here on nothing is written: what the calls above accepted must be there
    w.disk.disarm()
    s.audit_file("final file", strict=True)
    s.open_existing("rb")
    s.verify("final reopen read-only")
    s.close()


def aaf_steps(plan, w, s):
    yield -1
    s.start()
    for i, op in enumerate(plan["ops"]):
        yield i
        s.step(op)
    yield len(plan["ops"])
    if getattr(s, "_other", None) is not None:
        core.lib("close other", s._other.close)
        s._other = None
    s.close()
    w.disk.disarm()
    s.audit_file("final file")
    s.open("r", False)
    s.verify("final reopen read-only", False)
    s.close()
