"""C07: read faults are reported, never turned into data and never remembered."""
import random

from .. import aafsim, cfbsim, core, faulty
from ..core import Violation, mix
from . import c04

RUNS = {"quick": 1100, "thorough": 40000}
WALL_CAP = {"quick": 90, "thorough": 3000}
BATCH = 10
RULE = ("one run = one seeded compound file or AAF file (made by the library, by an independent writer or by other software) that is opened, "
        "traversed and read by a seeded history, most operations having failing or short raw reads injected at seeded positions; every "
        "operation either raises (only if a fault fired in it) or agrees with the model, and each one that raised is repeated without "
        "faults on the same open file and must then agree; distinct by event-log digest; non-trivial = at least one fault fired")
STATE_MEASURE = "distinct (tree shape and sizes, or class census) at full comparisons"
ASSUMPTIONS = ["a fault is an exception from the file object or a read that returns at least one but fewer bytes than asked for",
               "operations that modify the file run without faults (C08 covers write faults)"]
SHRINK = ("ops",)
AAF_W = {"check": 8, "user": 3, "stream": 3, "find": 2, "peek": 3, "verify": .4, "reopen": 1.2, "gc": 1.5, "set": .6, "mob": .3, "vec": .5}
CFB_W = {"find": 5, "list": 5, "walk": 2, "open": 6, "read": 12, "rseek": 2, "verify": 1, "reopen": 2, "gc": 1, "unpin": 1, "pin": 1, "closeh": 1}
CFB_MUT = {"write": 3, "new": 2, "remove": 1, "trunc": 1, "move": 1, "mkdir": 1}


def setup():
    aafsim.rich_images()


def generate(rng, tier, index):
    rw = rng.random() < .35
    if rng.random() < .35:
        ops = []
        n = rng.choice([3, 8, 16])
        w = {k: v for k, v in AAF_W.items() if rw or k not in ("set", "mob", "vec")}
        for _ in range(n):
            k = rng.choices(sorted(w), [w[x] for x in sorted(w)])[0]
            far = {"reopen": 400, "verify": 200, "user": 60}.get(k, 20)
            ops.append([k, rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32),
                        faulty.gen_faults(rng, far) if k not in ("gc", "set", "mob", "vec") and rng.random() < .8 else []])
        ops.insert(0, ["reopen", 0, 0, rng.getrandbits(32), faulty.gen_faults(rng, 400) if rng.random() < .7 else []])
        cfg = {"third": None, "rich": None, "ss": rng.choice([512, 4096]), "img_ext": True, "ext": rng.random() < .5, "rw": rw,
               "hold": rng.choice([0, 0, .2, .5]), "cache": rng.choice([1, 2, 4, 8, 16, 64, None]),
               "buffering": rng.choice([-1, -1, 0, 0, 64, 512, 65536]), "gc_mean": rng.choice([None, None, 5000])}
        r = rng.random()
        if r < .5:
            cfg["rich"] = rng.randrange(aafsim.NRICH)
        elif r < .8:
            cfg["third"] = rng.choice(["empty", "sector_size_512", "bezier01", "test_file_01"])
        if rng.random() < .2:
            cfg["max_read"] = rng.choice([511, 4095])
        return {"aaf": True, "cfg": cfg, "ops": ops}
    p = c04.generate(rng, tier, index if tier == "thorough" else 1)
    cfg = p["cfg"]
    cfg.update(rw=rw, back="buf", bufsize=rng.choice([-1, -1, 0, 0, 2, 64, 512, 4096, 65536]), cache=rng.choice([1, 2, 3, 8, 16, 48, None]))
    if cfg["bufsize"] == 0:
        cfg["back"] = "raw"
    if rng.random() < .2:
        cfg["max_read"] = rng.choice([37, 511, 4095])
    w = dict(CFB_W, **(CFB_MUT if rw else {}))
    g = cfbsim.Gen(rng, w)
    g.small = False
    ops = []
    for op in g.ops(rng.choice([5, 15, 40])):
        far = {"verify": 60, "walk": 20, "reopen": 30, "list": 6, "find": 6, "open": 6}.get(op[0], 6)
        if op[0] == "open" and not rw:
            op[2] = "r"
        ops.append([op, faulty.gen_faults(rng, far) if op[0] not in CFB_MUT and op[0] not in ("gc", "pin", "unpin", "closeh") and
                    not (op[0] == "open" and op[2] == "w") and rng.random() < .8 else []])
    ops.insert(0, [["reopen"], faulty.gen_faults(rng, 30) if rng.random() < .7 else []])
    return {"aaf": False, "cfg": cfg, "opt": p["opt"], "tree": p["tree"], "ops": ops}


def execute(plan, keep_log=False):
    return run_aaf(plan, keep_log) if plan["aaf"] else run_cfb(plan, keep_log)


def result(w, s, plan, keep_log, n):
    return {"digest": w.log.digest(), "stats": (aafsim if plan["aaf"] else cfbsim).stats(w, s), "states": list(s.states),
            "nontrivial": sum(w.disk.fired.values()) > 0,
            "sample": {"seed": plan["seed"], "cfg": plan["cfg"], "ops": plan["ops"][:8], "faults": dict(w.disk.fired)},
            "log": w.log.lines if keep_log else None}


# ---------------------------------------------------------------- compound files

def run_cfb(plan, keep_log):
    cfg = plan["cfg"]
    with core.world(plan["seed"], cache_size=cfg.get("cache"), keep_log=keep_log, gc_mean=cfg.get("gc_mean")) as w:
        s = cfbsim.Session(w, cfg)
        s.foreign = True
        s.i = -1
        c04.build(plan, s)
        original = w.disk.get(s.FILE)
        cfbsim.apply_disk_cfg(w, cfg)
        mode = "rb+" if cfg["rw"] else "rb"

        def reopen(faults):
            if s.cfb is not None:
                s.close()

            def go():
                if s.f is not None:
                    s.f.close()
                s.open_existing(mode)
            faulty.retry(w, faults, go, "open")

        for i, (op, faults) in enumerate(plan["ops"]):
            s.i = i
            w.log("op", i, op[0])
            if s.cfb is None and op[0] != "reopen":
                reopen([])
            if op[0] == "reopen":
                reopen(faults)
                continue
            fn = getattr(s, "op_" + op[0])
            faulty.retry(w, faults, lambda: fn(*op[1:]), "op %d %s" % (i, op))
            s.nops += 1
        if s.cfb is None:
            reopen([])
        s.verify("at the end, without faults")
        s.close()
        if not cfg["rw"]:
            if w.disk.get(s.FILE) != original:
                raise Violation("read-modified", "reading changed the file")
        else:
            s.audit_file("final file")
        return result(w, s, plan, keep_log, s.nops)


# ---------------------------------------------------------------- AAF files

def run_aaf(plan, keep_log):
    cfg = plan["cfg"]
    with core.world(plan["seed"], cache_size=cfg.get("cache"), keep_log=keep_log, gc_mean=cfg.get("gc_mean")) as w:
        s = aafsim.Session(w, cfg)
        s.load()
        original = w.disk.get(s.name)
        cfbsim.apply_disk_cfg(w, cfg)
        mode = "rw" if cfg["rw"] else "r"

        def reopen(faults):
            if s.f is not None:
                s.close()
            faulty.retry(w, faults, lambda: s.open(mode, cfg["ext"]), "open")

        for i, op in enumerate(plan["ops"]):
            kind, k1, k2, seed, faults = op
            w.log("op", i, kind)
            if s.f is None and kind != "reopen":
                reopen([])
            if kind == "reopen":
                reopen(faults)
                continue
            nav = s.nav.getstate()

            def go():
                s.nav.setstate(nav)
                s.rng = random.Random(seed)
                one(s, kind, k1, k2)
            faulty.retry(w, faults, go, "op %d %s" % (i, kind))
            s.executed += 1
            s.counts[kind] = s.counts.get(kind, 0) + 1
        if s.f is None:
            reopen([])
        s.verify("at the end, without faults")
        s.close()
        if not cfg["rw"]:
            if w.disk.get(s.name) != original:
                raise Violation("read-modified", "reading changed the file")
        else:
            s.audit_file("final file")
        return result(w, s, plan, keep_log, s.executed)


def one(s, kind, k1, k2):
    if kind == "check":
        for j in range(3):
            s.check(s.pick_obj(k1 + 5 * j), "check")
    elif kind == "user":
        s.verify("user objects", False)
    elif kind == "verify":
        s.verify("everything")
    elif kind == "stream":
        c = [m for m in s.user() if any(f == "stream" for f, v in m.props.values())]
        if c:
            s.check(c[k1 % len(c)], "stream")
    elif kind in ("find", "peek"):
        getattr(s, "op_" + kind)(k1, k2, s.rng)
    else:
        getattr(s, "op_" + kind)(k1, k2, s.rng)
