"""C03: closed files are structurally valid for an independent reader."""
import io
import random

from .. import cfbsim, core, refcfb
from ..core import Violation, lib, pattern

RUNS = {"quick": 2600, "thorough": 40000}
BATCH = 13
RULE = ("one run = one seeded history of stream and namespace operations; after every close an independent reader audits the "
        "bytes (chains, tables, search trees, counts, leaks) and compares the whole tree with the model; 1 in 65 runs grows past the "
        "header's allocation table (512-byte sectors), 1 in 130 needs several extended table sectors, 1 in 650 crosses 2 GB on the sparse simulated disk; distinct by event-log "
        "digest; non-trivial = at least 5 operations executed")
STATE_MEASURE = "distinct (sector size, backing, tree shape, size class of every stream) at verification points"
ASSUMPTIONS = ["entry names inside one storage differ by more than case",
               "sibling-tree colours are not audited: the library documents that it does not rely on them, and other writers emit all-black trees"]
SHRINK = ("ops",)
GB2 = 0x80000000


def generate(rng, tier, index):
    if index % 650 == 7:
        # sparse file around the 2 GB range-lock sector
        base = GB2 - rng.choice([40, 8, 3, 1, 0]) * 4096 * 1024 - rng.randrange(0, 3) * 4096 - rng.randrange(4096)
        ops = [["small", rng.choice([100, 5000])] for _ in range(rng.randrange(3))]
        ops += [["huge", base]]
        for _ in range(rng.randrange(2, 7)):
            ops.append(rng.choice([["append", rng.randrange(1, 3 << 20), rng.randrange(1 << 16)],
                                   ["new", rng.choice([10, 5000, 70000, 3 << 20]), rng.randrange(1 << 16)],
                                   ["reopen"], ["dirs", rng.randrange(1, 80)]]))
        if rng.random() < .6:
            ops.insert(rng.randrange(1, len(ops)), ["reopen"])
        return {"kind": "huge", "cfg": {"ss": 4096, "bufsize": -1, "cache": None}, "ops": ops}
    if index % 130 == 9:
        # many extended table sectors: the same on 512 byte sectors
        ops = [["small", rng.choice([100, 5000])] for _ in range(rng.randrange(3))]
        ops += [["huge", rng.choice([7, 15, 23, 31, 40]) * 1000000 + rng.randrange(2000000)]]
        for _ in range(rng.randrange(2, 7)):
            ops.append(rng.choice([["append", rng.randrange(1, 1 << 20), rng.randrange(1 << 16)], ["grow", rng.randrange(9 << 20)],
                                   ["new", rng.choice([10, 5000, 70000, 1 << 20]), rng.randrange(1 << 16)],
                                   ["reopen"], ["dirs", rng.randrange(1, 80)]]))
        return {"kind": "huge", "cfg": {"ss": 512, "bufsize": -1, "cache": None}, "ops": ops}
    if index % 65 == 11:
        cfg = {"ss": 512, "back": rng.choice(["buf", "raw", "bytesio"]), "bufsize": -1, "cache": None, "gc_every": 0}
        ops = [["new", 0, k, "rw", 0] for k in range(3)]
        tag = rng.randrange(1 << 16)
        total = 0
        want = rng.choice([7200000, 7600000, 9000000, 15700000, 16500000])
        while total < want:
            n = rng.choice([4096, 50000, 300000, 700000])
            tag += 1
            total += n
            ops.append(["write", rng.randrange(1000), n, tag])
            if rng.random() < .15:
                ops.append(["mkdir", rng.randrange(1000), rng.randrange(1000), 0, 0])
            if rng.random() < .02:
                ops.append(["trunc", rng.randrange(1000), rng.randrange(1 << 20), 0])
            if rng.random() < .02:
                ops.append(["remove", rng.randrange(1000)])
                ops.append(["new", rng.randrange(1000), rng.randrange(1000), "rw", 0])
            if rng.random() < .03:
                ops.append(["reopen"])
                for k in range(3):
                    ops += [["open", k, "rw", 0], ["end", k]]
        return {"kind": "big", "cfg": cfg, "ops": ops}
    cfg = cfbsim.gen_cfg(rng)
    g = cfbsim.Gen(rng, cfbsim.W_ALL, rng.random() < .1)
    ops = g.ops(rng.choice([5, 20, 50, 100]))
    for _ in range(rng.randrange(3)):
        ops.insert(rng.randrange(len(ops) + 1), ["reopen"])
    return {"kind": "mix", "cfg": cfg, "ops": ops}


def huge(plan, keep_log):
    """A stream sized beyond 2 GB on the sparse disk; only touched places hold data."""
    CFB = core.aaf2.cfb.CompoundFileBinary
    with core.world(plan["seed"], keep_log=keep_log, step_limit=400000000, io_limit=20000000) as w:
        f = io.open(core.simdisk.simpath("h"), "wb+")
        ss = plan["cfg"]["ss"]
        cfb = lib("create", CFB, f, "wb+", ss)
        streams = {}        # path -> [size, {offset: bytes}]
        log = w.log
        ndirs = 0

        def check(c, where):
            for p, (size, parts) in streams.items():
                e = c.find(p)
                if e is None or e.byte_size != size:
                    raise Violation("wrong-size", "%s: %s" % (where, p))
                s = c.open(p, "r")
                for off, data in parts.items():
                    s.seek(off)
                    if s.read(len(data)) != data:
                        raise Violation("wrong-content", "%s: %s at %d of %d" % (where, p, off, size))

        def audit(where):
            try:
                r = refcfb.Reader(w.disk.files["h"])
                r.audit(own_layout=True)
            except refcfb.Bad as b:
                raise Violation("invalid-structure:" + b.cls, "%s: %s" % (where, b.detail))
            t = r.tree()
            for p, (size, parts) in streams.items():
                if p not in t or t[p].size != size:
                    raise Violation("file-tree", "%s: %s" % (where, p))
                e = t[p]
                for off, data in parts.items():
                    if size < 4096:
                        got = r.content(e)[off:off + len(data)]
                    else:
                        got = b""
                        o = off
                        while len(got) < len(data):
                            k, x = divmod(o, ss)
                            part = r.src.read((e.chain[k] + 1) * ss + x, min(ss - x, len(data) - len(got)))
                            got += part
                            o += len(part)
                    if got != data:
                        raise Violation("file-content", "%s: %s at %d of %d" % (where, p, off, size))
            w.probe("difat_sectors_%d" % len(r.difat_sectors))
            if ss == 4096 and len(r.fat) > (0x7FFFFF00 // 4096):
                w.probe("range_lock_crossed")

        def finish(where):
            nonlocal f, cfb
            lib("close", cfb.close)
            f.close()
            audit(where)

        for i, op in enumerate(plan["ops"]):
            log("op", op)
            tag = "op %d %s" % (i, op)

            def go():
                nonlocal f, cfb, ndirs
                k = op[0]
                if k in ("small", "new"):
                    p = "/s%d" % i
                    s = cfb.open(p, "w")
                    data = pattern(i * 77 + 5, op[1])
                    s.write(data)
                    streams[p] = [len(data), {0: data}]
                elif k == "huge":
                    p = "/huge"
                    s = cfb.open(p, "rw")
                    s.truncate(op[1])
                    parts = {}
                    for off in (0, op[1] // 2, op[1] - 5000, op[1] - 10):
                        data = pattern(off & 0xffff, 10 if off == op[1] - 10 else 3000)
                        s.seek(off)
                        s.write(data)
                        parts[off] = data
                    streams[p] = [op[1], parts]
                elif k == "append" and "/huge" in streams:
                    s = cfb.open("/huge", "rw")
                    size, parts = streams["/huge"]
                    s.seek(size)
                    data = pattern(op[2], op[1])
                    s.write(data)
                    parts[size] = data
                    streams["/huge"][0] = size + len(data)
                elif k == "grow" and "/huge" in streams:
                    s = cfb.open("/huge", "rw")
                    size, parts = streams["/huge"]
                    s.truncate(size + op[1])
                    streams["/huge"][0] = size + op[1]
                elif k == "dirs":
                    for _ in range(op[1]):
                        ndirs += 1
                        cfb.makedir("/d%04d" % ndirs)
                elif k == "reopen":
                    finish("reopen")
                    f = io.open(core.simdisk.simpath("h"), "rb+")
                    cfb = CFB(f, "rb+")
                    check(cfb, tag)
            lib(tag, go)
        lib("check", check, cfb, "at the end")
        finish("final file")
        f = io.open(core.simdisk.simpath("h"), "rb")
        cfb = lib("open", CFB, f, "rb")
        lib("check", check, cfb, "reopened read-only")
        f.close()
        return {"digest": w.log.digest(), "nontrivial": len(plan["ops"]) >= 3,
                "stats": {"probes": w.probes, "operations": len(plan["ops"]), "raw_io": dict(w.disk.counts),
                          "steps_in_code_under_test": core.STEPS.n}}


def execute(plan, keep_log=False):
    if plan.get("kind") == "huge":
        return huge(plan, keep_log)
    return cfbsim.run_plan(plan, keep_log)
