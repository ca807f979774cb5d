"""C04: files from other writers are read exactly and edited in place without loss."""
import random

from .. import cfbsim, core, refcfb
from ..core import Violation, pattern

RUNS = {"quick": 2400, "thorough": 40000}
BATCH = 20
RULE = ("one run = a seeded legal compound file emitted by an independent writer (random sector order, gaps, search-tree shapes, free "
        "directory entries, empty-stream markers) and a seeded edit history on it with reopen points, checked live, after close by an "
        "independent reader, and after reopening; distinct by event-log digest; non-trivial = at least 3 entries or 5 operations")
STATE_MEASURE = "distinct (sector size, backing, tree shape, size class of every stream) at verification points"
ASSUMPTIONS = ["entry names inside one storage differ by more than case",
               "foreign files keep the conventional 4096-byte mini-stream cutoff and 64-byte mini sectors (others are refused by design)"]
W = dict(cfbsim.W_ALL, fill=.3, thin=1)
SHRINK = ("ops",)


def generate(rng, tier, index):
    ss = rng.choice([512, 512, 4096])
    cfg = {"ss": ss, "back": rng.choice(["buf", "buf", "raw"]), "bufsize": rng.choice([-1, -1, 64, 4096]),
           "cache": rng.choice([None, None, 48, 64]), "gc_every": rng.choice([0, 0, 1, 5])}
    opt = {"shuffle": rng.random() < .5, "gaps": rng.choice([0, 0, .1, .5, 2]), "tree": rng.choice(["balanced", "left", "right", "random"]),
           "empty": rng.choice(["eoc", "free", "mixed"]), "dirgaps": rng.choice([0, 0, 1, 5, 40]), "shuffle_dirs": rng.random() < .5,
           "extra_fat": rng.choice([0, 0, 0, 1, 3]), "minigaps": rng.choice([0, 0, 3, 30]), "allblack": rng.random() < .5,
           "wholemini": rng.random() < .4, "extra_minifat": rng.random() < .2, "extra_dir_sectors": rng.choice([0, 0, 1, 2]),
           "tables_last": rng.random() < .3, "major": 4 if ss == 4096 else rng.choice([3, 3, 4]), "txn": rng.choice([0, 0, 9]),
           "storage_zero": rng.random() < .5}
    if index % 200 == 3:
        opt["gaps"] = 0
        tree = {"big": rng.choice([7100000, 7400000, 8000000, 15600000]), "n": rng.randrange(3)}
        ss = cfg["ss"] = 512
        opt["major"] = rng.choice([3, 4])
    else:
        tree = {"n": rng.choice([0, 1, 2, 5, 12, 30, 80]), "nosmall": rng.random() < .15, "nobig": rng.random() < .3,
                "empties": rng.random() < .3}
    g = cfbsim.Gen(rng, W)
    ops = g.ops(rng.choice([0, 1, 3, 10, 30, 60]))
    if rng.random() < .5 and ops:
        ops.insert(rng.randrange(len(ops) + 1), ["reopen"])
    return {"cfg": cfg, "opt": opt, "tree": tree, "ops": ops}


def build(plan, sess):
    rng = random.Random(plan["seed"] ^ 0x5EED)
    t = plan["tree"]
    model = sess.model
    model.name = "Root Entry"
    dirs = [model]
    for i in range(t["n"]):
        p = rng.choice(dirs)
        name = cfbsim.name_of(rng.randrange(1000))
        if cfbsim._fold(name) in [cfbsim._fold(c) for c in p.children]:
            continue
        kind = "d" if rng.random() < .3 else "s"
        n = cfbsim.M(name, kind, p)
        p.children[name] = n
        if kind == "d":
            dirs.append(n)
        else:
            size = cfbsim.gen_size(rng)
            if t.get("nosmall") and 0 < size < 4096:
                size = 4096 + size
            if t.get("nobig") and size >= 4096:
                size %= 4096
            if t.get("empties") and rng.random() < .5:
                size = 0
            n.data = bytearray(pattern(rng.randrange(1 << 20), size))
    if t.get("big"):
        n = cfbsim.M("huge", "s", model)
        n.data = bytearray(pattern(rng.randrange(1 << 20), t["big"]))
        model.children["huge"] = n
    for n in model.nodes():
        if rng.random() < .4:
            n.clsid = core.aaf2.auid.AUID(bytes_le=rng.randbytes(16))
        if rng.random() < .3:
            n.flags = rng.randrange(1 << 32)
            n.ctime = rng.randrange(1 << 63)
            n.mtime = rng.randrange(1 << 63)

    def conv(n):
        f = refcfb.FTree(n.name, None if n.kind == "d" else bytes(n.data), bytes(16) if n.clsid is None else n.clsid.bytes_le,
                         n.flags, n.ctime, n.mtime)
        kids = [conv(c) for c in n.children.values()] if n.kind == "d" else []
        f.children = kids
        return f
    blob = refcfb.write_foreign(conv(model), rng, sess.ss, plan["opt"])
    sess.w.disk.put(sess.FILE, blob)
    # the writer itself is checked by the independent reader
    try:
        r = refcfb.Reader(blob)
        r.audit()
    except refcfb.Bad as b:
        raise RuntimeError("harness: foreign writer produced an invalid file: %s" % b)
    sess.compare_reader(r, "foreign file")


def execute(plan, keep_log=False):
    def before(w, s):
        s.foreign = True
        build(plan, s)
        original = w.disk.get(s.FILE)
        s.open_existing("rb")
        s.verify("foreign file read-only")
        s.cfb.close()
        s.f.close()
        if w.disk.get(s.FILE) != original:
            raise Violation("read-modified", "reading changed the file")
        s.open_existing("rb+")
        w.probe("opt_tree_" + plan["opt"]["tree"])
        w.probe("opt_empty_" + plan["opt"]["empty"])
        if plan["opt"]["shuffle"]:
            w.probe("opt_shuffled")
    r = cfbsim.run_plan(plan, keep_log, before)
    r["nontrivial"] = len(plan["ops"]) >= 5 or plan["tree"]["n"] >= 3
    return r
