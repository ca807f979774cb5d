"""C10: a damaged file is handled in bounded time and memory."""
import os
import random
import resource

from .. import aafsim, cfbsim, core, damage
from ..core import STEPS, StepLimit, Violation, mix
from . import c04

RUNS = {"quick": 1500, "thorough": 60000}
WALL_CAP = {"quick": 90, "thorough": 3000}
BATCH = 10
RULE = ("one run = one seeded valid compound or AAF file (by the library, by an independent writer, by other software) that is damaged "
        "(crash during a writing session with writes lost, torn or reordered; truncation; lost or misdirected sectors; flipped bytes; "
        "redirected pointers; changed counts, sizes, types and identifiers), opened and traversed in every way the library offers, each "
        "call limited in steps and the whole run in memory by the size of the file; distinct by event-log digest; non-trivial = the "
        "damage changed at least one byte")
STATE_MEASURE = "distinct (kinds of damage, how far the traversal got)"
ASSUMPTIONS = ["the interpreter's own recursion limit (1000 frames) is not accepted as a bound, except for type definitions that contain themselves",
               "steps are loop iterations executed in the code under test, memory is the address space of the process"]
SHRINK = ("damage",)
LEVEL = None
MEMORY = 160 << 20


def setup():
    aafsim.rich_images()


def generate(rng, tier, index):
    r = rng.random()
    plan = {"mode": rng.choice(["r", "r", "r", "r", "rw"]), "ext": rng.random() < .5, "cache": rng.choice([None, None, 1, 2, 16, 64]),
            "buffering": rng.choice([-1, -1, 0, 512]), "order": rng.getrandbits(16), "focus": rng.random() < .6}
    if r < .22:
        p = c04.generate(rng, tier, 1)
        plan.update(base="cfb", cfg=p["cfg"], opt=p["opt"], tree=p["tree"])
        if rng.random() < .2:
            plan["tree"] = {"big": rng.choice([7100000, 7400000]), "n": 2}
            plan["opt"].update(gaps=0)
            plan["cfg"]["ss"] = 512
        k = {k: v for k, v in damage.KINDS.items() if k in ("trunc", "flip", "zero", "copy", "swap", "hdr", "difat", "fat", "minifat", "dirent",
                                                           "name", "tables", "sibling", "child", "dup", "size", "sdata", "grow", "tables")}
    elif r < .75:
        plan.update(base="rich", rich=rng.randrange(aafsim.NRICH))
        k = damage.KINDS
    elif r < .85:
        plan.update(base="third", third=rng.choice(["empty", "sector_size_512", "bezier01", "test_file_01"]))
        k = damage.KINDS
    else:
        plan.update(base="crash", rich=rng.randrange(aafsim.NRICH), crash=[rng.getrandbits(24), rng.getrandbits(24), rng.choice([0, rng.getrandbits(16)]),
                                                                            rng.choice([0, 0, 1, 4, 16, 100])])
        plan["ops"] = aafsim.gen_ops(rng, rng.choice([3, 10]), {"set": 8, "vec": 10, "setp": 4, "mob": 8, "stream": 6, "helper": 10}, False)
        plan["fresh"] = rng.random() < .4
        k = damage.KINDS
    n = rng.choice([1, 1, 1, 2, 3, 6]) if plan["base"] != "crash" else rng.choice([0, 0, 0, 1, 2])
    plan["damage"] = damage.gen(rng, n, k)
    return plan


def base_image(plan):
    """(valid bytes, damaged bytes before edits)"""
    if plan["base"] == "cfb":
        with core.world(mix(plan["seed"], "base")) as w:
            s = cfbsim.Session(w, plan["cfg"])
            s.foreign = True
            s.i = -1
            c04.build(plan, s)
            return w.disk.get(s.FILE)
    if plan["base"] == "third":
        return aafsim.image(False, plan["third"]).data
    if plan["base"] == "rich":
        return aafsim.rich(plan["rich"]).data
    # a crash while writing
    cfg = {"third": None, "rich": plan["rich"], "ss": 4096, "img_ext": True, "ext": True, "hold": .3}
    if plan["fresh"]:
        cfg.update(rich=None, fresh=True)
    with core.world(mix(plan["seed"], "base")) as w:
        s = aafsim.Session(w, cfg)
        if plan["fresh"]:
            before = b""
            w.disk.record = []
            s.start()
        else:
            s.load()
            before = w.disk.get(s.name)
            w.disk.record = []
            s.open("rw", True)
        s.run(plan["ops"])
        s.pool = []
        s.close()
        rec = [r for r in w.disk.record if r[0] == s.name]
        data, n = damage.crash(before, rec, plan["crash"])
        return data


class Limits(object):
    """address space for one run"""

    def __init__(self, memory=MEMORY):
        self.memory = memory

    def __enter__(self):
        with open("/proc/self/statm") as f:
            pages = int(f.read().split()[0])
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (pages * resource.getpagesize() + self.memory, self.old[1]))

    def __exit__(self, *a):
        self.off()

    def off(self):
        resource.setrlimit(resource.RLIMIT_AS, self.old)


def inside_types(e):
    """the recursion is one of type definitions that contain themselves"""
    names = []
    tb = e.__traceback__
    while tb is not None:
        names.append(os.path.basename(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    return len(names) > 100 and set(names[-100:-8]) <= {"types.py", "metadict.py"}


class Walk(object):
    def __init__(self, w, size, plan):
        self.w = w
        self.plan = plan
        self.limit = 1000000 + 10 * size
        self.failed = {}
        self.ok = 0
        self.depth = 0
        self.stage = "nothing"
        self.worst = 0

    def attempt(self, what, fn, *a):
        """an outcome or an exception, within bounds"""
        STEPS.limit = STEPS.n + self.limit
        n = STEPS.n
        try:
            r = fn(*a)
            self.ok += 1
            self.stage = what
            return True, r
        except StepLimit as e:
            raise Violation("unbounded-work", "%s: more than %d steps" % (what, self.limit))
        except MemoryError as e:
            self.limits.off()
            tb = core.where(e)
            raise Violation("unbounded-memory", "%s: more than %d bytes (in %s)" % (what, self.limits.memory, tb))
        except RecursionError as e:
            if not inside_types(e):
                raise Violation("unbounded-recursion", "%s (in %s)" % (what, core.where(e)))
            self.w.probe("type definitions containing themselves ended by the recursion limit")
            self.failed["RecursionError:" + what] = 1
            return False, None
        except Violation:
            raise
        except Exception as e:
            if not core.from_code_under_test(e):
                # damaged values are not what a program expects either
                if not isinstance(e, (AttributeError, TypeError)):
                    raise
                self.w.probe("damaged values a program cannot use")
            k = "%s:%s" % (type(e).__name__, what)
            self.failed[k] = self.failed.get(k, 0) + 1
            return False, None
        finally:
            self.worst = max(self.worst, STEPS.n - n)
            self.w.log(what, STEPS.n - n)

    # ---- compound file
    def cfb(self, c):
        ok, items = self.attempt("walk", lambda: [(r, list(a), list(b)) for r, a, b in c.walk()])
        self.attempt("walk bottom up", lambda: [0 for _ in c.walk(topdown=False)])
        seen = []
        if ok:
            for r, a, b in items[:200]:
                seen.extend(a)
                seen.extend(b)
        else:
            ok, top = self.attempt("listdir", lambda: list(c.listdir()))
            seen = top or []
            for e in list(seen)[:30]:
                ok, kids = self.attempt("listdir", lambda: list(e.listdir()))
                seen = seen + (kids or [])[:30]
        for e in seen[:300]:
            self.attempt("attributes", lambda: (e.name, e.type, e.class_id, e.byte_size, e.sector_id, e.path(), e.create_time, e.color, repr(e)))
            ok, p = self.attempt("path", e.path)
            if ok:
                self.attempt("find", c.find, p)
                self.attempt("exists", c.exists, p)
            self.attempt("read", self.read, e)
        self.attempt("tree check", c.validate_directory_structure)

    def read(self, e):
        if not e.isfile():
            return
        s = e.open("r")
        k = mix(self.plan["order"], e.dir_id) % 4
        if k == 0:
            return s.read()
        if k == 1:
            n = 0
            while n < 200 and s.read(97):
                n += 1
            return
        if k == 2:
            s.seek(mix(e.dir_id) % (e.byte_size + 1))
            return s.read(5000)
        s.seek(-min(e.byte_size, 100), 2)
        return s.read()

    # ---- AAF
    def aaf(self, f):
        at = self.attempt
        order = random.Random(self.plan["order"])
        parts = [lambda: at("dump", f.dump), lambda: self.meta(f), lambda: self.objects(f), lambda: self.mobs(f),
                 lambda: at("walk_references", lambda: [0 for _ in f.root.walk_references()]),
                 lambda: at("walk_references", lambda: [0 for _ in f.root.walk_references(topdown=True)])]
        order.shuffle(parts)
        for p in parts:
            p()

    def meta(self, f):
        at = self.attempt
        for what, name in (("classes", "ClassDefinitions"), ("types", "TypeDefinitions")):
            ok, l = at(what, lambda: list(f.metadict[name].value))
            for d in (l or [])[:400]:
                if what == "classes":
                    at("class", lambda: (d.class_name, d.concrete, d.parent, [p.property_name for p in d.all_propertydefs()], d.unique_key_pid, repr(d)))
                    at("is instance", lambda: d.isinstance(d))
                else:
                    at("type", lambda: (d.type_name, d.store_format, repr(d), getattr(d, "elements", None), getattr(d, "fields", None)))
                    at("type size", lambda: getattr(d, "byte_size", None))
                    if hasattr(type(d), "decode"):
                        at("type decode", d.decode, bytes(16))

    def objects(self, f):
        ok, root = self.attempt("root", lambda: f.root)
        seen = set()
        stack = [(root, 0)]
        n = 0
        while stack and n < 2500:
            o, depth = stack.pop()
            if o is None or id(o) in seen:
                continue
            seen.add(id(o))
            self.kept.append(o)
            n += 1
            self.attempt("object", lambda: (o.name, repr(o), list(o.keys()), o.classdef))
            if depth < 4:
                self.attempt("all keys", lambda: list(o.allkeys()))
            ok, props = self.attempt("properties", lambda: list(o.properties()))
            for p in props or []:
                self.attempt("property", lambda: (p.name, repr(p), p.typedef, p.format_name()))
                ok, v = self.attempt("value", self.value, p)
                if ok:
                    for x in v if isinstance(v, list) else [v]:
                        if isinstance(x, core.aaf2.core.AAFObject):
                            stack.append((x, depth + 1))
                    if type(p).__name__ == "StreamProperty":
                        self.attempt("stream", lambda: p.open("r").read())

    def value(self, p):
        v = p.value
        if hasattr(v, "__next__"):
            v = list(v)
        return v

    def mobs(self, f):
        at = self.attempt
        ok, h = at("header", lambda: f.header)
        ok, c = at("content", lambda: f.content)
        at("dictionary", lambda: f.dictionary)
        at("lookup", lambda: f.dictionary.lookup_datadef("picture"))
        if c is None:
            return
        ok, l = at("mobs", lambda: list(c.mobs))
        for n in ("toplevel", "mastermobs", "compositionmobs", "sourcemobs"):
            at(n, lambda: list(getattr(c, n)()))
        for m in (l or [])[:40]:
            at("mob", lambda: (m.name, m.mob_id, m.usage, list(m.slots), repr(m)))
            at("comments", lambda: dict(m.comments.items()))
            at("dependant mobs", lambda: list(m.dependant_mobs()))
            at("slot", m.slot_at, 1)
            ok, slots = at("slots", lambda: list(m.slots))
            for s in (slots or [])[:20]:
                at("segment", lambda: (s.segment, s.slot_id, s.name, s.media_kind))
                ok, seg = at("segment", lambda: s.segment)
                if seg is None:
                    continue
                if hasattr(type(seg), "index_at_time"):
                    at("positions", lambda: list(seg.positions()))
                    at("component at", lambda: seg.component_at_time(10))
                if hasattr(type(seg), "mob"):
                    at("source", lambda: (seg.mob, seg.slot, seg.start, seg.length))
                    at("source walk", lambda: list(seg.walk()))
            if hasattr(type(m), "descriptor"):
                at("descriptor", lambda: m.descriptor)
            if hasattr(type(m), "essence"):
                at("essence", lambda: m.essence and m.essence.open("r").read())
        at("essence data", lambda: [e.mob for e in c.essencedata])

    kept = ()


def execute(plan, keep_log=False):
    base = base_image(plan)
    kinds = set()
    data = base
    if plan["damage"]:
        # the layout is that of the valid file; a crash image may not have one
        try:
            d = damage.Damager(base, plan["focus"])
        except damage.refcfb.Bad:
            d = None
        if d is not None:
            for k in plan["damage"]:
                d.one(*k)
            kinds = set(d.done)
            data = d.bytes()
    if plan["base"] == "crash":
        kinds.add("crash")
    with core.world(plan["seed"], cache_size=plan["cache"], keep_log=keep_log) as w:
        w.disk.put("d.aaf", data)
        w.disk.op_limit = 200000 + 60 * (len(data) // 64)
        wk = Walk(w, len(data), plan)
        wk.kept = []
        w.log("damaged", sorted(kinds), len(data), core.dig(data))
        wk.limits = Limits()
        with wk.limits:
            try:
                fp = core._sim_open("/simfs/d.aaf", "rb", buffering=plan["buffering"])
                ok, c = wk.attempt("open compound file", core.aaf2.cfb.CompoundFileBinary, fp, "rb")
                if ok:
                    w.probe("compound file opened")
                    wk.cfb(c)
                    wk.attempt("close", c.close)
                c = None
                fp.close()
                if plan["base"] != "cfb":
                    ok, f = wk.attempt("open", lambda: core.aaf2.open("/simfs/d.aaf", plan["mode"], extensions=plan["ext"], buffering=plan["buffering"]))
                    if ok:
                        w.probe("AAF file opened")
                        wk.aaf(f)
                        if plan["mode"] == "r":
                            wk.attempt("close", f.close)
                        else:
                            wk.attempt("save", f.save)
                            wk.attempt("close", f.close)
                        f.f.close()
                    f = None
            finally:
                wk.kept = []
                STEPS.limit = None
        if plan["mode"] == "r" and w.disk.get("d.aaf") != data:
            raise Violation("read-modified", "reading changed the file")
        w.probe("calls that raised", sum(wk.failed.values()))
        w.probe("calls that succeeded", wk.ok)
        states = [repr((sorted(kinds), wk.stage, sorted(wk.failed)[:3]))]
        st = {"operations": wk.ok + sum(wk.failed.values()), "probes": w.probes, "faults": {"damage: " + k: 1 for k in kinds},
              "steps_in_code_under_test": STEPS.n, "raw_io": dict(w.disk.counts), "raw_bytes_read": w.disk.bytes_read}
        return {"digest": w.log.digest(), "stats": st, "states": states, "nontrivial": data != base or plan["base"] == "crash",
                "sample": {"seed": plan["seed"], "base": plan["base"], "damage": plan["damage"], "kinds": sorted(kinds), "failed": wk.failed},
                "log": w.log.lines if keep_log else None}
