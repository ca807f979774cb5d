"""C11: a file opened read-only is never modified."""
import random

from .. import aafsim, cfbsim, core
from ..core import Violation, lib, mix, pattern
from . import c04

RUNS = {"quick": 1400, "thorough": 60000}
WALL_CAP = {"quick": 90, "thorough": 3000}
BATCH = 10
RULE = ("one run = one seeded file (independent writer, library, other software) opened for reading, a seeded mix of reads through kept "
        "handles and objects and attempts to change it through every interface; after each attempt what was touched, and regularly everything, "
        "is compared with the file's model; distinct by event-log digest; non-trivial = at least 3 attempts to change something")
STATE_MEASURE = "distinct (interface, kind of attempt, exception)"
ASSUMPTIONS = ["reaching into private state (raw property data, internal tables) is not an attempted mutation"]
REAL = ["all of aaf2"]


def setup():
    aafsim.rich_images()


def generate(rng, tier, index):
    n = rng.choice([4, 10, 20, 40])
    if rng.random() < .45:
        p = c04.generate(rng, tier, 1)
        plan = {"kind": "cfb", "cfg": p["cfg"], "opt": p["opt"], "tree": p["tree"], "fmode": rng.choice(["rb", "rb+"])}
    else:
        plan = {"kind": "aaf", "cfg": {"third": None, "rich": rng.randrange(aafsim.NRICH), "ss": 4096, "img_ext": True, "hold": rng.choice([0, .3, 1]),
                                       "buffering": rng.choice([-1, -1, 0])},
                "third": rng.choice([None, None, None, None, "empty", "bezier01", "sector_size_512"]), "ext": rng.random() < .5,
                "cache": rng.choice([None, None, 1, 4])}
    plan["ops"] = [[rng.choice(("try",) * 6 + ("read",) * 2 + ("gc", "check")), rng.getrandbits(30), rng.getrandbits(30)] for _ in range(n)]
    return plan


class Attempts(object):
    def __init__(self, w, iface):
        self.w = w
        self.iface = iface
        self.n = 0
        self.states = set()
        self.kinds = {}

    def __call__(self, what, fn, *a):
        """a call that would change the file: it has to raise"""
        self.n += 1
        try:
            r = fn(*a)
        except Violation:
            raise
        except Exception as e:
            if not core.from_code_under_test(e) and not isinstance(e, (TypeError, ValueError)):
                raise
            k = type(e).__name__
        else:
            raise Violation("mutation-accepted", "%s: %s on a file opened for reading returned %.60r" % (self.iface, what, r))
        self.w.log("refused", what, k)
        self.kinds[what] = self.kinds.get(what, 0) + 1
        self.states.add(repr((self.iface, what, k)))


# ---------------------------------------------------------------- compound file
def cfb_attempt(s, t, rng):
    """one attempt to change the compound file"""
    c = s.cfb
    streams = s.streams()
    dirs = s.dirs()
    n = rng.choice(streams) if streams else None
    d = rng.choice(dirs)
    any_ = rng.choice(streams + [x for x in dirs if x is not s.model]) if streams or len(dirs) > 1 else None
    new = cfbsim.name_of(1000 + rng.randrange(1000))
    e = (lambda x: x.path() if rng.random() < .5 else c.find(x.path()))
    k = rng.randrange(14)
    base = d.path() if d is not s.model else ""
    if k == 0 and s.handles:
        h = rng.choice(s.handles)
        data = pattern(rng.getrandbits(20), rng.choice([1, 10, 70, 5000]))
        t("write through a handle", h.s.write, data)
    elif k == 1 and s.handles:
        h = rng.choice(s.handles)
        size = rng.choice([0, 1, 63, 64, 4095, 4096, len(h.node.data), len(h.node.data) + 1])
        t("truncate through a handle", h.s.truncate, size)
    elif k == 2 and n is not None:
        def f():
            st = c.open(e(n), "w")
            st.write(b"x")
        t("open(w)", f)
    elif k == 3 and n is not None:
        def f():
            st = c.open(e(n), "rw")
            st.write(b"x" * rng.choice([1, 100]))
        t("open(rw) and write", f)
    elif k == 4 and n is not None:
        def f():
            st = c.find(n.path()).open("rw")
            if rng.random() < .5:
                st.truncate(len(n.data) // 2)
            st.seek(len(n.data) + 10)
            st.write(b"1")
        t("open(rw) and truncate or seek", f)
    elif k == 5:
        t("open(w) of a new path", c.open, base + "/" + new, rng.choice(["w", "rw"]))
    elif k == 6:
        t("makedir", rng.choice([lambda: c.makedir(base + "/" + new), lambda: c.makedirs(base + "/" + new + "/x"),
                                 lambda: c.find(d.path()).makedir(new), lambda: c.create_dir_entry(base + "/" + new, "stream")]))
    elif k == 7:
        if not c.exists(base + "/" + new):
            t("touch", c.find(d.path()).touch, new)
    elif k == 8 and any_ is not None:
        if any_.kind == "s" or not any_.children:
            t("remove", c.remove, e(any_))
    elif k == 9 and any_ is not None:
        if any_.kind == "d":
            t("rmtree", c.rmtree, e(any_))
    elif k == 10 and any_ is not None:
        to = rng.choice(dirs)
        p = to
        while p is not None and p is not any_:
            p = p.parent
        if p is None:
            t("move", c.move, e(any_), (to.path() if to is not s.model else "") + "/" + new)
    elif k == 11:
        en = c.find(rng.choice(streams + dirs).path())
        a, v = rng.choice([("class_id", core.aaf2.auid.AUID(int=rng.getrandbits(100))), ("class_id", None), ("flags", 77), ("create_time", 12345),
                           ("modify_time", 54321), ("name", new)])
        t("entry attribute " + a, setattr, en, a, v)
    elif k == 12:
        en = c.find(rng.choice(streams + dirs).path())
        a, v = rng.choice([("byte_size", 7), ("sector_id", 3), ("child_id", 1), ("left_id", 1), ("right_id", 1), ("color", "red"), ("type", "stream"),
                           ("red", True)])
        t("entry attribute " + a, setattr, en, a, v)
    elif k == 13 and n is not None:
        h = [h for h in s.handles if h.node is n]
        st = c.open(e(n), "r")
        st.seek(len(n.data))
        t("write at the end", st.write, b"12345")
        if h:
            cfb_read(s, rng, h[0])
    else:
        return False
    return True


def cfb_read(s, rng, h=None):
    streams = s.streams()
    if not streams:
        return
    if h is None and (not s.handles or rng.random() < .3):
        n = rng.choice(streams)
        s.handles.append(cfbsim_handle(n, lib("open r", s.cfb.open, n.path(), "r")))
        s.handles = s.handles[-6:]
    h = h or rng.choice(s.handles)
    size = len(h.node.data)
    if rng.random() < .4:
        pos = rng.choice([0, size, size // 2, size + 5, max(0, size - 1)])
        lib("seek", h.s.seek, pos)
        h.pos = pos
    n = rng.choice([1, 64, 700, 5000, -1])
    got = lib("read", h.s.read, n)
    want = bytes(h.node.data[h.pos:] if n == -1 else h.node.data[h.pos:h.pos + n])
    if bytes(got) != want:
        raise Violation("wrong-content", "%s at %d: %s" % (h.node.path(), h.pos, cfbsim._diff(want, bytes(got))))
    h.pos = max(h.pos, min(h.pos + len(want), h.pos + len(want)))
    if lib("tell", h.s.tell) != h.pos:
        raise Violation("wrong-position", "tell() is %d, expected %d" % (h.s.tell(), h.pos))


class cfbsim_handle(object):
    def __init__(self, node, s):
        self.node = node
        self.s = s
        self.pos = 0


def run_cfb(plan, w):
    s = cfbsim.Session(w, plan["cfg"])
    s.foreign = True
    s.i = -1
    c04.build(plan, s)
    data = w.disk.get(s.FILE)
    cfbsim.apply_disk_cfg(w, plan["cfg"])
    s.f = core._sim_open(core.simdisk.simpath(s.FILE), plan["fmode"], buffering=s.buffering())
    s.readonly = True
    s.cfb = lib("open rb", core.aaf2.cfb.CompoundFileBinary, s.f, "rb")
    t = Attempts(w, "cfb")
    for what, a, b in plan["ops"]:
        rng = random.Random(mix(a, b))
        if what == "try":
            if cfb_attempt(s, t, rng) and rng.random() < .3:
                s.verify("after a refused change")
        elif what == "read":
            cfb_read(s, rng)
        elif what == "gc":
            w.gc()
        else:
            s.verify("in between")
    s.verify("at the end")
    for h in list(s.handles):
        cfb_read(s, random.Random(1), h)
    s.handles = []
    lib("close", s.cfb.close)
    s.f.close()
    return s.FILE, data, t, s


# ---------------------------------------------------------------- AAF
def aaf_attempt(s, t, rng):
    a2 = core.aaf2
    f = s.f
    k = rng.randrange(10)
    if k < 6:
        # a property of some object
        if rng.random() < .3:
            mo = s.pick_obj(rng.getrandbits(16))
            if not mo.props:
                return
            n = rng.choice(sorted(mo.props))
        else:
            # the rare forms as often as the common ones
            forms = {}
            for x in s.user():
                for pn, (form, _) in sorted(x.props.items()):
                    forms.setdefault(form, []).append((x, pn))
            mo, n = rng.choice(forms[rng.choice(sorted(forms))])
        o = s.py(mo)
        form, val = mo.props[n]
        p = s.prop(o, mo, n)
        q = rng.random()
        if q < .2:
            t("del %s" % form, o.__delitem__, n)
        elif form == "stream":
            what = rng.randrange(4)
            if what == 0:
                t("stream open(w)", p.open, rng.choice(["w", "rw"]))
            elif what == 1:
                st = lib("stream", p.open, "r")
                lib("read", st.read, rng.choice([0, 3, 100]))
                t("stream write", st.write, b"abc")
                if not (lib("stream", p.open, "r").read() == val):
                    raise Violation("wrong-stream", "%s.%s" % (mo.path(), n))
            elif what == 2:
                st = lib("stream", p.open, "r")
                t("stream truncate", st.truncate, rng.choice([0, len(val) // 2, len(val) + 3]))
            else:
                st = lib("stream", p.open, "r")
                lib("seek", st.seek, 0, 2)
                t("stream append", st.write, b"x" * 5000)
        elif form == "data":
            v = lib("value", lambda: p.value)
            t("value =", setattr, p, "value", rng.choice([None, v, v]))
        elif form == "s":
            v = lib("value", lambda: p.value)
            what = rng.randrange(3)
            if what == 0:
                t("reference = None", setattr, p, "value", None)
            elif what == 1:
                t("reference = itself", setattr, p, "value", v)
            else:
                t("detach", v.detach)
        elif form == "V":
            vs = lib("value", lambda: p.value)
            x = vs[0] if vs else o
            what = rng.randrange(9)
            i = rng.randrange(-len(vs) - 1, len(vs) + 1)
            call = [lambda: setattr(p, "value", rng.choice([None, [], vs])), lambda: p.append(x), lambda: p.extend([x]), lambda: p.insert(i, x),
                    lambda: p.pop(rng.randrange(len(vs))), lambda: p.clear(), lambda: p.__setitem__(rng.randrange(len(vs)), x),
                    lambda: p.extend(vs), lambda: x.detach()][what]
            if what in (4, 6) and not vs:
                return
            t("vector %d" % what, call)
        elif form == "S":
            vs = lib("value", lambda: p.value)
            x = rng.choice(vs) if vs else o
            what = rng.randrange(6)
            if what in (3, 5) and not vs:
                return
            key = x.unique_key if vs else None
            other = a2.mobid.MobID.new() if isinstance(key, a2.mobid.MobID) else a2.auid.AUID(int=rng.getrandbits(100))
            t("set %d" % what, [lambda: setattr(p, "value", rng.choice([None, [], vs])), lambda: p.append(x), lambda: p.extend(vs or [x]),
                                lambda: p.pop(key), lambda: p.clear(), lambda: p.swap_unique_key(key, other)][what])
        elif form == "w":
            v = lib("value", lambda: p.value)
            t("weak =", setattr, p, "value", rng.choice([None, v]))
        else:
            vs = lib("value", lambda: p.value)
            t("weak vector", rng.choice([lambda: setattr(p, "value", rng.choice([None, [], vs])), lambda: p.append(vs[0] if vs else o), p.clear,
                                         lambda: p.extend(vs or [o])]))
        s.check(mo, "after a refused change")
        return
    if k == 6:
        # a property that is not set
        mo = s.pick_obj(rng.getrandbits(16))
        o = s.py(mo)
        have = set(mo.props)
        ps = [p for p in s.pdefs(mo.cls) if p["name"] not in have]
        if ps:
            pd = rng.choice(ps)
            try:
                p = o[pd["name"]]
            except KeyError:
                return
            kind = type(p).__name__
            if kind == "StreamProperty":
                t("unset stream", p.open, rng.choice(["w", "rw", "r"]))
            elif kind == "Property":
                t("unset value =", setattr, p, "value", rng.choice([1, "a", 0]))
            else:
                t("unset %s =" % kind, setattr, p, "value", rng.choice([o, [o]]))
            s.check(mo, "after a refused change")
        return
    if k == 7:
        # the helpers of objects
        mobs = s.content().props["Mobs"][1]
        mo = rng.choice(list(mobs.values())) if mobs else None
        calls = [("save", None)]
        d = lib("dictionary", lambda: f.dictionary)
        c = lib("content", lambda: f.content)
        if mo is not None:
            m = s.py(mo)
            calls += [("mob name", lambda: setattr(m, "name", "other")), ("mob_id", lambda: setattr(m, "mob_id", a2.mobid.MobID.new())),
                      ("usage", lambda: setattr(m, "usage", "Usage_TopLevel")), ("comment", lambda: m.comments.__setitem__("Scene", "5")),
                      ("timeline slot", lambda: m.create_timeline_slot(25)), ("picture slot", lambda: m.create_picture_slot()),
                      ("append attached mob", lambda: c.mobs.append(m)), ("pop mob", lambda: c.mobs.pop(m.mob_id)),
                      ("detach mob", m.detach)]
            slots = list(m.slots) if "Slots" in mo.props else []
            for sl in slots[:3]:
                calls += [("slot name", lambda: setattr(sl, "name", "x")), ("slot id", lambda: setattr(sl, "slot_id", 77))]
                try:
                    seg = sl.segment
                except AttributeError:
                    continue
                calls += [("segment =", lambda: setattr(sl, "segment", seg)), ("length", lambda: setattr(seg, "length", 5)),
                          ("media kind", lambda: setattr(seg, "media_kind", "sound"))]
        calls += [("create with values", lambda: f.create.Filler("picture", 10)), ("create mob", lambda: f.create.MasterMob("x")),
                  ("create def", lambda: f.create.DataDef("01030202-0100-0000-060e-2b3404010199", "n", "d")),
                  ("register_def", lambda: d.register_def(list(d["DataDefinitions"].values())[0]))]
        for o2 in [x for x in s.everything() if x.cls in ("ConstantValue", "TaggedValue", "ControlPoint", "VaryingValue")][:6]:
            def go(o2=o2):
                o = s.py(o2)
                if o2.cls == "TaggedValue":
                    o.encode_value("hello", f.metadict.lookup_typedef("aafString"))
                elif o2.cls == "ConstantValue":
                    o.value = a2.rational.AAFRational(7, 3)
                elif o2.cls == "ControlPoint":
                    o.value = 5
                else:
                    o.add_keyframe(.5, 3)
            calls.append((o2.cls, go))
        what, call = rng.choice(calls)
        if call is None:
            lib("save", f.save)
            return
        t("helper: " + what, call)
        return
    if k == 8:
        # definitions
        md = f.metadict
        uid = "%08x-0000-0000-060e-2b3401010102" % rng.getrandbits(32)
        cd = rng.choice(list(md.classdefs_by_auid.values()))
        en = [x for x in md.typedefs_by_auid.values() if type(x).__name__ in ("TypeDefEnum", "TypeDefExtEnum")]
        before = (len(cd["Properties"]) if cd.class_name != "Root" else 0, len(md["ClassDefinitions"]), len(md["TypeDefinitions"]))
        what, call = rng.choice([
            ("register_classdef", lambda: md.register_classdef("New%d" % rng.randrange(99), uid, "InterchangeObject", True, {})),
            ("register_classdef with properties", lambda: md.register_classdef("Mob", "0d010101-0101-3400-060e-2b3402060101", "InterchangeObject", False, {
                "Extra": (uid, None, "UInt32", True, False)})),
            ("register_propertydef", lambda: cd.register_propertydef("Extra", uid, None, "UInt32", True)),
            ("register_extensions", md.register_extensions if not s.have_ext else None),
            ("register_typedef_model", lambda: md.register_typedef_model({"strings": {"XString": (uid, "02010100-0000-0000-060e-2b3401040101")}})),
            ("register_element", lambda: e_register(rng.choice(en), rng))])
        if call is None:
            return
        t("definitions: " + what, call)
        after = (len(cd["Properties"]) if cd.class_name != "Root" else 0, len(md["ClassDefinitions"]), len(md["TypeDefinitions"]))
        if after != before:
            raise Violation("changed-in-memory", "%s raised but definitions went from %s to %s" % (what, before, after))
        return
    # the compound file below
    c = f.cfb
    paths = ["/properties", "/Header-2/properties", "/referenced properties", "/Header-2"]
    p = rng.choice(paths)
    what = rng.randrange(6)
    if c.find(p) is None:
        return
    isdir = c.find(p).isdir()
    if what == 0:
        t("cfb open(w)", c.open, p, "w")
    elif what == 1 and not isdir:
        st = lib("open", c.open, p, "r")
        t("cfb write", st.write, b"\0" * rng.choice([1, 100, 10000]))
    elif what == 2:
        t("cfb move", c.move, p, "/moved")
    elif what == 3:
        t("cfb remove", c.rmtree if isdir else c.remove, p)
    elif what == 4:
        t("cfb makedir", c.makedir, "/new")
    else:
        t("cfb class_id", setattr, c.find(p), "class_id", None)


def e_register(t, rng):
    if type(t).__name__ == "TypeDefEnum":
        return t.register_element("Extra%d" % rng.randrange(99), 100 + rng.randrange(50))
    return t.register_element("Extra%d" % rng.randrange(99), core.aaf2.auid.AUID(int=rng.getrandbits(100)))


def run_aaf(plan, w):
    cfg = dict(plan["cfg"])
    if plan["third"]:
        cfg.update(third=plan["third"], rich=None)
    s = aafsim.Session(w, cfg)
    s.rng = random.Random(plan["seed"])
    s.nav = random.Random(mix("nav", plan["seed"]))
    s.load()
    data = w.disk.get(s.name)
    s.open("r", plan["ext"])
    t = Attempts(w, "aaf")
    for what, a, b in plan["ops"]:
        rng = random.Random(mix(a, b))
        if what == "try":
            aaf_attempt(s, t, rng)
        elif what == "read":
            mo = s.pick_obj(a)
            s.check(mo, "in between")
        elif what == "gc":
            w.gc()
        else:
            s.verify("in between", full=False)
    s.verify("at the end")
    s.close()
    return s.name, data, t, s


def execute(plan, keep_log=False):
    with core.world(plan["seed"], cache_size=plan.get("cache") or plan["cfg"].get("cache"), keep_log=keep_log) as w:
        name, data, t, s = (run_cfb if plan["kind"] == "cfb" else run_aaf)(plan, w)
        if w.disk.write_attempts.get(name):
            raise Violation("write-reached-file", "%d raw writes or truncates were made" % w.disk.write_attempts[name])
        if w.disk.get(name) != data:
            raise Violation("file-modified", "the bytes of the file changed")
        w.log("end", core.dig(data))
        st = {"operations": len(plan["ops"]), "probes": dict(w.probes, **{"refused " + k.split(":")[0]: v for k, v in t.kinds.items()}), "faults": {},
              "raw_io": dict(w.disk.counts), "steps_in_code_under_test": core.STEPS.n, "simulated_seconds": w.sim_seconds,
              "raw_bytes_read": w.disk.bytes_read, "gc_points": w.gc_points}
        return {"digest": w.log.digest(), "stats": st, "states": list(t.states), "nontrivial": t.n >= 3,
                "sample": {"seed": plan["seed"], "kind": plan["kind"], "refused": dict(list(t.kinds.items())[:8]), "log_digest": w.log.digest()},
                "log": w.log.lines if keep_log else None}
