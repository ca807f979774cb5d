"""AAF object-layer engine: a model of owned objects and property values, operations on the real API,
live comparison and comparison through the independent reader."""
import gc
import io
import lzma
import os
import random
import types as _types

from . import aaftypes, cfbsim, core, refaaf, refcfb
from .aaftypes import akey, atext, gen_mobid
from .core import Violation, dig, lib, lib_raises, mix, pattern

META = {"Root", "MetaDictionary", "ClassDefinition", "PropertyDefinition", "MetaDefinition", "Header", "Dictionary",
        "ContentStorage"}
PARAM_DEF = "Definition"
DAY12 = 60 * 60 * 12
MISSING = object()


class MO(object):
    __slots__ = ("cls", "props", "owner", "py", "new")

    def __init__(self, cls, owner=None):
        self.cls = cls
        self.props = {}
        self.owner = owner
        self.py = None
        self.new = False

    def kids(self):
        for name, (form, val) in self.props.items():
            if form == "s":
                yield name, val
            elif form == "V":
                for v in val:
                    yield name, v
            elif form == "S":
                for v in val.values():
                    yield name, v

    def walk(self):
        todo = [self]
        while todo:
            o = todo.pop()
            yield o
            todo.extend([k for _, k in o.kids()])

    def path(self):
        out = []
        o = self
        while o is not None:
            out.append(o.cls if o.owner is None else o.owner[1])
            o = o.owner[0] if o.owner else None
        return "/".join(reversed(out))

    def __repr__(self):
        return "<MO %s>" % self.path()


def from_reader(aaf):
    """model of a file as the independent reader sees it (without the meta dictionary)"""
    def conv(o, owner):
        m = MO(o.cls, owner)
        for p in o.props.values():
            if p.name == "MetaDictionary" and o.cls == "Root":
                continue
            f = p.form
            if f == "s":
                v = conv(p.val, (m, p.name))
            elif f == "V":
                v = [conv(x, (m, p.name)) for x in p.val]
            elif f == "S":
                v = {k: conv(x, (m, p.name)) for k, x in p.val.items()}
            elif f in ("W", "X"):
                v = list(p.val)
            else:
                v = p.val
            m.props[p.name] = [f, v]
        return m
    return conv(aaf.root, None)


def diff(a, b, path=""):
    """first difference between two models, or None"""
    if a.cls != b.cls:
        return "%s: is a %s, expected a %s" % (path, b.cls, a.cls)
    if set(a.props) != set(b.props):
        lost = sorted(set(a.props) - set(b.props))
        extra = sorted(set(b.props) - set(a.props))
        return "%s (%s): missing %s, unexpected %s" % (path, a.cls, lost, extra)
    for n in a.props:
        fa, va = a.props[n]
        fb, vb = b.props[n]
        p = "%s.%s" % (path, n)
        if fa != fb:
            return "%s: stored as %s, expected %s" % (p, fb, fa)
        if fa == "s":
            d = diff(va, vb, p)
            if d:
                return d
        elif fa == "V":
            if len(va) != len(vb):
                return "%s: %d objects, expected %d" % (p, len(vb), len(va))
            for i, (x, y) in enumerate(zip(va, vb)):
                d = diff(x, y, "%s[%d]" % (p, i))
                if d:
                    return d
        elif fa == "S":
            if set(va) != set(vb):
                return "%s: keys lost %s, unexpected %s" % (p, sorted(set(va) - set(vb))[:3], sorted(set(vb) - set(va))[:3])
            for k in va:
                d = diff(va[k], vb[k], "%s{%s}" % (p, k[2:10]))
                if d:
                    return d
        elif fa == "stream":
            if va != vb:
                return "%s: %s" % (p, cfbsim._diff(va, vb))
        elif fa == "X":
            if sorted(va) != sorted(vb):
                return "%s: %r, expected %r" % (p, vb, va)
        elif va != vb:
            return "%s: %.150r, expected %.150r" % (p, vb, va)
    return None


def clone(m, owner=None):
    c = MO(m.cls, owner)
    for n, (f, v) in m.props.items():
        if f == "s":
            v = clone(v, (c, n))
        elif f == "V":
            v = [clone(x, (c, n)) for x in v]
        elif f == "S":
            v = {k: clone(x, (c, n)) for k, x in v.items()}
        elif isinstance(v, list) and f in ("W", "X"):
            v = list(v)
        c.props[n] = [f, v]
    return c


class Lib(object):
    """classes of the code under test"""
    def __init__(self):
        a = core.aaf2
        self.AUID = a.auid.AUID
        self.MobID = a.mobid.MobID
        self.AAFRational = a.rational.AAFRational

    def key(self, k):
        b = bytes.fromhex(k[2:])
        return self.AUID(bytes_le=b) if k[0] == "A" else self.MobID(bytes_le=b)


def fresh_image(ext=True, ss=4096):
    """a file as the library creates it, used as a starting image"""
    with core.world(mix("image", ext, ss)) as w:
        f = core.aaf2.open("/simfs/base", "w", extensions=ext, sector_size=ss)
        f.close()
        return w.disk.get("base")


def read_image(data, strict=True, frozen=None, ext=True, tmp=True):
    """(AAF reader) of a closed file, audited; raises Violation"""
    try:
        r = refcfb.Reader(data)
        if strict:
            r.audit(own_layout=True)
        a = refaaf.AAF(r)
        a.audit(frozen, ext, tmp)
    except refcfb.Bad as e:
        raise Violation("bad-file:" + e.cls, e.detail)
    return a


class Image(object):
    """A starting image: bytes, model, whether it holds the extensions."""

    def __init__(self, data, ext, builtin=None):
        self.data = data
        self.ext = ext
        r = refcfb.Reader(data)
        self.aaf = refaaf.AAF(r, builtin)
        self.model = from_reader(self.aaf)


THIRD = ("empty", "sector_size_512", "test_file_01", "bezier01")
_images = {}


def image(ext, ss):
    """a file made by the library, or (ss is a name) one made by other software"""
    k = (ext, ss)
    if k not in _images:
        if isinstance(ss, str):
            with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", ss + ".aaf.xz"), "rb") as f:
                _images[k] = Image(lzma.decompress(f.read()), False, aaftypes.frozen(False))
        else:
            _images[k] = Image(fresh_image(ext, ss), ext)
    return _images[k]


NRICH = 8
NMIX = 5
_rich = {}


class Rich(object):
    """an image with a seeded document in it"""

    def __init__(self, k):
        cfg = {"third": "bezier01" if k == 4 else None, "ss": 512 if k % 2 else 4096, "img_ext": k != 2, "ext": k != 2, "hold": 1}
        rng = random.Random(mix("rich", k))
        ops = gen_ops(rng, 60, {"set": 8, "vec": 10, "setp": 4, "ref": 5, "weak": 4, "mob": 8, "stream": 6, "helper": 10}, False)
        with core.world(mix("richworld", k)) as w:
            s = Session(w, cfg)
            s.rng = random.Random(k)
            s.nav = random.Random(k)
            s.start()
            # files in this set stay small enough for many runs
            s.limit = len(s.user()) + 110
            s.run(ops)
            s.pool = []
            s.finish()
            self.data = w.disk.get(s.name)
            self.model = s.root
        self.third = cfg["third"]
        self.ext = s.have_ext


def rich(k):
    if k not in _rich:
        from . import docs
        _rich[k] = Rich(k) if k < NMIX else docs.Doc(k - NMIX)
    return _rich[k]


def rich_images():
    for k in range(NRICH):
        rich(k)
    for n in THIRD:
        image(False, n)
    for ext in (False, True):
        for ss in (512, 4096):
            image(ext, ss)


_third_types = {}


# elements that the built-in model and the extensions both define
EXT_TOO = {"ColorPrimaries_ITU2020", "LineAlternating", "VerticalMidpoint"}


def session_types(base, ext):
    """the definitions in force in a session: those the file has, completed with built-in classes and types it
    lacks and, once the file was opened with them, the extensions"""
    if base is None:
        return aaftypes.frozen(ext)
    if (base, ext) not in _third_types:
        own = image(False, base).aaf.types
        full = aaftypes.frozen(ext)
        types = dict(own.types)
        for k, t in full.types.items():
            if k not in types:
                types[k] = t
            elif ext and "values" in t:
                have = {str(v[0]) for v in types[k]["values"]}
                new = [v for v in t["values"] if (v not in t["base_values"] or v[1] in EXT_TOO) and str(v[0]) not in have]
                types[k] = dict(types[k], values=types[k]["values"] + new)
        classes = {}
        for k, c in full.classes.items():
            o = own.classes.get(k)
            if o is None:
                classes[k] = c
            else:
                have = {p["auid"] for p in o["props"]}
                classes[k] = dict(o, py=c["py"], props=o["props"] + [p for p in c["props"] if p["ext"] and p["auid"] not in have])
        for k, o in own.classes.items():
            if k not in classes:
                classes[k] = dict(o, py="AAFObject")
        _third_types[base, ext] = aaftypes.Types(types, classes)
    return _third_types[base, ext]


class Session(object):
    """One file, its model, and operations on both."""

    def __init__(self, w, cfg, name="a"):
        self.w = w
        self.cfg = cfg
        self.name = name
        self.lib = Lib()
        self.hold = cfg.get("hold", .3)
        self.pool = []
        self.f = None
        self.states = set()
        self.executed = 0
        self.last = None
        self.skipped = 0
        self.additive = cfg.get("additive", False)
        self.counts = {}
        self.have_ext = cfg.get("img_ext", True) and not cfg.get("third")
        self.kept = []
        self.nav = random.Random(0)
        self.props = {}
        self.opts = {"buffering": cfg["buffering"]} if "buffering" in cfg else {}

    # ------------------------------------------------------------ files
    def path(self):
        return core.simdisk.simpath(self.name)

    def load(self):
        """put the starting image on the disk without opening it"""
        cfg = self.cfg
        if cfg.get("rich") is not None:
            img = rich(cfg["rich"])
            cfg = self.cfg = dict(cfg, third=img.third)
            self.have_ext = img.ext
        else:
            img = image(False, cfg["third"]) if cfg.get("third") else image(cfg.get("img_ext", True), cfg.get("ss", 4096))
        self.root = clone(img.model)
        self.limit = len(self.user()) + 200
        self.w.disk.put(self.name, img.data)

    def start(self):
        cfg = self.cfg
        if cfg.get("rich") is not None:
            self.load()
            self.open("rw", self.cfg.get("ext", True))
            return
        img = image(False, cfg["third"]) if cfg.get("third") else image(cfg.get("img_ext", True), cfg.get("ss", 4096))
        self.root = clone(img.model)
        self.limit = len(self.user()) + 200
        if cfg.get("fresh") and not cfg.get("third"):
            self.f = lib("open w", core.aaf2.open, self.path(), "w", extensions=cfg.get("img_ext", True),
                         sector_size=cfg.get("ss", 4096), **self.opts)
            self._absorb_volatile()
        else:
            self.w.disk.put(self.name, img.data)
            self.open("rw", cfg.get("ext", True))

    def _absorb_volatile(self):
        h = self.root.props["Header"][1]
        i = h.props["IdentificationList"][1][0]
        fh = self.f.header
        fi = fh["IdentificationList"].value[0]
        for mo, o, names in ((h, fh, ("LastModified",)), (i, fi, ("GenerationAUID", "Date"))):
            for n in names:
                t = self.ptype(mo.cls, n)
                v = self.T.fromlib(t, lib("read", lambda: o[n].value))
                if v is not None and v[0] == "T":
                    v[7] = 0
                mo.props[n][1] = v

    def open(self, mode, ext=True):
        self.f = lib("open %s" % mode, core.aaf2.open, self.path(), mode, extensions=ext, **self.opts)
        if ext and mode != "r":
            self.have_ext = True

    @property
    def T(self):
        return session_types(self.cfg.get("third"), self.have_ext)

    def close(self):
        self.drop_all()
        lib("close", self.f.close)
        n = self.w.disk.write_attempts.get(self.name)
        self.f = None
        if self.w.disk.write_attempts.get(self.name) != n:
            raise Violation("late-write", "data was still written after close returned")
        self.w.log("close", self.w.disk.files[self.name].size)

    def drop_all(self):
        for mo in self.root.walk():
            mo.py = None
        self.pool = []
        self.props = {}

    def image(self):
        return self.w.disk.files[self.name]

    def audit_file(self, where):
        a = read_image(self.image(), strict=not self.cfg.get("third"), frozen=self.T, ext=self.have_ext)
        d = diff(self.root, from_reader(a), "")
        if d:
            raise Violation("stored-graph-differs", "%s: %s" % (where, d))
        self.w.probe("audits")
        return a

    # ------------------------------------------------------------ model helpers
    def pdefs(self, cls):
        T = self.T
        if not hasattr(T, "pdefs"):
            T.pdefs = {}
        if cls not in T.pdefs:
            ps = list(T.props(cls))
            names = [p["name"] for p in ps]
            T.pdefs[cls] = [p for p in ps if names.count(p["name"]) == 1]
        return T.pdefs[cls]

    def pdef(self, cls, name):
        for p in self.T.props(cls):
            if p["name"] == name:
                return p
        raise KeyError((cls, name))

    def ptype(self, cls, name):
        return self.pdef(cls, name)["type"]

    def header(self):
        return self.root.props["Header"][1]

    def content(self):
        return self.header().props["Content"][1]

    def dictionary(self):
        return self.header().props["Dictionary"][1]

    def user(self):
        out = [m for _, top in self.content().kids() for m in top.walk()]
        out += [m for m in self.header().props["IdentificationList"][1]]
        d = self.dictionary()
        out += [m for _, m in d.kids() if m.new]
        out.append(self.content())
        out += [m for p in self.pool for m in p.walk()]
        return out

    def everything(self):
        return [m for m in self.root.walk()] + [m for p in self.pool for m in p.walk()]

    def pick_obj(self, k, pred=None):
        c = self.user() if k % 7 else self.everything()
        if pred:
            c = [m for m in c if pred(m)]
            if not c:
                c = [m for m in self.everything() if pred(m)]
        if not c:
            return None
        return c[(k // 7) % len(c)]

    def attached(self, mo):
        while mo.owner is not None:
            mo = mo.owner[0]
        return mo is self.root

    def top(self, mo):
        while mo.owner is not None:
            mo = mo.owner[0]
        return mo

    # ------------------------------------------------------------ navigation
    def py(self, mo, rng=None):
        """the live object of a model object, by some route"""
        if mo.py is not None:
            return mo.py
        rng = self.nav
        if mo is self.root:
            return self.f.root
        parent, pname = mo.owner
        if parent is self.root and rng.random() < .5:
            r = self.f.header
        elif parent is self.header() and pname == "Content" and rng.random() < .7:
            r = self.f.content
        elif parent is self.header() and pname == "Dictionary" and rng.random() < .7:
            r = self.f.dictionary
        else:
            po = self.py(parent, rng)
            form, val = parent.props[pname]
            r = lib("navigate %s.%s" % (parent.cls, pname), self._fetch, po, pname, form, val, mo, rng)
        if r is None:
            raise Violation("object-lost", "%s reads as None" % mo.path())
        if rng.random() < self.hold:
            mo.py = r
        return r

    def _fetch(self, po, pname, form, val, mo, rng):
        k = rng.randrange(4)
        p = po[pname] if k else po.get(pname)
        if form == "s":
            if k == 1:
                return po.getvalue(pname)
            return p.value
        if form == "V":
            i = [n for n, x in enumerate(val) if x is mo][0]
            if k == 0:
                return p[i - len(val)]
            if k == 1:
                return p.get(i)
            if k == 2:
                return p.value[i]
            return list(p)[i]
        key = [x for x, y in val.items() if y is mo][0]
        lk = self.lib.key(key)
        if k == 0:
            return p[lk]
        if k == 1:
            return p.get(lk)
        if k == 2:
            for a, b in p.items():
                if a == lk:
                    return b
            return None
        for b in p.value:
            if b.unique_key == lk:
                return b
        return None

    def prop(self, o, mo, n):
        """the property object obj[n], sometimes one the program got earlier and kept"""
        have = self.props.get((id(mo), n))
        if have is not None and self.nav.random() < .6:
            if have[1].parent is o:
                self.w.probe("kept property object used")
                return have[1]
            raise Violation("second-object", "%s: two live objects for one stored object" % mo.path())
        p = lib("property %s.%s" % (mo.cls, n), o.__getitem__, n)
        if self.nav.random() < self.hold * .6:
            self.props[(id(mo), n)] = (mo, p)
        return p

    # ------------------------------------------------------------ live comparison
    def norm(self, t, x, given):
        return self.T.fromlib(t, x, given if isinstance(given, list) and given and given[0] == "I" else None)

    def check_prop(self, o, mo, n, where):
        form, val = mo.props[n]
        what = "%s: %s.%s" % (where, mo.path(), n)
        p = self.prop(o, mo, n)
        if form == "data":
            got = self.norm(self.ptype(mo.cls, n), lib("read " + what, lambda: p.value), val)
            if got != val:
                raise Violation("wrong-value", "%s is %.120r, expected %.120r" % (what, got, val))
        elif form == "stream":
            if self.attached(mo) and lib(what, lambda: p.value) is None:
                raise Violation("wrong-value", "%s has no stream" % what)
            s = lib("open " + what, p.open, "r")
            got = lib("read " + what, s.read)
            if got != val:
                raise Violation("wrong-stream", "%s: %s" % (what, cfbsim._diff(val, got)))
        elif form == "s":
            v = lib(what, lambda: p.value)
            if v is None or self.clsname(v) != val.cls:
                raise Violation("wrong-reference", "%s is %r, expected a %s" % (what, v and self.clsname(v), val.cls))
        elif form == "V":
            got = lib(what, lambda: [self.clsname(x) for x in p.value])
            if got != [x.cls for x in val] or len(p) != len(val):
                raise Violation("wrong-order", "%s holds %s, expected %s" % (what, got, [x.cls for x in val]))
        elif form == "S":
            got = lib(what, lambda: {self.knorm(k): self.clsname(x) for k, x in p.items()})
            if got != {k: x.cls for k, x in val.items()} or len(p) != len(val):
                raise Violation("wrong-set", "%s holds %d objects %s, expected %d %s" % (
                    what, len(got), sorted(set(got) - set(val))[:2], len(val), sorted(set(val) - set(got))[:2]))
        elif form == "w":
            v = lib(what, lambda: p.value)
            if v is None or self.knorm(v.unique_key) != val:
                raise Violation("wrong-reference", "%s refers to %r, expected %s" % (what, v and self.knorm(v.unique_key), val))
        else:
            got = lib(what, lambda: [self.knorm(x.unique_key) for x in p.value])
            if got != val if form == "W" else sorted(got) != sorted(val):
                raise Violation("wrong-reference", "%s refers to %s, expected %s" % (what, got, val))

    def knorm(self, k):
        b = bytes(k.bytes_le)
        return ("A:" if len(b) == 16 else "M:") + b.hex()

    def clsname(self, o):
        return o.classdef.class_name

    def check(self, mo, where, probe_absent=False):
        o = self.py(mo)
        want = set(mo.props)
        if mo is self.root:
            want.add("MetaDictionary")
        got = lib("keys", o.keys)
        if set(got) != want or len(got) != len(want):
            raise Violation("wrong-properties", "%s: %s has %s, expected %s" % (where, mo.path(), sorted(map(str, got)), sorted(want)))
        for n in mo.props:
            self.check_prop(o, mo, n, where)
        self.w.log("chk", mo.cls, len(want))

    def verify(self, where, full=True):
        for mo in (self.everything() if full else self.user()):
            self.check(mo, where)
        self.note_state()

    def note_state(self):
        d = {}
        for m in self.user():
            d[m.cls] = min(d.get(m.cls, 0) + 1, 4)
        self.states.add(hash(tuple(sorted(d.items())) + (len(self.pool),)) & 0xFFFFFFFF)

    # ------------------------------------------------------------ building objects
    def creatable(self, base):
        T = self.T
        noevent = "descriptivemetadata" not in self.datadefs()
        if not hasattr(T, "creatable"):
            T.creatable = {}
        if (base, noevent) not in T.creatable:
            T.creatable[base, noevent] = sorted(
                n for n, c in T.classes.items() if c["concrete"] and n not in META and not n.startswith("TypeDefinition") and
                T.isinstance(n, base) and not (noevent and T.isinstance(n, "Event")))
        return T.creatable[base, noevent]

    def defaults(self, mo, kw):
        """properties a constructor sets"""
        T = self.T
        chain = set(T.chain(mo.cls))
        py = T.classes[mo.cls]["py"]
        P = mo.props

        def d(n, v):
            P[n] = ["data", v]
        if py == "AAFObject":
            return
        if "Mob" in chain:
            now = self.w.now
            st = ["T", now.year, now.month, now.day, now.hour, now.minute, now.second, 0]
            d("Name", kw.get("name") or "Mob")
            d("CreationTime", st)
            d("LastModified", st)
            P["Slots"] = ["V", []]
        elif "MobSlot" in chain:
            if kw.get("slot_id") is not None:
                d("SlotID", kw["slot_id"])
            d("SlotName", kw.get("name") or "")
            if py == "TimelineMobSlot":
                d("Origin", kw.get("origin") or 0)
                d("EditRate", ["R", kw.get("edit_rate") or 25, 1])
        elif "Component" in chain:
            d("Length", kw.get("length") or 0)
            if py == "SourceClip":
                d("StartTime", kw.get("start") or 0)
                d("SourceID", kw.get("mob_id") or "M:" + "00" * 32)
                d("SourceMobSlotID", kw.get("slot_id") or 0)
            elif py == "Timecode":
                fps = kw.get("fps", 25)
                d("Length", kw.get("length") or fps * DAY12)
                d("Start", 0)
                d("FPS", fps)
                d("Drop", kw.get("drop", False))
            elif py == "Sequence":
                P["Components"] = ["V", []]
        elif "DefinitionObject" in chain:
            if kw.get("auid"):
                d("Identification", kw["auid"])
            if kw.get("name") is not None:
                d("Name", kw["name"])
            if kw.get("description") is not None:
                d("Description", kw["description"])
        elif "TaggedValue" in chain:
            if kw.get("name") is not None:
                d("Name", kw["name"])
            if kw.get("value") is not None:
                d("Value", kw["value"])

    def short(self, name):
        return name.replace("DataDef_", "").replace("ContainerDef_", "")

    def datadefs(self):
        """lower-cased short name -> keys"""
        out = {}
        p = self.dictionary().props.get("DataDefinitions")
        for k, m in (p[1].items() if p else ()):
            n = m.props.get("Name")
            if n:
                out.setdefault(self.short(n[1]).lower(), []).append(k)
        return out

    def build(self, cls, rng, depth=0, rich=.25, kw=None):
        """(mo) of a new detached object with every required property set; mo.py is held"""
        T = self.T
        mo = MO(cls)
        mo.new = True
        kw = dict(kw or {})
        py = T.classes[cls]["py"]
        chain = set(T.chain(cls))
        args, pkw = [], {}
        media = None
        if py == "CodecDef":
            args = [self.f.dictionary]
        if py == "OperationGroup":
            od = self.need_def("OperationDefinition", rng)
            args = [self.lib.key(od) if rng.random() < .5 else self.target("OperationDefinitions", od)]
            mo.props["Operation"] = ["w", od]
        if "Component" in chain and py != "AAFObject" and "Event" not in chain:
            names = self.datadefs()
            media = "timecode" if py == "Timecode" else "picture"
            if py != "Timecode" and rng.random() < .5:
                media = rng.choice(sorted(names))
                pkw["media_kind"] = media if rng.random() < .5 else media.title()
            if rng.random() < .5:
                kw.setdefault("length", rng.randrange(0, 10000))
                pkw["length"] = kw["length"]
            if py == "SourceClip" and rng.random() < .5:
                kw.update(start=rng.randrange(0, 99), slot_id=rng.randrange(0, 5), mob_id=gen_mobid(rng))
                pkw.update(start=kw["start"], slot_id=kw["slot_id"], mob_id=self.lib.key(kw["mob_id"]))
            if py == "Timecode" and rng.random() < .6:
                kw.update(fps=rng.choice([24, 25, 30]), drop=rng.random() < .5)
                pkw.update(fps=kw["fps"], drop=kw["drop"])
        elif "Event" in chain and py != "AAFObject":
            media = "descriptivemetadata"
        elif "MobSlot" in chain:
            if rng.random() < .6:
                kw.setdefault("slot_id", rng.randrange(0, 1000))
            if rng.random() < .4:
                kw["name"] = T.gen(rng, aaftypes.T_STRING)[:200]
            if py == "TimelineMobSlot" and rng.random() < .5:
                kw.update(origin=rng.randrange(100), edit_rate=rng.choice([24, 25, 48000]))
            for n in ("slot_id", "name", "origin", "edit_rate"):
                if n in kw:
                    pkw[n] = kw[n]
        elif "Mob" in chain and rng.random() < .6:
            kw.setdefault("name", T.gen(rng, aaftypes.T_STRING)[:100])
            pkw["name"] = kw["name"]
        elif "DefinitionObject" in chain and rng.random() < .7:
            kw.setdefault("auid", "A:" + rng.randbytes(16).hex())
            kw.setdefault("name", "def %x" % rng.getrandbits(40))
            pkw.update(auid=self.lib.key(kw["auid"]), name=kw["name"])
            if rng.random() < .4:
                kw["description"] = pkw["description"] = T.gen(rng, aaftypes.T_STRING)[:100]
        elif cls == "TaggedValue" and rng.random() < .5:
            kw["name"] = pkw["name"] = "tag %x" % rng.getrandbits(24)
            kw["value"] = T.gen(rng, self.ptype(cls, "Value"))
            pkw["value"] = T.tolib(self.ptype(cls, "Value"), kw["value"], self.lib)
        fname = py if py != "AAFObject" else cls
        if "name" in pkw:       # the factory's own parameter is called name, so a name is passed by position
            for order in (("auid", "name"), ("slot_id", "name"), ("name",)):
                if all(x in order or x not in ("auid", "slot_id") for x in pkw) and \
                        order[0] == ("auid" if "DefinitionObject" in chain else "slot_id" if "MobSlot" in chain else "name"):
                    args += [pkw.pop(x, None) for x in order]
                    break
        if py != "AAFObject" and rng.random() < .5:
            o = lib("create %s" % fname, lambda: getattr(self.f.create, fname)(*args, **pkw))
        else:
            o = lib("create %s" % fname, self.f.create.from_name, fname, *args, **pkw)
        mo.py = o
        self.defaults(mo, kw)
        if media is not None:
            key = self.knorm(lib("read DataDefinition", lambda: o["DataDefinition"].value).unique_key)
            if key not in self.datadefs().get(media, []):
                raise Violation("wrong-reference", "media kind %s set %s" % (media, key))
            mo.props["DataDefinition"] = ["w", key]
        if "Mob" in chain:
            v = self.T.fromlib(aaftypes.T_MOBID, lib("mob id", lambda: o.mob_id))
            if v is None:
                raise Violation("wrong-value", "new mob has no mob id")
            mo.props["MobID"] = ["data", v]
        names = []
        for p in self.pdefs(cls):
            n = p["name"]
            if n == "ObjClass" or n in mo.props:
                continue
            if not p["optional"]:
                names.append(p)
            elif rng.random() < rich and depth < 3:
                names.append(p)
        for p in names:
            self.fill(mo, p, rng, depth)
        return mo

    def fill(self, mo, p, rng, depth):
        """give a property of a new object a first value"""
        T = self.T
        n = p["name"]
        form = T.pform(p)
        o = mo.py
        if form == "data":
            if not T.supported(p["type"]):
                if p["optional"]:
                    return
                raise RuntimeError("unsupported required property %s.%s" % (mo.cls, n))
            v = T.gen(rng, p["type"])
            if mo.cls != "ParameterDefinition" and T.isinstance(mo.cls, "Parameter") and n == "Definition":
                v = self.need_def("ParameterDefinition", rng)
            self.put_data(o, mo, n, p["type"], v, rng)
        elif form == "stream":
            if p["optional"] and depth and rng.random() < .7:
                return
            size = rng.choice([0, 1, 100, 4095, 4096, 5000, 9000])
            d = pattern(rng.getrandbits(24), size)
            s = lib("open stream", o[n].open, "w")
            lib("write stream", s.write, d)
            mo.props[n] = ["stream", d]
        elif form in "sVS":
            base = T.ref_class(p["type"])
            cands = self.creatable(base)
            if not cands or p["optional"] and depth >= 2:
                return
            many = 0
            if form != "s":
                many = rng.choice([0, 1, 2, 3]) if depth < 2 else 0
            kids = []
            for _ in range(1 if form == "s" else many):
                k = self.build(self.simple(cands, base, depth, rng), rng, depth + 1, .15)
                kids.append(k)
            if form == "S":
                kids = self.unique_keys(kids, base)
            self.assign(o, mo, n, form, kids, rng)
        elif form in ("w", "W", "X"):
            tgt = self.targets(p["type"], rng, not p["optional"])
            if not tgt and form == "w":
                return
            keys = []
            for _ in range(1 if form == "w" else rng.randrange(0, 4)):
                k = rng.choice(tgt) if tgt else None
                if k is not None and (form == "W" or k not in keys):
                    keys.append(k)
            self.assign_weak(o, mo, n, form, p["type"], keys, rng)

    def simple(self, cands, base, depth, rng):
        if depth >= 2:
            easy = [c for c in cands if c in ("Filler", "SourceClip", "TimelineMobSlot", "TaggedValue", "TextLocator", "NetworkLocator",
                                              "TapeDescriptor", "ImportDescriptor", "ControlPoint", "PCMDescriptor")]
            if easy:
                return rng.choice(easy)
        if self.T.isinstance("SourceClip", base) and rng.random() < .6:
            return rng.choice([c for c in cands if c in ("Filler", "SourceClip", "Sequence", "Timecode", "NestedScope", "OperationGroup")])
        return rng.choice(cands)

    def set_key(self, mo, base):
        """key of an object in a strong reference set of base"""
        n = "Definition" if base == "Parameter" else [p["name"] for p in self.T.props(base) if p["unique"]][0]
        return mo.props[n][1] if n in mo.props else None

    def unique_keys(self, kids, base):
        out = {}
        for k in kids:
            out.setdefault(self.set_key(k, base), k)
        return list(out.values())

    # ------------------------------------------------------------ weak reference targets
    def dict_prop(self, cls):
        for p in self.pdefs("Dictionary"):
            if self.T.pform(p) == "S" and self.T.isinstance(cls, self.T.ref_class(p["type"])):
                return p["name"]
        return None

    def target(self, dprop, key):
        return lib("definition", lambda: self.f.dictionary[dprop][self.lib.key(key)])

    def need_def(self, cls, rng):
        """key of some definition of the class, made when there is none"""
        dp = self.dict_prop(cls)
        have = self.dictionary().props.get(dp)
        if have and have[1] and rng.random() < .8:
            return rng.choice(sorted(have[1]))
        mo = self.build(cls, rng, 2, .2)
        o = mo.py
        lib("register definition", self.f.dictionary.register_def if rng.random() < .5 and dp != "PluginDefinitions" else self.f.dictionary[dp].append, o)
        key = self.set_key(mo, cls)
        d = self.dictionary()
        d.props.setdefault(dp, ["S", {}])[1][key] = mo
        mo.owner = (d, dp)
        self.settle(mo, rng)
        return key

    def targets(self, t, rng, must=False):
        T = self.T
        cls = T.ref_class(t)
        if cls == "ClassDefinition":
            return [akey(c["auid"]) for n, c in sorted(T.classes.items()) if n != "Root"]
        if cls == "TypeDefinition":
            return [akey(a) for a in sorted(T.types) if not a.startswith(("05022700", "05022800"))]
        dp = self.dict_prop(cls)
        if dp is None:
            return []
        have = self.dictionary().props.get(dp)
        out = sorted(have[1]) if have else []
        if not out and must:
            out = [self.need_def(cls, rng)]
        return out

    def weak_object(self, t, key):
        cls = self.T.ref_class(t)
        md = self.f.metadict
        if cls == "ClassDefinition":
            return lib("lookup", md.lookup_classdef, self.lib.key(key))
        if cls == "TypeDefinition":
            return lib("lookup", md.lookup_typedef, self.lib.key(key))
        return self.target(self.dict_prop(cls), key)

    # ------------------------------------------------------------ mutators (model and code together)
    def settle(self, mo, rng):
        """after attaching: objects of the subtree are no longer all held"""
        for m in mo.walk():
            if m.py is not None and self.nav.random() >= self.hold:
                m.py = None

    def put_data(self, o, mo, n, t, v, rng):
        x = self.T.tolib(t, v, self.lib, rng)
        lib("set %s.%s = %.60r" % (mo.cls, n, v), setattr, self.prop(o, mo, n), "value", x)
        if t in (aaftypes.T_MOBID, aaftypes.T_AUID) and rng.random() < .3:
            # the caller goes on using its own identifier object
            x.bytes_le[rng.randrange(len(x.bytes_le))] ^= 0x55
            self.w.probe("caller reused identifier")
        mo.props[n] = ["data", v]

    def grab(self, kids):
        """the program takes some of the objects it is about to remove from their owner (what it takes does not
        depend on which objects happen to be alive)"""
        self.kept = [k for k in kids if self.rng.random() < .5]
        for k in self.kept:
            k.py = self.py(k)

    def release(self, kids):
        """objects that just lost their owner"""
        for k in kids:
            k.owner = None
            for m in k.walk():
                if m is not k:
                    m.py = None
            if any(k is x for x in self.kept):
                self.pool.append(k)
            else:
                k.py = None

    def take(self, k):
        if k in self.pool:
            self.pool.remove(k)

    def assign(self, o, mo, n, form, kids, rng):
        """obj[n].value = kids"""
        old = [k for name, k in mo.kids() if name == n]
        base = self.T.ref_class(self.ptype(mo.cls, n))
        self.grab([k for k in old if k not in kids])
        pys = [k.py for k in kids]
        assert all(p is not None for p in pys)
        if form == "s":
            v = pys[0]
        elif form == "V":
            v = rng.choice([lambda: pys, lambda: tuple(pys), lambda: iter(pys)])()
        else:
            v = rng.choice([lambda: pys, lambda: {self.lib.key(self.set_key(k, base)): k.py for k in kids}, lambda: iter(pys)])()
        lib("assign %s.%s" % (mo.cls, n), setattr, self.prop(o, mo, n), "value", v)
        for k in kids:
            self.take(k)
        self.release([k for k in old if k not in kids])
        for k in kids:
            k.owner = (mo, n)
        mo.props[n] = [form, kids[0] if form == "s" else list(kids) if form == "V" else {self.set_key(k, base): k for k in kids}]
        if self.attached(mo):
            for k in kids:
                self.settle(k, rng)

    def assign_weak(self, o, mo, n, form, t, keys, rng):
        objs = [self.weak_object(t, k) for k in keys]
        if any(x is None for x in objs):
            raise Violation("object-lost", "definition %s not found" % keys)
        v = objs[0] if form == "w" else objs if rng.random() < .7 else iter(objs)
        lib("assign %s.%s" % (mo.cls, n), setattr, self.prop(o, mo, n), "value", v)
        mo.props[n] = [form, keys[0] if form == "w" else list(keys)]

    # ------------------------------------------------------------ operations
    def run(self, ops):
        for i, op in enumerate(ops):
            self.step(op)

    def step(self, op):
        kind, k1, k2, seed = op[:4]
        self.rng = random.Random(seed)
        self.last = kind
        self.w.advance(1)
        self.w.log("op", kind)
        r = getattr(self, "op_" + kind)(k1, k2, self.rng)
        if r is False:
            self.skipped += 1
            self.w.log("skip")
        else:
            self.executed += 1
            self.counts[kind] = self.counts.get(kind, 0) + 1
        self.w.ops += 1

    def usable(self, mo):
        """the object can be reached by the program"""
        return True

    def protected(self, mo, p):
        """properties the random setters leave alone"""
        if p["name"] == "ObjClass" or p["unique"]:
            return True
        if self.T.isinstance(mo.cls, "Parameter") and p["name"] == "Definition":
            return True
        if mo.cls == "Root" or mo.cls == "Header" and p["name"] in ("ByteOrder",):
            return True
        if mo.cls == "DataDefinition" and p["name"] == "Name" and not mo.new:
            return True     # media kinds are looked up by these names
        return False

    def op_set(self, k1, k2, rng):
        mo = self.pick_obj(k1, lambda m: m is not self.root)
        ps = [p for p in self.pdefs(mo.cls) if self.T.pform(p) == "data" and self.T.supported(p["type"]) and not self.protected(mo, p)]
        if not ps:
            return False
        have = [p for p in ps if p["name"] in mo.props]
        if have and rng.random() < .5:
            ps = have
        p = ps[k2 % len(ps)]
        o = self.py(mo)
        v = self.T.gen(rng, p["type"])
        self.put_data(o, mo, p["name"], p["type"], v, rng)
        self.w.log("set", mo.cls, p["name"])
        if rng.random() < .3:
            self.check_prop(o, mo, p["name"], "after set")

    def op_unset(self, k1, k2, rng):
        mo = self.pick_obj(k1, lambda m: m is not self.root)
        ps = [p for p in self.pdefs(mo.cls) if p["optional"] and not self.protected(mo, p) and p["name"] in mo.props]
        ps = [p for p in ps if not (mo.cls in ("Dictionary", "ContentStorage"))]
        if not ps:
            return False
        p = ps[k2 % len(ps)]
        n = p["name"]
        form = mo.props[n][0]
        if self.additive and form not in ("data", "w", "W", "X"):
            return False
        o = self.py(mo)
        old = [k for name, k in mo.kids() if name == n]
        if form == "stream":
            return False
        if rng.random() < .5 and form in ("data", "w", "W", "X"):
            lib("del %s.%s" % (mo.cls, n), o.__delitem__, n)
        else:
            lib("unset %s.%s" % (mo.cls, n), setattr, self.prop(o, mo, n), "value", None)
        del mo.props[n]
        for k in old:
            k.owner = None
            for m in k.walk():
                m.py = None
        self.w.log("unset", mo.cls, n)

    def refprops(self, mo, forms):
        T = self.T
        if not hasattr(T, "refprops"):
            T.refprops = {}
        key = (mo.cls, forms, "descriptivemetadata" in self.datadefs())
        if key in T.refprops:
            return T.refprops[key]
        out = []
        for p in self.pdefs(mo.cls):
            f = self.T.pform(p)
            if f in forms and p["name"] != "ObjClass" and not (mo.cls in ("Root", "Header") and f == "s"):
                if f in "sVS" and f != "data" and not self.creatable(self.T.ref_class(p["type"])):
                    continue
                out.append((p, f))
        T.refprops[key] = out
        return out

    def pick_ref(self, k1, k2, forms, present=False):
        def ok(m):
            r = self.refprops(m, forms)
            return any(p["name"] in m.props for p, f in r) if present else bool(r)
        mo = self.pick_obj(k1, ok)
        if mo is None:
            return None, None, None
        r = self.refprops(mo, forms)
        if present:
            r = [(p, f) for p, f in r if p["name"] in mo.props]
        p, f = r[k2 % len(r)]
        return mo, p, f

    def supply(self, mo, base, rng, n=1):
        """detached objects for a property: new ones or some from the pool"""
        out = []
        top = self.top(mo)
        for _ in range(n):
            c = [x for x in self.pool if self.T.isinstance(x.cls, base) and x is not top and x not in out]
            if c and rng.random() < .5:
                out.append(rng.choice(c))
            else:
                out.append(self.build(self.simple(self.creatable(base), base, self.depth(mo) - 3, rng), rng, 1))
        return out

    def depth(self, mo):
        d = 0
        while mo.owner is not None:
            mo = mo.owner[0]
            d += 1
        return d

    def full(self, mo):
        return len(self.user()) > self.limit or self.depth(mo) > 9

    def op_ref(self, k1, k2, rng):
        """set a single owned object"""
        mo, p, f = self.pick_ref(k1, k2, ("s",))
        if mo is None or self.full(mo) or self.additive and p["name"] in mo.props:
            return False
        base = self.T.ref_class(p["type"])
        kids = self.supply(mo, base, rng)
        self.assign(self.py(mo), mo, p["name"], "s", kids, rng)
        self.w.log("ref", mo.cls, p["name"], kids[0].cls)

    def op_vec(self, k1, k2, rng):
        """change a vector of owned objects"""
        mo, p, f = self.pick_ref(k1, k2, ("V",), rng.random() < .7)
        if mo is None or self.full(mo):
            return False
        for i in range(rng.choice([1, 1, 1, 2, 5, 9])):
            if i and self.full(mo):
                break
            self.vec_once(mo, p, f, rng)

    def vec_once(self, mo, p, f, rng):
        n = p["name"]
        base = self.T.ref_class(p["type"])
        o = self.py(mo)
        cur = mo.props[n][1] if n in mo.props else []
        kinds = ["append", "append", "extend", "insert", "assign"]
        if cur:
            kinds += ["pop", "pop", "setitem", "setitem", "insert", "reorder", "clear" if rng.random() < .4 else "pop"]
        if self.additive:
            kinds = ["append", "append", "extend", "insert"] + (["assign"] if n not in mo.props else [])
        kind = rng.choice(kinds)
        self.w.log("vec", mo.cls, n, kind, len(cur))
        self.w.probe("vec " + kind)
        pr = self.prop(o, mo, n)
        what = "%s %s.%s[%d]" % (kind, mo.cls, n, len(cur))
        if kind in ("append", "extend", "insert"):
            kids = self.supply(mo, base, rng, rng.choice([0, 1, 2, 3]) if kind == "extend" else 1)
            if kind == "append":
                lib(what, pr.append, kids[0].py)
                new = cur + kids
            elif kind == "extend":
                lib(what, pr.extend, rng.choice([list, tuple, iter])([k.py for k in kids]))
                new = cur + kids
            else:
                i = rng.randrange(0, len(cur) + 1)
                if rng.random() < .25:
                    i = rng.choice([-1, -len(cur), len(cur) + 2, -len(cur) - 2])
                lib("%s at %d" % (what, i), pr.insert, i, kids[0].py)
                new = list(cur)
                new.insert(i, kids[0])
            for k in kids:
                self.take(k)
                k.owner = (mo, n)
            mo.props[n] = ["V", new]
            if self.attached(mo):
                for k in kids:
                    self.settle(k, rng)
        elif kind == "pop":
            i = rng.randrange(-len(cur), len(cur))
            k = cur[i]
            r = lib("%s(%d)" % (what, i), pr.pop, i)
            if r is None or self.clsname(r) != k.cls:
                raise Violation("wrong-reference", "%s(%d) returned %r, expected a %s" % (what, i, r, k.cls))
            new = list(cur)
            new.pop(i)
            mo.props[n] = ["V", new]
            self.kept = []
            if rng.random() < .6:
                k.py = r
                self.kept = [k]
            self.release([k])
        elif kind == "setitem":
            i = rng.randrange(-len(cur), len(cur))
            kids = self.supply(mo, base, rng)
            self.grab([cur[i]])
            lib("%s[%d]=" % (what, i), pr.__setitem__, i, kids[0].py)
            old = cur[i]
            new = list(cur)
            new[i] = kids[0]
            self.take(kids[0])
            kids[0].owner = (mo, n)
            mo.props[n] = ["V", new]
            self.release([old])
            if self.attached(mo):
                self.settle(kids[0], rng)
        elif kind == "clear":
            self.grab(cur)
            lib(what, pr.clear)
            mo.props[n] = ["V", []]
            self.release(cur)
        elif kind == "reorder":
            for i, k in enumerate(cur):
                k.py = k.py or lib("get", pr.get, i)
            new = list(cur)
            rng.shuffle(new)
            if rng.random() < .3 and len(new) > 1:
                new.pop()
            self.assign(o, mo, n, "V", new, rng)
        else:
            self.assign(o, mo, n, "V", self.supply(mo, base, rng, rng.randrange(0, 4)), rng)
        if rng.random() < .3:
            self.check_prop(self.py(mo), mo, n, "after " + kind)

    def set_owner_ok(self, mo, n):
        return True

    def op_setp(self, k1, k2, rng):
        """change a keyed set of owned objects"""
        mo, p, f = self.pick_ref(k1, k2, ("S",), rng.random() < .6)
        if mo is None or self.full(mo):
            return False
        for i in range(rng.choice([1, 1, 1, 2, 5, 9])):
            if i and self.full(mo):
                break
            self.setp_once(mo, p, f, rng)

    def setp_once(self, mo, p, f, rng):
        n = p["name"]
        base = self.T.ref_class(p["type"])
        cur = mo.props[n][1] if n in mo.props else {}
        o = self.py(mo)
        pr = self.prop(o, mo, n)
        isdict = mo.cls == "Dictionary"
        kinds = ["append"] * 3 + ["extend"]
        if cur and not isdict:
            kinds += ["pop", "pop", "replace", "assign", "clear" if rng.random() < .3 else "pop"]
        if isdict:
            kinds.append("popdef")
        if self.additive:
            kinds = ["append", "extend"]
        kind = rng.choice(kinds)
        what = "%s %s.%s" % (kind, mo.cls, n)
        self.w.log("setp", mo.cls, n, kind, len(cur))
        self.w.probe("set " + kind)
        if kind in ("append", "extend"):
            kids = [k for k in self.supply(mo, base, rng, 1 if kind == "append" else rng.randrange(0, 3)) if self.set_key(k, base)]
            kids = self.unique_keys(kids, base)
            if (isdict or self.additive) and any(self.set_key(k, base) in cur for k in kids):
                return False
            if not kids and kind == "append":
                return False
            self.grab([cur[self.set_key(k, base)] for k in kids if self.set_key(k, base) in cur])
            if kind == "append":
                lib(what, pr.append, kids[0].py)
            else:
                lib(what, pr.extend, rng.choice([list, tuple, iter])([k.py for k in kids]))
            new = dict(cur)
            old = []
            for k in kids:
                key = self.set_key(k, base)
                if key in new:
                    old.append(new[key])
                new[key] = k
                self.take(k)
                k.owner = (mo, n)
            mo.props[n] = ["S", new]
            self.release(old)
            if self.attached(mo):
                for k in kids:
                    self.settle(k, rng)
        elif kind == "replace":
            # another object with a key that is taken
            key = rng.choice(sorted(cur))
            k = self.build(cur[key].cls, rng, 2)
            kn = "Definition" if base == "Parameter" else [q["name"] for q in self.T.props(base) if q["unique"]][0]
            self.put_data(k.py, k, kn, self.ptype(k.cls, kn), key, random.Random(1))
            self.grab([cur[key]])
            lib(what, pr.append, k.py)
            old = cur[key]
            new = dict(cur)
            new[key] = k
            k.owner = (mo, n)
            mo.props[n] = ["S", new]
            self.release([old])
            if self.attached(mo):
                self.settle(k, rng)
        elif kind in ("pop", "popdef"):
            keys = sorted(cur)
            if kind == "popdef":
                used = self.weak_used()
                keys = [k for k in keys if cur[k].new and k not in used]
                if not keys:
                    return False
            key = rng.choice(keys)
            r = lib(what, pr.pop, self.lib.key(key))
            if r is None or self.clsname(r) != cur[key].cls:
                raise Violation("wrong-reference", "%s returned %r" % (what, r))
            new = dict(cur)
            k = new.pop(key)
            mo.props[n] = ["S", new]
            self.kept = []
            if rng.random() < .6:
                k.py = r
                self.kept = [k]
            self.release([k])
        elif kind == "clear":
            self.grab(cur.values())
            lib(what, pr.clear)
            mo.props[n] = ["S", {}]
            self.release(list(cur.values()))
        else:
            kids = [k for k in self.supply(mo, base, rng, rng.randrange(0, 3)) if self.set_key(k, base)]
            for key, k in cur.items():
                if rng.random() < .5:
                    k.py = k.py or lib("get", pr.get, self.lib.key(key))
                    kids.append(k)
            self.assign(o, mo, n, "S", self.unique_keys(kids, base), rng)
        if rng.random() < .3:
            self.check_prop(self.py(mo), mo, n, "after " + kind)

    def weak_used(self):
        out = set()
        for m in self.everything():
            for f, v in m.props.values():
                if f == "w":
                    out.add(v)
                elif f in ("W", "X"):
                    out.update(v)
            q = m.props.get("Definition")
            if q:
                out.add(q[1])
        return out

    def op_weak(self, k1, k2, rng):
        mo, p, f = self.pick_ref(k1, k2, ("w", "W", "X"))
        if mo is None:
            return False
        n = p["name"]
        t = p["type"]
        tgt = self.targets(t, rng, True)
        if not tgt:
            return False
        o = self.py(mo)
        if f == "w":
            self.assign_weak(o, mo, n, f, t, [rng.choice(tgt)], rng)
        else:
            cur = list(mo.props[n][1]) if n in mo.props else []
            kind = rng.choice(["append", "extend", "assign", "clear"])
            keys = [rng.choice(tgt) for _ in range(1 if kind == "append" else rng.randrange(0, 4))]
            if f == "X":
                keys = [k for i, k in enumerate(keys) if k not in keys[:i] and (kind == "assign" or k not in cur)]
            objs = [self.weak_object(t, k) for k in keys]
            self.w.probe("weak " + kind)
            if kind == "assign":
                self.assign_weak(o, mo, n, f, t, keys, rng)
            elif kind == "clear":
                lib("clear", self.prop(o, mo, n).clear)
                if n in mo.props:
                    mo.props[n] = [f, []]
            elif kind == "append":
                if not objs:
                    return False
                lib("append", self.prop(o, mo, n).append, objs[0])
                mo.props[n] = [f, cur + keys]
            else:
                lib("extend", self.prop(o, mo, n).extend, rng.choice([list, tuple, iter])(objs))
                mo.props[n] = [f, cur + keys]
        self.w.log("weak", mo.cls, n, f)
        if n in mo.props and rng.random() < .3:
            self.check_prop(self.py(mo), mo, n, "after weak")

    def op_mob(self, k1, k2, rng):
        """a new mob or essence data"""
        c = self.content()
        if len(self.user()) > self.limit:
            return False
        if rng.random() < .25:
            mo = self.build("EssenceData", rng, 1)
            n = "EssenceData"
        else:
            mo = self.build(rng.choice(["MasterMob", "CompositionMob", "SourceMob"]), rng, rng.choice([0, 1, 2]))
            n = "Mobs"
        o = self.f.content
        pr = (o.mobs if n == "Mobs" else o.essencedata) if rng.random() < .6 else o[n]
        lib("append " + n, pr.append, mo.py)
        c.props.setdefault(n, ["S", {}])[1][mo.props["MobID"][1]] = mo
        mo.owner = (c, n)
        self.settle(mo, rng)
        self.w.log("mob", mo.cls)

    def op_mobid(self, k1, k2, rng):
        """change the key of an attached mob or essence data"""
        c = self.content()
        n = rng.choice(["Mobs", "Mobs", "EssenceData"])
        cur = c.props.get(n, [0, {}])[1]
        if not cur:
            return False
        key = sorted(cur)[k2 % len(cur)]
        mo = cur[key]
        new = gen_mobid(rng)
        if rng.random() < .1:
            new = key
        o = self.py(mo)
        x = self.lib.key(new)
        lib("mob_id =", setattr, o, "mob_id", x)
        if rng.random() < .3:
            x.bytes_le[3] ^= 0x55
        del cur[key]
        cur[new] = mo
        mo.props["MobID"][1] = new
        self.w.log("mobid")
        if rng.random() < .5:
            self.check(mo, "after mob_id")

    def op_stream(self, k1, k2, rng):
        mo = self.pick_obj(k1, lambda m: any(self.T.pform(p) == "stream" for p in self.pdefs(m.cls)))
        if mo is None:
            return False
        ps = [p["name"] for p in self.pdefs(mo.cls) if self.T.pform(p) == "stream"]
        n = ps[k2 % len(ps)]
        o = self.py(mo)
        cur = mo.props[n][1] if n in mo.props else None
        data = pattern(rng.getrandbits(24), rng.choice([0, 10, 500, 4000, 4096, 4100, 20000]))
        if self.additive and cur is not None:
            return False
        if cur is None or rng.random() < .3:
            s = lib("open w", self.prop(o, mo, n).open, "w")
            lib("write", s.write, data)
            mo.props[n] = ["stream", data]
            kind = "w"
        else:
            s = lib("open rw", self.prop(o, mo, n).open, "rw")
            kind = rng.choice(["append", "over", "trunc", "read"])
            if kind == "append":
                lib("seek", s.seek, 0, 2)
                lib("write", s.write, data)
                new = cur + data
            elif kind == "over":
                i = rng.randrange(len(cur) + 1)
                lib("seek", s.seek, i)
                lib("write", s.write, data)
                new = cur[:i] + data + cur[i + len(data):]
            elif kind == "trunc":
                i = rng.randrange(len(cur) + 1)
                lib("truncate", s.truncate, i)
                new = cur[:i]
            else:
                i = rng.randrange(len(cur) + 1)
                lib("seek", s.seek, i)
                got = lib("read", s.read, 5000)
                if got != cur[i:i + 5000]:
                    raise Violation("wrong-stream", "%s.%s read at %d" % (mo.path(), n, i))
                new = cur
            mo.props[n] = ["stream", new]
        self.w.log("stream", mo.cls, n, kind, self.attached(mo), len(mo.props[n][1]))
        self.w.probe("stream " + kind)

    def op_helper(self, k1, k2, rng):
        """the convenience calls of the API"""
        mobs = [m for m in self.content().props["Mobs"][1].values()]
        if not mobs or len(self.user()) > self.limit:
            return False
        mo = mobs[k1 % len(mobs)]
        o = self.py(mo)
        kind = ["slot", "slot", "slot_id", "seq", "clip", "comment", "comment"][k2 % 7]
        self.w.probe("helper " + kind)
        slots = mo.props["Slots"][1]
        ids = [s.props["SlotID"][1] for s in slots if "SlotID" in s.props]
        dd = self.datadefs()
        if kind in ("slot", "slot_id", "seq"):
            rate = rng.choice([24, 25, 30, 48000])
            sid = None
            if kind == "slot_id":
                sid = rng.randrange(0, 12)
                if sid in ids:
                    lib_raises("create_timeline_slot with a taken id", o.create_timeline_slot, rate, sid)
                    self.check(mo, "after refused slot id")
                    return
            if kind == "seq":
                media = rng.choice(["picture", "sound", "timecode"])
                if media == "picture" and rng.random() < .7:
                    s = lib("create_picture_slot", o.create_picture_slot, rate)
                elif media == "sound" and rng.random() < .7:
                    s = lib("create_sound_slot", o.create_sound_slot, rate)
                else:
                    s = lib("create_empty_sequence_slot", o.create_empty_sequence_slot, rate, sid, media)
            else:
                s = lib("create_timeline_slot", o.create_timeline_slot, rate, sid)
            got = lib("slot_id", lambda: s.slot_id)
            if got in ids:
                raise Violation("duplicate-slot-id", "%s got slot id %r, slots have %s" % (kind, got, sorted(ids)))
            if sid is not None and got != sid:
                raise Violation("wrong-value", "slot id %r, asked for %r" % (got, sid))
            k = MO("TimelineMobSlot", (mo, "Slots"))
            k.new = True
            k.py = s
            self.defaults(k, {"slot_id": got, "edit_rate": rate})
            slots.append(k)
            if kind == "seq":
                key = self.knorm(s.segment["DataDefinition"].value.unique_key)
                if key not in dd.get(media, []):
                    raise Violation("wrong-reference", "media kind %s set %s" % (media, key))
                q = MO("Sequence", (k, "Segment"))
                self.defaults(q, {})
                q.props["DataDefinition"] = ["w", key]
                k.props["Segment"] = ["s", q]
            else:
                self.fill(k, self.pdef(k.cls, "Segment"), rng, 2)
            self.settle(k, rng)
        elif kind == "clip":
            c = [s for s in slots if s.cls == "TimelineMobSlot" and s.props["Segment"][1].cls == "Sequence" and
                 ids.count(s.props.get("SlotID", [0, None])[1]) == 1 and "DataDefinition" in s.props["Segment"][1].props]
            if not c:
                return False
            s = rng.choice(c)
            seq = s.props["Segment"][1]
            comps = seq.props["Components"][1]
            if any("Length" not in x.props for x in comps) or any(self.T.classes[x.cls]["py"] == "AAFObject" for x in comps):
                return False
            total = 0
            for x in comps:
                total += -x.props["Length"][1] if x.cls == "Transition" else x.props["Length"][1]
            start = rng.choice([None, 0, 5, rng.randrange(0, 200)])
            length = rng.choice([None, None, 10])
            sid = s.props["SlotID"][1]
            if any(not -2 ** 62 < x.props["Length"][1] < 2 ** 62 for x in comps):
                return False
            want = length or max(total - (start or 0), 0)
            clip = lib("create_source_clip", o.create_source_clip, sid, start, length)
            k = MO("SourceClip")
            k.new = True
            k.py = clip
            self.defaults(k, {"start": start, "length": want, "mob_id": mo.props["MobID"][1], "slot_id": sid})
            key = self.knorm(clip["DataDefinition"].value.unique_key)
            if key != seq.props["DataDefinition"][1]:
                a = self.dictionary().props["DataDefinitions"][1]
                if self.short(a[key].props["Name"][1]).lower() != self.short(a[seq.props["DataDefinition"][1]].props["Name"][1]).lower():
                    raise Violation("wrong-reference", "create_source_clip: media kind %s" % key)
            k.props["DataDefinition"] = ["w", key]
            self.pool.append(k)
            self.check(k, "new source clip")
        else:
            tags = mo.props.get("UserComments", ["V", []])[1]
            names = [x.props["Name"][1] for x in tags]
            name = rng.choice(names) if names and rng.random() < .5 else "note %d" % rng.randrange(6)
            v = self.T.gen(rng, self.ptype("TaggedValue", "Value"))
            x = self.T.tolib(self.ptype("TaggedValue", "Value"), v, self.lib)
            lib("comments[name] =", o.comments.__setitem__, name, x)
            hit = [x for x in tags if x.props["Name"][1] == name]
            if hit:
                hit[0].props["Value"] = ["data", v]
            else:
                k = MO("TaggedValue", (mo, "UserComments"))
                k.new = True
                k.props = {"Name": ["data", name], "Value": ["data", v]}
                mo.props.setdefault("UserComments", ["V", []])[1].append(k)
            if rng.random() < .5:
                got = lib("comments.items", lambda: [a for a, b in o.comments.items()])
                want = [a.props["Name"][1] for a in mo.props["UserComments"][1]]
                if got != want:
                    raise Violation("wrong-order", "comments are %s, expected %s" % (got, want))
        self.w.log("helper", kind)

    def op_bad(self, k1, k2, rng):
        """operations that must be refused and change nothing"""
        kind = ["attached", "type", "root", "index", "key", "enum", "attached2", "insert", "dupkey", "twice", "subtree"][k2 % 11]
        what = "bad " + kind
        T = self.T
        if kind == "enum":
            def ok(m):
                return any(T.kind(p["type"]) in ("Enum", "ExtEnum") and p["type"] != aaftypes.BOOL for p in self.pdefs(m.cls))
            mo = self.pick_obj(k1, ok)
            if mo is None:
                return False
            p = rng.choice([p for p in self.pdefs(mo.cls) if T.kind(p["type"]) in ("Enum", "ExtEnum") and p["type"] != aaftypes.BOOL])
            o = self.py(mo)
            lib_raises(what, setattr, o[p["name"]], "value", "no such element")
            hit = [mo]
        elif kind == "key":
            mo, p, f = self.pick_ref(k1, rng.randrange(9), ("S",), True)
            if mo is None:
                return False
            o = self.py(mo)
            key = self.lib.key("A:" + rng.randbytes(16).hex() if T.ref_class(p["type"]) not in ("Mob", "EssenceData") else gen_mobid(rng))
            pr = o[p["name"]]
            lib_raises(what, pr.pop, key)
            lib_raises(what, pr.__getitem__, key)
            if key in pr or pr.get(key) is not None:
                raise Violation("wrong-set", "%s: an unknown key is reported present" % mo.path())
            hit = [mo]
        elif kind == "dupkey":
            c = self.content().props.get("Mobs")[1]
            if len(c) < 2:
                return False
            a, b = rng.sample(sorted(c), 2)
            o = self.py(c[a])
            lib_raises("changing a mob id to one that is taken", setattr, o, "mob_id", self.lib.key(b))
            hit = [c[a], c[b], self.content()]
        else:
            form = ("V",) if kind in ("index", "insert", "twice") else ("s", "V", "S")
            mo, p, f = self.pick_ref(k1, rng.randrange(9), form, kind == "index")
            if mo is None:
                return False
            base = T.ref_class(p["type"])
            n = p["name"]
            o = self.py(mo)
            pr = o[n]
            hit = [mo]
            if kind == "index":
                cur = mo.props[n][1]
                k = self.build(self.simple(self.creatable(base), base, 3, rng), rng, 2)
                lib_raises(what, pr.__setitem__, len(cur) + rng.randrange(3), k.py)
                lib_raises(what, pr.pop, len(cur) + rng.randrange(3))
                lib_raises(what, pr.__getitem__, len(cur))
            elif kind == "twice":
                k = self.build(self.simple(self.creatable(base), base, 3, rng), rng, 2)
                lib_raises("the same object twice", pr.extend, [k.py, k.py])
                self.check(k, "after refused extend")
            elif kind in ("attached", "attached2", "insert"):
                c = [m for m in self.user() if m.owner is not None and self.attached(m) and T.isinstance(m.cls, base) and
                     m is not self.content() and not (m.owner == (mo, n) and f != "V")]
                c = [m for m in c if m.owner[1] not in ("Content", "Header", "Dictionary")]
                if kind == "attached2":
                    # an owned object stored under the same name elsewhere
                    c = [m for m in c if m.owner[1] == n and m.owner[0] is not mo]
                if not c:
                    return False
                m = rng.choice(c)
                if f == "S" and m.owner[1] == n and m.owner[0] is mo:
                    return False
                x = self.py(m)
                hit.append(m)
                hit.append(m.owner[0])
                if f == "s":
                    lib_raises(what, setattr, pr, "value", x)
                elif f == "V" and kind == "insert":
                    lib_raises(what, pr.insert, 0, x)
                elif f == "V" and rng.random() < .3 and mo.props.get(n, [0, []])[1]:
                    lib_raises(what, pr.__setitem__, 0, x)
                elif f == "V" and rng.random() < .3:
                    k = self.build(self.simple(self.creatable(base), base, 3, rng), rng, 2)
                    lib_raises(what, pr.extend, [k.py, x])
                else:
                    lib_raises(what, pr.append, x)
            elif kind == "subtree":
                # an object cannot own the tree it is part of
                t = self.top(mo)
                if t is self.root or not T.isinstance(t.cls, base) or t is mo:
                    return False
                return False
            elif kind == "type":
                wrong = [c for c in ("TaggedValue", "Filler", "MasterMob", "NetworkLocator", "TapeDescriptor", "TimelineMobSlot", "DataDefinition")
                         if not T.isinstance(c, base)]
                if not wrong:
                    return False
                k = self.build(rng.choice(wrong), rng, 3, 0)
                if f == "s":
                    lib_raises(what, setattr, pr, "value", k.py)
                elif f == "V" and rng.random() < .4:
                    lib_raises(what, pr.insert, 0, k.py)
                elif f == "V" and rng.random() < .4 and mo.props.get(n, [0, []])[1]:
                    lib_raises(what, pr.__setitem__, 0, k.py)
                else:
                    lib_raises(what, pr.append, k.py)
                self.check(k, "after refused")
            elif kind == "root":
                g = self.other()
                if g is None:
                    return False
                k = rng.choice([c for c in ("Filler", "TaggedValue", "MasterMob", "NetworkLocator", "TapeDescriptor", "TimelineMobSlot", "DataDefinition",
                                            "ControlPoint", "ConstantValue", "Identification", "KLVData", "SourceClip", "OperationDefinition")
                                if T.isinstance(c, base)] or [None])
                if k is None:
                    return False
                py = T.classes[k]["py"]
                x = lib("create in another file", g.create.from_name, py if py != "AAFObject" else k)
                if f == "s":
                    lib_raises(what, setattr, pr, "value", x)
                elif f == "V" and rng.random() < .4:
                    lib_raises(what, pr.insert, 0, x)
                elif f == "V" and rng.random() < .4 and mo.props.get(n, [0, []])[1]:
                    lib_raises(what, pr.__setitem__, 0, x)
                else:
                    lib_raises(what, pr.append, x)
        self.w.log("bad", kind)
        self.w.probe("refused " + kind)
        for m in hit:
            self.check(m, "after refused " + kind)

    def other(self):
        if getattr(self, "_other", None) is None:
            img = image(True, 4096)
            self.w.disk.put("other-" + self.name, img.data)
            self._other = lib("open other", core.aaf2.open, core.simdisk.simpath("other-" + self.name), "rw")
        return self._other

    def op_peek(self, k1, k2, rng):
        """read some objects, and properties that are not set"""
        for i in range(3):
            mo = self.pick_obj(k1 + i * 13)
            o = self.py(mo)
            self.check(mo, "peek")
            absent = [p for p in self.pdefs(mo.cls) if p["name"] not in mo.props and p["name"] != "ObjClass" and mo is not self.root]
            if absent:
                p = absent[(k2 + i) % len(absent)]
                f = self.T.pform(p)
                if f == "stream":
                    continue
                what = "read of %s.%s, which is not set" % (mo.cls, p["name"])
                v = lib(what, lambda: self.prop(o, mo, p["name"]).value)
                if not (v is None or (f in ("V", "S", "W", "X") and list(v) == [])):
                    raise Violation("wrong-value", "%s returned %r" % (what, v))
                if p["name"] in o or lib("getvalue", o.getvalue, p["name"], 7) != 7:
                    raise Violation("wrong-value", "%s: reported as present" % what)

    def op_find(self, k1, k2, rng):
        """lookups by key or name"""
        c = self.content()
        mobs = c.props["Mobs"][1]
        f = self.f
        kinds = {"mastermobs": "MasterMob", "compositionmobs": "CompositionMob", "sourcemobs": "SourceMob"}
        for call, cls in kinds.items():
            got = lib(call, lambda: sorted(self.knorm(m.mob_id) for m in getattr(f.content, call)()))
            want = sorted(k for k, m in mobs.items() if m.cls == cls)
            if got != want:
                raise Violation("wrong-set", "%s: %d mobs, expected %d" % (call, len(got), len(want)))
        if mobs:
            k = sorted(mobs)[k2 % len(mobs)]
            m = lib("mobs.get", f.content.mobs.get, self.lib.key(k))
            if m is None or self.knorm(m.mob_id) != k:
                raise Violation("wrong-reference", "mobs.get(%s) returned %r" % (k, m))
        dd = self.dictionary().props["DataDefinitions"][1]
        k = sorted(dd)[k1 % len(dd)]
        d = lib("lookup_datadef", f.dictionary.lookup_datadef, self.lib.key(k))
        if d is None or self.knorm(d.auid) != k:
            raise Violation("wrong-reference", "lookup_datadef(%s)" % k)

    def op_save(self, k1, k2, rng):
        lib("save", self.f.save)
        self.w.probe("saves")

    def op_gc(self, k1, k2, rng):
        """forget held objects, all or some, and collect"""
        for mo in self.root.walk():
            if mo.py is not None and (k1 % 2 or self.nav.random() < .5):
                mo.py = None
        if k2 % 3 == 0:
            self.pool = []
        if k2 % 2 == 0:
            self.props = {}
        self.w.gc()

    def op_verify(self, k1, k2, rng):
        self.verify("verify", k2 % 4 == 0)

    def op_reopen(self, k1, k2, rng):
        if getattr(self, "_other", None) is not None:
            lib("close other", self._other.close)
            self._other = None
        self.close()
        self.audit_file("reopen")
        self.open("rw", k1 % 3 > 0)
        self.w.probe("reopens")
        if k2 % 2:
            self.verify("after reopen", k2 % 4 == 1)

    def finish(self, where="end"):
        if getattr(self, "_other", None) is not None:
            lib("close other", self._other.close)
            self._other = None
        self.close()
        self.audit_file(where)


W_OBJ = {"set": 10, "unset": 3, "ref": 5, "vec": 10, "setp": 5, "weak": 4, "mob": 5, "mobid": 2, "stream": 3, "helper": 5, "bad": 4,
         "peek": 3, "find": 1, "save": 2, "gc": 3, "verify": 2, "reopen": 2}


def gen_ops(rng, n, weights=W_OBJ, scale=True):
    w = dict(weights)
    if scale:
        for k in w:
            w[k] *= rng.choice([.2, 1, 1, 1, 3])
    kinds = sorted(w)
    ws = [w[k] for k in kinds]
    ops = [["mob", rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32)] for _ in range(rng.randrange(1, 4))]
    for _ in range(n):
        ops.append([rng.choices(kinds, ws)[0], rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32)])
    return ops


def gen_cfg(rng, third=.15, docs=.2):
    if rng.random() < docs:
        # a document of the usual kind
        return {"third": None, "rich": rng.choice(list(range(NMIX, NRICH)) * 2 + [0, 1, 2, 3]), "ext": rng.random() < .7,
                "hold": rng.choice([0, .1, .3, .7, 1]), "cache": rng.choice([None, None, 1, 2, 8])}
    third = rng.choice(["empty", "sector_size_512", "bezier01", "bezier01", "test_file_01"]) if rng.random() < third else None
    return {"third": third, "ss": rng.choice([4096, 4096, 512]), "img_ext": rng.random() < .6, "fresh": rng.random() < .08, "ext": rng.random() < .7,
            "hold": rng.choice([0, .1, .3, .7, 1]), "cache": rng.choice([None, None, 1, 2, 8])}


def stats(w, sess):
    return {"probes": dict(w.probes, **{"op " + k: v for k, v in sess.counts.items()}), "faults": w.disk.fired, "operations": sess.executed,
            "raw_io": dict(w.disk.counts), "gc_points": w.gc_points, "steps_in_code_under_test": core.STEPS.n,
            "simulated_seconds": w.sim_seconds, "raw_bytes_written": w.disk.bytes_written, "raw_bytes_read": w.disk.bytes_read}


def run_plan(plan, keep_log=False):
    cfg = plan["cfg"]
    with core.world(plan["seed"], cache_size=cfg.get("cache"), keep_log=keep_log, gc_mean=cfg.get("gc_mean")) as w:
        cfbsim.apply_disk_cfg(w, cfg)
        s = Session(w, cfg)
        s.rng = random.Random(plan["seed"])
        s.nav = random.Random(mix("nav", plan["seed"], cfg.get("policy", 0)))
        s.start()
        s.run(plan["ops"])
        if cfg.get("live", True):
            s.verify("at the end")
        s.finish()
        if cfg.get("live", True):
            s.open("r", cfg.get("ext", True))
            s.verify("final reopen read-only")
            s.close()
        return {"digest": w.log.digest(), "logic": w.log.logic.hexdigest()[:24], "image": w.disk.get(s.name), "lines": w.log.lines,
                "stats": stats(w, s), "states": list(s.states), "nontrivial": s.executed >= 5,
                "sample": {"seed": plan["seed"], "cfg": cfg, "ops": plan["ops"][:12], "log_digest": w.log.digest()},
                "log": w.log.lines if keep_log else None}
