"""C17: registered classes, properties and types."""
import random
import uuid

from .. import aafsim, aaftypes, core, defs
from ..aaftypes import SF, T_AUID, T_DATE, T_INT32, T_MOBID, T_RAT, T_STAMP, T_STRING, T_TIME
from ..core import Violation, lib, lib_raises, mix

RUNS = {"quick": 220, "thorough": 30000}
WALL_CAP = {"quick": 80, "thorough": 3000}
BATCH = 4
RULE = ("one run = one or two files (made by the library with and without extensions, or by other software) and a seeded history that "
        "registers a seeded pool of types of every category, classes, properties and enumeration elements in seeded orders, uses them, "
        "registers them again, attempts clashing registrations, copies objects between the files, saves and reopens with extensions on or "
        "off; definitions are checked through the live API and by the independent reader, values against the model; distinct by event-log "
        "digest; non-trivial = at least one user-registered property was given a value")
STATE_MEASURE = "distinct class censuses at verification points"
ASSUMPTIONS = ["definitions are given with identifiers, names and static pids of their own, except where a clash is what is tested",
               "sets hold element types whose Python values can be hashed", "a required property is only registered with its class"]
SHRINK = ("ops",)
STREAM = "04100200-0000-0000-060e-2b3401040101"
INDIRECT = "04100300-0000-0000-060e-2b3401040101"
INTS = ["01010100", "01010200", "01010300", "01010500", "01010600", "01010700", "01010800"]
INTS = [x + "-0000-0000-060e-2b3401040101" for x in INTS]
PARENTS = ["InterchangeObject", "InterchangeObject", "Locator", "Filler", "Segment", "EssenceDescriptor", "TaggedValue", "NetworkLocator", "ControlPoint",
           "SourceClip", "TimelineMobSlot", "KLVData", "FileDescriptor", "DataDefinition"]
HOSTS = ["TaggedValue", "Filler", "SourceClip", "MasterMob", "SourceMob", "CompositionMob", "TimelineMobSlot", "NetworkLocator", "Component", "Mob",
         "MobSlot", "Segment", "Sequence", "EssenceDescriptor", "Locator", "InterchangeObject", "Header", "ContentStorage", "DataDefinition",
         "DefinitionObject", "EssenceData", "Identification", "Dictionary"]
W = {"reg": 6, "rereg": 2, "bad": 2, "use": 20, "new": 8, "elem": 1.5, "defs": 1, "copy": 4, "set": 3, "unset": 1, "vec": 3, "setp": 3, "ref": 2, "weak": 2,
     "mob": 2, "stream": 1, "save": 1.5, "gc": 2, "verify": .7, "reopen": 2.5, "reext": .5}


def setup():
    aafsim.rich_images()


# ---------------------------------------------------------------- specifications

class Specs(object):
    def __init__(self, rng):
        self.rng = rng
        self.out = []
        self.T = aaftypes.frozen(False)
        self.pid = 0x7A00
        self.hpid = 0x9000
        self.fixed = list(INTS) + [T_AUID, T_RAT, T_MOBID, T_STAMP, "01040100-0000-0000-060e-2b3401040101"]     # types of a fixed size
        self.hashable = list(INTS) + [T_AUID, T_RAT, T_MOBID]
        self.data = [T_STRING, T_INT32, T_AUID, INDIRECT]
        self.refs = {}          # strong reference types: auid -> class
        self.weaks = []
        self.props = [T_STRING, T_INT32, T_AUID, INDIRECT, STREAM]
        self.classes = []
        self.owner = {}         # auid -> spec index
        self.side = None        # specs with an explicit dynamic pid that the other file uses too belong to one file
        self.spid = [0xA000, 0xA000]

    def auid(self):
        return str(uuid.UUID(bytes=self.rng.randbytes(16), version=4))

    def name(self, what):
        return "%s%x" % (what, self.rng.getrandbits(40))

    def needs(self, *auids):
        return sorted({self.owner[a] for a in auids if a in self.owner})

    def add(self, spec, auid=None):
        if auid is not None:
            self.owner[auid] = len(self.out)
        sides = {self.side} | {self.out[i].get("side") for i in spec["needs"]}
        if sides - {None}:
            spec["side"] = "both" if len(sides - {None}) > 1 or "both" in sides else (sides - {None}).pop()
        self.out.append(spec)
        self.side = None

    def type(self):
        rng = self.rng
        cat = rng.choice(["ints", "enums", "records", "fixed_arrays", "var_arrays", "renames", "strings", "streams", "extenums", "sets", "strongrefs",
                          "strongrefs", "weakrefs", "refvec", "refset", "weakvec", "weakset", "var_arrays", "records", "opaques", "indirects"])
        a = self.auid()
        n = self.name(cat.title())
        d = {"name": n, "ext": False}
        if cat == "ints":
            d.update(kind="Int", size=rng.choice([1, 2, 4, 8]), signed=rng.random() < .5)
            args = [a, d["size"], d["signed"]]
            self.fixed.append(a)
            self.hashable.append(a)
            self.data.append(a)
            need = []
        elif cat == "enums":
            e = rng.choice(INTS)
            t = self.T.types[e]
            bits = t["size"] * 8
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t["signed"] else (0, min((1 << bits) - 1, 2 ** 63 - 1))
            vals = sorted({rng.choice([0, 1, 2, 3, rng.randrange(lo, hi + 1), hi, lo]) for _ in range(rng.randrange(1, 6))})
            d.update(kind="Enum", elem=e, values=[[v, "%s_%d" % (n, i)] for i, v in enumerate(vals)])
            args = [a, e, {v: x for v, x in d["values"]}]
            self.fixed.append(a)
            self.hashable.append(a)
            self.data.append(a)
            need = self.needs(e)
        elif cat == "extenums":
            d.update(kind="ExtEnum", values=sorted([self.auid(), "%s_%d" % (n, i)] for i in range(rng.randrange(1, 5))))
            args = [a, {v: x for v, x in d["values"]}]
            self.fixed.append(a)
            self.hashable.append(a)
            self.data.append(a)
            need = []
        elif cat == "records":
            f = [["f%d" % i, rng.choice(self.fixed)] for i in range(rng.randrange(1, 5))]
            d.update(kind="Record", fields=f)
            args = [a, f]
            self.fixed.append(a)
            self.data.append(a)
            need = self.needs(*[x for _, x in f])
        elif cat == "fixed_arrays":
            e = rng.choice(self.fixed)
            d.update(kind="FixedArray", elem=e, count=rng.choice([1, 2, 3, 16]))
            args = [a, e, d["count"]]
            self.fixed.append(a)
            self.data.append(a)
            need = self.needs(e)
        elif cat == "var_arrays":
            e = rng.choice(self.fixed)
            d.update(kind="VarArray", elem=e)
            args = [a, e]
            self.data.append(a)
            need = self.needs(e)
        elif cat == "sets":
            e = rng.choice(self.hashable)
            d.update(kind="Set", elem=e)
            args = [a, e]
            self.data.append(a)
            need = self.needs(e)
        elif cat == "renames":
            e = rng.choice(self.data[:1] + self.data[3:] + self.fixed)
            if e == INDIRECT or self.kindof(e) in ("Indirect", "Opaque"):
                return
            d.update(kind="Rename", elem=e)
            args = [a, e]
            if e in self.fixed:
                self.fixed.append(a)
            self.data.append(a)
            need = self.needs(e)
        elif cat == "strings":
            d.update(kind="String", elem=aaftypes.T_CHAR)
            args = [a, aaftypes.T_CHAR]
            self.data.append(a)
            need = []
        elif cat in ("streams", "opaques", "indirects"):
            d.update(kind=cat[:-1].title())
            args = [a]
            need = []
        elif cat == "strongrefs":
            c = rng.choice(["TaggedValue", "Locator", "Component", "KLVData", "Component"] + [x["name"] for x in self.classes])
            d.update(kind="StrongRef", cls=c)
            ca = self.class_auid(c)
            args = [a, ca]
            self.refs[a] = c
            need = self.needs(ca)
        elif cat in ("refvec", "refset"):
            c = [x for x in sorted(self.refs) if cat == "refvec" or self.has_key(self.refs[x])]
            if not c:
                return
            e = rng.choice(c)
            d.update(kind="VarArray" if cat == "refvec" else "Set", elem=e)
            args = [a, e]
            cat = "var_arrays" if cat == "refvec" else "sets"
            need = self.needs(e)
        elif cat == "weakrefs":
            t = self.T.types[rng.choice(sorted(x for x, t in self.T.types.items() if t["kind"] == "WeakRef"))]
            d.update(kind="WeakRef", cls=t["cls"], path=t["path"])
            args = [a, self.T.classes[t["cls"]]["auid"], t["path"]]
            self.weaks.append(a)
            need = []
        else:
            if not self.weaks:
                return
            e = rng.choice(self.weaks)
            d.update(kind="VarArray" if cat == "weakvec" else "Set", elem=e)
            args = [a, e]
            cat = "var_arrays" if cat == "weakvec" else "sets"
            need = self.needs(e)
        self.props.append(a)
        self.props.append(a)
        self.add({"k": "type", "cat": cat, "auid": a, "def": d, "args": args, "needs": need}, a)
        if cat in ("strongrefs", "weakrefs") and rng.random() < .7:
            vec = rng.random() < .5 or cat == "strongrefs" and not self.has_key(d["cls"])
            b = self.auid()
            self.props.append(b)
            self.add({"k": "type", "cat": "var_arrays" if vec else "sets", "auid": b, "args": [b, a], "needs": self.needs(a),
                      "def": {"name": n + "Col", "ext": False, "kind": "VarArray" if vec else "Set", "elem": a}}, b)
            a = rng.choice([a, b, b])
        if rng.random() < .6:
            self.host(a)

    def kindof(self, a):
        if a in self.owner:
            return self.out[self.owner[a]]["def"]["kind"]
        return self.T.types[a]["kind"]

    def class_auid(self, c):
        for x in self.classes:
            if x["name"] == c:
                return x["auid"]
        return self.T.classes[c]["auid"]

    def has_key(self, c):
        while c not in self.T.classes:
            x = [x for x in self.classes if x["name"] == c][0]
            if any(p["unique"] for p in x["props"]):
                return True
            c = x["parent"]
        return any(p["unique"] for p in self.T.props(c))

    def prop(self, required=False, t=None):
        rng = self.rng
        t = t or rng.choice(self.props)
        r = rng.random()
        pid = None
        if r < .3:
            pid = self.pid
            self.pid += 1
        elif r < .4:
            pid = self.hpid
            self.hpid += rng.choice([1, 1, 7])
        elif r < .45 or r < .65 and self.side is not None:
            # one that a definition of the other file has
            if self.side is None:
                self.side = rng.choice("01")
            pid = self.spid[int(self.side)]
            self.spid[int(self.side)] += 1
        opt = not (required and t in self.data and rng.random() < .3)
        return {"name": self.name("Prop"), "auid": self.auid(), "pid": pid, "type": t, "optional": opt, "unique": False}

    def cls(self):
        rng = self.rng
        parent = rng.choice(PARENTS + [x["name"] for x in self.classes] * 2)
        ps = [self.prop(True) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if not self.has_key(parent) and rng.random() < .5:
            ps.append({"name": self.name("Key"), "auid": self.auid(), "pid": None, "type": T_AUID, "optional": False, "unique": True})
        # two static pids of one class come in any order
        rng.shuffle(ps)
        c = {"k": "class", "name": self.name("Class"), "auid": self.auid(), "parent": parent, "concrete": rng.random() < .85, "props": ps}
        c["needs"] = self.needs(self.class_auid(parent), *[p["type"] for p in ps])
        self.add(c, c["auid"])
        self.classes.append(c)

    def host(self, t=None):
        rng = self.rng
        h = rng.choice(HOSTS + [x["name"] for x in self.classes])
        p = self.prop(t=t)
        self.add({"k": "prop", "cls": h, "prop": p, "needs": self.needs(self.class_auid(h), p["type"])})

    def elem(self):
        rng = self.rng
        own = [s for s in self.out if s["k"] == "type" and s["def"]["kind"] in ("Enum", "ExtEnum")]
        if own and rng.random() < .6:
            s = rng.choice(own)
            a, d = s["auid"], s["def"]
        else:
            a = rng.choice(sorted(x for x, t in self.T.types.items() if t["kind"] in ("Enum", "ExtEnum") and x != aaftypes.BOOL))
            d = self.T.types[a]
        n = rng.choice([1] * 6 + [60])
        for v in rng.sample(range(60, 128), n):
            self.add({"k": "elem", "type": a, "value": self.auid() if d["kind"] == "ExtEnum" else v, "name": self.name("Elem"), "needs": self.needs(a), "many": n > 1})


FOCUS = [["Mob", "MasterMob"], ["Component", "Segment", "SourceClip"], ["MobSlot", "TimelineMobSlot"], ["InterchangeObject", "TaggedValue"],
         ["Mob", "SourceMob", "EssenceDescriptor"]]


def gen_specs(rng, focus=None):
    g = Specs(rng)
    if focus:
        # properties of a few related classes, mostly with identifiers the library picks
        for _ in range(rng.choice([6, 10, 16])):
            p = g.prop()
            if rng.random() < .7:
                p["pid"] = g.side = None
            g.add({"k": "prop", "cls": rng.choice(focus), "prop": p, "needs": []})
        return g.out
    for _ in range(rng.choice([6, 12, 25])):
        k = rng.choice(["type", "type", "type", "cls", "cls", "host", "host", "elem"])
        getattr(g, k)()
    if not g.classes:
        g.cls()
    g.host()
    return g.out


# ---------------------------------------------------------------- session

class Reg(defs.DefSession):
    def begin(self, specs):
        self.specs = specs
        self.regd = []
        self.pids = {}
        self.used = 0

    def auid_arg(self, a, rng, name=None):
        """an identifier as the API takes it"""
        r = rng.random()
        if r < .4:
            return a
        if r < .55:
            return a.upper()
        if name is not None and r < .75:
            return name
        return self.lib.key(aaftypes.akey(a))

    def class_name(self, name):
        """name of a class of the pool or the built-in model in this file"""
        for s in self.specs:
            if s["k"] == "class" and s["name"] == name:
                return self.cls_by_auid(s["auid"])
        return self.cls_by_auid(aaftypes.frozen(False).classes[name]["auid"])

    def call(self, s, rng):
        """the registration itself"""
        md = self.f.metadict
        if s["k"] == "type":
            args = list(s["args"])
            if s["cat"] == "enums":
                args[2] = {int(k): v for k, v in args[2].items()}
            elif s["cat"] == "records":
                args[1] = tuple((a, b) for a, b in args[1])
            if len(args) == 1 and rng.random() < .5:
                args = args[0]
            elif rng.random() < .7:
                args = tuple(args)
            lib("register_typedef_model %s" % s["cat"], md.register_typedef_model, {s["cat"]: {s["def"]["name"]: args}})
        elif s["k"] == "class":
            par = self.class_name(s["parent"])
            pa = self.T.classes[par]["auid"]
            ps = {p["name"]: (p["auid"], p["pid"], p["type"], p["optional"], p["unique"]) for p in s["props"]}
            whole = rng.random() < .7
            c = lib("register_classdef", md.register_classdef, s["name"], self.auid_arg(s["auid"], rng), self.auid_arg(pa, rng, par), s["concrete"],
                    *([ps] if whole and (ps or rng.random() < .5) else []))
            if c is None or c.class_name != s["name"]:
                raise Violation("wrong-definition", "register_classdef returned %r" % c)
            if not whole:
                for p in s["props"]:
                    self.call_prop(c, p, rng)
        elif s["k"] == "prop":
            self.call_prop(lib("lookup_classdef", md.lookup_classdef, self.class_name(s["cls"])), s["prop"], rng)
        else:
            t = lib("lookup_typedef", md.lookup_typedef, self.auid_arg(s["type"], rng, self.T.types[s["type"]]["name"]))
            v = self.lib.key(aaftypes.akey(s["value"])) if isinstance(s["value"], str) else s["value"]
            lib("register_element", t.register_element, s["name"], v)

    def call_prop(self, c, p, rng):
        kw = {"unique": True} if p["unique"] else {}
        r = lib("register_propertydef", c.register_propertydef, p["name"], self.auid_arg(p["auid"], rng), p["pid"],
                self.auid_arg(p["type"], rng, self.T.types[p["type"]]["name"]), p["optional"], **kw)
        if r is None or r.auid != self.lib.key(aaftypes.akey(p["auid"])):
            raise Violation("wrong-definition", "register_propertydef returned %r" % r)

    def learn(self, s):
        """what the registration means"""
        X = self.extra
        if s["k"] == "type":
            if s["auid"] not in self.T.types:
                d = dict(s["def"])
                if "cls" in d:
                    d["cls"] = self.class_name(d["cls"])
                if "values" in d:
                    d["base_values"] = d["values"] = sorted(d["values"])
                X.types[s["auid"]] = d
                X.v += 1
        elif s["k"] == "class":
            n = self.cls_by_auid(s["auid"])
            if n is None:
                n = s["name"]
                X.classes[n] = {"auid": s["auid"], "parent": self.class_name(s["parent"]), "concrete": s["concrete"], "py": "AAFObject",
                                "props": [], "ext": False}
                X.v += 1
            for p in s["props"]:
                self.learn_prop(n, p)
        elif s["k"] == "prop":
            self.learn_prop(self.class_name(s["cls"]), s["prop"])
        else:
            t = self.T.types[s["type"]]
            if not any(str(v[0]) == str(s["value"]) or v[1] == s["name"] for v in t["values"]):
                X.elems.setdefault(s["type"], []).append([s["value"], s["name"]])
                X.v += 1

    def learn_prop(self, n, p):
        if any(q["auid"] == p["auid"] for q in self.T.classes[n]["props"]):
            return
        self.extra.props.setdefault(n, []).append(dict(p, ext=False))
        self.extra.v += 1

    def register(self, i, rng):
        if i in self.regd:
            return
        for j in self.specs[i]["needs"]:
            self.register(j, rng)
        self.call(self.specs[i], rng)
        self.learn(self.specs[i])
        self.regd.append(i)
        self.w.log("registered", i, self.specs[i]["k"])
        self.w.probe("registered " + (self.specs[i].get("cat") or self.specs[i]["k"]))

    # ------------------------------------------------------------ what is defined
    def snapshot(self):
        """every definition, through the API"""
        def go():
            md = self.f.metadict
            out = {}
            n = 0
            for k, c in md["ClassDefinitions"].items():
                n += 1
                out["c", str(k)] = (c.class_name, str(c.auid), str(c.parent_id), c.concrete, tuple(sorted(
                    (str(a), p.property_name, p.pid, str(p.typedef_id), p.optional, bool(p.unique)) for a, p in c["Properties"].items())))
            if n != len(md["ClassDefinitions"]):
                raise Violation("wrong-definition", "%d classes, %d listed" % (len(md["ClassDefinitions"]), n))
            for k, t in md["TypeDefinitions"].items():
                out["t", str(k)] = (t.type_name, str(t.auid), type(t).__name__,
                                    tuple(sorted((str(a), b) for a, b in t.elements.items())) if hasattr(t, "elements") else None)
            return out
        return lib("definitions", go)

    def same(self, before, what):
        after = self.snapshot()
        for k in sorted(set(before) | set(after)):
            if before.get(k) != after.get(k):
                a, b = before.get(k), after.get(k)
                if k[0] == "c" and a and b:
                    a, b = sorted(set(a[4]) - set(b[4])) or a, sorted(set(b[4]) - set(a[4])) or b
                raise Violation("definitions-changed", "%s: %s was %.200r, is %.200r" % (what, k, a, b))

    def check_defs(self, where):
        """the registered definitions as the live API shows them"""
        md = self.f.metadict
        T = self.T
        for i in self.regd:
            s = self.specs[i]
            what = "%s: %s %s" % (where, s["k"], s.get("name") or s.get("def", {}).get("name") or s.get("cls"))
            if s["k"] in ("type", "elem"):
                a = s["auid"] if s["k"] == "type" else s["type"]
                want = T.types[a]
                t = lib(what, md.lookup_typedef, self.lib.key(aaftypes.akey(a)))
                u = lib(what, md.lookup_typedef, want["name"])
                if t is None or t is not u or t.type_name != want["name"] or self.knorm(t.auid) != aaftypes.akey(a):
                    raise Violation("wrong-definition", "%s: %r, by name %r" % (what, t, u))
                if type(t).__name__ != "TypeDef" + want["kind"]:
                    raise Violation("wrong-definition", "%s is a %s" % (what, type(t).__name__))
                if "values" in want:
                    got = sorted([str(x), y] for x, y in lib(what, lambda: t.elements).items())
                    if got != sorted([str(x), y] for x, y in want["values"]):
                        w = [[str(x), y] for x, y in want["values"]]
                        raise Violation("wrong-definition", "%s has elements %s, expected %s" % (
                            what, [x for x in got if x not in w][:3], [x for x in w if x not in got][:3]))
                elif want["kind"] == "Record":
                    got = [[a, str(b.auid)] for a, b in zip(lib(what, lambda: t.member_names), lib(what, lambda: t.member_types))]
                    if got != want["fields"]:
                        raise Violation("wrong-definition", "%s has fields %s" % (what, got))
                elif want["kind"] == "Rename":
                    if str(lib(what, lambda: t.renamed_typedef).auid) != want["elem"]:
                        raise Violation("wrong-definition", what)
                elif "elem" in want and str(lib(what, lambda: t.element_typedef).auid) != want["elem"]:
                    raise Violation("wrong-definition", what)
                elif "cls" in want and lib(what, lambda: t.ref_classdef).class_name != want["cls"]:
                    raise Violation("wrong-definition", what)
            if s["k"] in ("class", "prop"):
                n = self.cls_by_auid(s["auid"]) if s["k"] == "class" else self.class_name(s["cls"])
                want = T.classes[n]
                c = lib(what, md.lookup_classdef, n)
                if c is None or c is not lib(what, md.lookup_classdef, self.lib.key(aaftypes.akey(want["auid"]))):
                    raise Violation("wrong-definition", "%s: not the same by name and identifier" % what)
                par = want["parent"] and T.classes[want["parent"]]["auid"]
                if c.class_name != n or str(c.auid) != want["auid"] or c.concrete != want["concrete"] or (par and str(c.parent.auid) != par):
                    raise Violation("wrong-definition", what)
                taken = {}
                for q in lib(what, lambda: list(c.all_propertydefs())):
                    if q.pid in taken and taken[q.pid] != q.auid:
                        raise Violation("pid-clash", "%s: %s and %s share pid %04x" % (what, q.property_name, taken[q.pid], q.pid))
                    taken[q.pid] = q.auid
                for p in want["props"]:
                    q = lib(what, c.lookup_propertydef, self.lib.key(aaftypes.akey(p["auid"])))
                    if q is None or (q.property_name, str(q.typedef_id), q.optional, bool(q.unique)) != (p["name"], p["type"], p["optional"], p["unique"]):
                        raise Violation("wrong-definition", "%s: property %s is %r" % (what, p["name"], q))
                    old = self.pids.setdefault((want["auid"], p["auid"]), q.pid)
                    if q.pid != old:
                        raise Violation("pid-changed", "%s: pid of %s was %04x, is %04x" % (what, p["name"], old, q.pid))
        self.w.probe("definition checks")

    # ------------------------------------------------------------ operations
    def op_reg(self, k1, k2, rng):
        me = "01"[self.name != "a"]
        left = [i for i in range(len(self.specs)) if i not in self.regd and self.specs[i].get("side", me) == me]
        if not left:
            return False
        for _ in range(rng.choice([1, 1, 3])):
            i = left[k1 % len(left)]
            self.register(i, rng)
            if self.specs[i].get("many"):
                # its sisters too
                for j in left:
                    if self.specs[j].get("many") and self.specs[j]["type"] == self.specs[i]["type"] and rng.random() < .9:
                        self.register(j, rng)
            k1 //= 3

    op_elem = op_reg

    def op_rereg(self, k1, k2, rng):
        """register something again"""
        if not self.regd:
            return False
        before = self.snapshot()
        many = [self.specs[i] for i in self.regd if self.specs[i]["k"] == "class" and any(p["pid"] is None for p in self.specs[i]["props"])]
        if many and k1 % 12 == 0:
            # more often than there are dynamic pids
            s = many[k2 % len(many)]
            n = 0x8000 // sum(p["pid"] is None for p in s["props"]) + 1
            ps = {p["name"]: (p["auid"], p["pid"], p["type"], p["optional"], p["unique"]) for p in s["props"]}
            au, par = self.lib.key(aaftypes.akey(s["auid"])), self.class_name(s["parent"])

            def go():
                for _ in range(n):
                    self.f.metadict.register_classdef(s["name"], au, par, s["concrete"], ps)
            lib("register_classdef again and again", go)
            self.w.probe("registered again more often than there are pids")
        for _ in range(rng.choice([1, 1, 3, 20])):
            s = self.specs[rng.choice(self.regd)]
            self.call(s, rng)
        self.same(before, "after registering %s again" % s["k"])
        self.w.probe("registered again")

    def op_reext(self, k1, k2, rng):
        """register the extensions again"""
        if not self.have_ext:
            return False
        before = self.snapshot()
        for _ in range(1 if k1 % 4 else 3):
            lib("register_extensions", self.f.metadict.register_extensions)
        self.same(before, "after registering the extensions again")
        self.w.probe("extensions registered again")

    def op_bad(self, k1, k2, rng):
        """registrations that cannot be"""
        T = self.T
        kind = ["chain", "below", "type", "parent", "dyn"][k2 % 5]
        md = self.f.metadict
        au = "A:" + rng.randbytes(16).hex()
        names = sorted(n for n, c in T.classes.items() if n not in defs.ROOTS and not n.startswith("TypeDefinition"))
        n = names[k1 % len(names)]
        c = lib("lookup_classdef", md.lookup_classdef, n)
        if c is None:
            return False
        before = self.snapshot()
        if kind in ("chain", "below"):
            if kind == "chain":
                ps = [p.pid for p in c.all_propertydefs()]
            else:
                ps = [p.pid for m in names if n in T.chain(m) and m != n for p in md.lookup_classdef(m).propertydefs]
            if not ps:
                return False
            lib_raises("a property with the pid of another (%s)" % kind, c.register_propertydef, "Clash", self.lib.key(au), rng.choice(ps), T_INT32, True)
        elif kind == "dyn":
            ps = [p.pid for m in names for p in md.lookup_classdef(m).propertydefs if p.pid >= 0x8000]
            if not ps:
                return False
            lib_raises("a class with a dynamic pid that is taken", md.register_classdef, "Clash%x" % k1, self.lib.key(au), n, True,
                       {"Clash": (str(uuid.UUID(bytes=rng.randbytes(16))), rng.choice(ps), T_INT32, True, False)})
        elif kind == "type":
            lib_raises("a property of an unknown type", c.register_propertydef, "Odd", self.lib.key(au), None, "no such type", True)
        else:
            lib_raises("a class with an unknown parent", md.register_classdef, "Odd%x" % k1, self.lib.key(au), "no such class", True)
        self.same(before, "after a refused registration (%s)" % kind)
        self.w.probe("refused registration " + kind)

    def user_props(self, cls):
        """properties registered by the user that objects of a class have"""
        out = []
        for c in self.T.chain(cls):
            mine = {p["auid"] for p in self.extra.props.get(c, ())}
            out += [p for p in self.T.classes[c]["props"] if p["auid"] in mine]
        return out

    def op_use(self, k1, k2, rng):
        """give a registered property a value"""
        if not self.extra.v:
            return False

        def ok(m):
            return m is not self.root and any(not self.skip(m, p) for p in self.user_props(m.cls))
        mo = self.pick_obj(k1, ok)
        if mo is None:
            return False
        ps = [p for p in self.user_props(mo.cls) if not self.skip(mo, p)]
        p = ps[k2 % len(ps)]
        if self.T.pform(p) in "sVS" and self.T.pform(p) != "data" and self.full(mo):
            return False
        mo.py = self.py(mo)
        self.fill(mo, dict(p, optional=False), rng, max(1, min(2, self.depth(mo) - 2)))
        if p["name"] in mo.props:
            self.used += 1
            self.w.probe("used " + mo.props[p["name"]][0])
            self.check_prop(mo.py, mo, p["name"], "after use")
            self.w.log("use", mo.cls, p["name"])
        if self.attached(mo):
            self.settle(mo, rng)

    def skip(self, mo, p):
        return p["unique"] or (self.T.pform(p) == "data" and not self.T.supported(p["type"])) or \
            self.T.pform(p) in ("s", "V", "S") and not self.creatable(self.T.ref_class(p["type"])) or \
            self.T.pform(p) == "stream" and p["name"] in mo.props

    def op_new(self, k1, k2, rng):
        """an object of a registered class"""
        c = [n for n in self.creatable("InterchangeObject") if any(q in self.extra.classes for q in self.T.chain(n))]
        if not c or len(self.user()) > self.limit:
            return False
        mo = self.build(c[k1 % len(c)], rng, 1, .5)
        self.w.probe("objects of registered classes")
        if self.place(mo, rng):
            self.w.probe("placed objects of registered classes")
        else:
            self.pool.append(mo)
        self.used += any(p["name"] in mo.props for p in self.user_props(mo.cls))

    def op_defs(self, k1, k2, rng):
        self.check_defs("live")

    def op_reopen(self, k1, k2, rng):
        self.check_defs("before reopen")
        defs.DefSession.op_reopen(self, k1, k2, rng)
        self.check_defs("after reopen")


def generate(rng, tier, index):
    cfgs = []
    for _ in range(rng.choice([1, 2, 2])):
        cfg = aafsim.gen_cfg(rng, .2, .15)
        cfg["gc_mean"] = None
        cfgs.append(cfg)
    w = {k: v * rng.choice([.3, 1, 1, 2]) for k, v in W.items()}
    kinds = sorted(w)
    ws = [w[k] for k in kinds]
    ops = []
    for i in range(len(cfgs)):
        ops.append(["mob", rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32), i, 0])
        for _ in range(rng.choice([0, 4, 10])):
            ops.append(["reg", rng.getrandbits(16), 0, rng.getrandbits(32), i, 0])
    for _ in range(rng.choice([8, 16, 30])):
        who = rng.randrange(len(cfgs))
        ops.append([rng.choices(kinds, ws)[0], rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32), who, rng.randrange(len(cfgs))])
    focus = rng.choice(FOCUS) if rng.random() < .25 else None
    if focus:
        # the definitions of two files diverge, then objects are copied from one to the other and more is registered
        cfgs = [cfgs[0], dict(cfgs[0]) if rng.random() < .8 else cfgs[-1]]
        ops = [["mob", rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32), i, 0] for i in (0, 1, 0)]
        src = 0
        for _ in range(rng.choice([1, 2, 3])):
            for kind, n, who in (("reg", rng.choice([1, 3, 6]), src), ("use", rng.choice([2, 6, 12]), src), ("reg", rng.choice([0, 0, 1, 4]), 1 - src),
                                 ("copy", rng.choice([1, 2, 4]), 1 - src), ("reg", rng.choice([1, 3, 6]), 1 - src), ("use", rng.choice([2, 6]), 1 - src),
                                 (rng.choice(["reopen", "save", "defs", "rereg"]), 1, rng.randrange(2))):
                ops += [[kind, rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(32), who, 1 - who] for _ in range(n)]
            if rng.random() < .4:
                src = 1 - src
    return {"cfg": cfgs, "specs": gen_specs(rng, focus), "cache": rng.choice([None, None, 1, 2, 8]), "gc_mean": rng.choice([None, None, 20000]),
            "hold": rng.choice([0, .2, .6, 1]), "ops": ops}


def execute(plan, keep_log=False):
    with core.world(plan["seed"], cache_size=plan.get("cache"), keep_log=keep_log, gc_mean=plan.get("gc_mean")) as w:
        ss = []
        for i, cfg in enumerate(plan["cfg"]):
            s = Reg(w, dict(cfg, hold=plan["hold"]), "ab"[i])
            s.rng = random.Random(plan["seed"])
            s.nav = random.Random(mix("nav", plan["seed"], i))
            s.begin(plan["specs"])
            s.start()
            ss.append(s)
        for op in plan["ops"]:
            s = ss[op[4]]
            if op[0] == "copy":
                rng = random.Random(op[3])
                w.advance(1)
                w.log("op", "copy", op[4], op[5])
                w.ops += 1
                if s.copy_from(ss[op[5]], op[1], op[2], rng) is False:
                    s.skipped += 1
                else:
                    s.executed += 1
                    s.counts["copy"] = s.counts.get("copy", 0) + 1
            else:
                s.step(op)
        for s in ss:
            s.check_defs("at the end")
            s.verify("at the end")
        for i, s in enumerate(ss):
            s.pool = []
            s.finish()
            for k in range(2):
                s.open("r" if (plan["seed"] + i + k) % 2 else "rw", bool((plan["seed"] >> 1) + k & 1))
                s.check_defs("later session")
                s.verify("later session")
                if s.f.mode == "rb":
                    s.close()
                else:
                    s.finish("later session")
        st = aafsim.stats(w, ss[0])
        for s in ss[1:]:
            for k, v in s.counts.items():
                st["probes"]["op " + k] = st["probes"].get("op " + k, 0) + v
            st["operations"] += s.executed
        return {"digest": w.log.digest(), "stats": st, "states": sorted(set().union(*[s.states for s in ss])), "nontrivial": any(s.used for s in ss),
                "sample": {"seed": plan["seed"], "cfg": plan["cfg"], "specs": plan["specs"][:3], "ops": plan["ops"][:8]},
                "log": w.log.lines if keep_log else None}
