"""Sessions whose class and type definitions grow: by copies from other files and by registration (C12, C17)."""
from . import aafsim, aaftypes, core
from .aafsim import MO
from .aaftypes import akey
from .core import Violation, lib

ROOTS = {"Root", "MetaDictionary", "Header", "Dictionary", "ContentStorage", "ClassDefinition", "PropertyDefinition", "MetaDefinition"}
DEF_SETS = ("DataDefinitions", "ContainerDefinitions", "CodecDefinitions", "ParameterDefinitions", "OperationDefinitions",
            "InterpolationDefinitions", "TaggedValueDefinitions")


class Extra(object):
    """definitions a file has on top of the built-in ones"""

    def __init__(self):
        self.types = {}
        self.classes = {}
        self.props = {}
        self.elems = {}
        self.v = 0
        self.cached = None

    def over(self, base):
        if self.cached and self.cached[0] is base and self.cached[1] == self.v:
            return self.cached[2]
        if not self.v:
            return base
        types = dict(base.types)
        for k, t in self.types.items():
            types.setdefault(k, t)
        for k, new in self.elems.items():
            t = types[k]
            vals, names = {str(v[0]) for v in t["values"]}, {v[1] for v in t["values"]}
            new = [v for v in new if str(v[0]) not in vals and v[1] not in names]
            if new:
                types[k] = dict(t, values=t["values"] + new, base_values=(t.get("base_values") or t["values"]) + new)
        classes = dict(base.classes)
        for k, c in self.classes.items():
            if k not in classes:
                classes[k] = c
        for k, ps in self.props.items():
            c = classes[k]
            have = {p["auid"] for p in c["props"]}
            classes[k] = dict(c, props=c["props"] + [p for p in ps if p["auid"] not in have])
        T = aaftypes.Types(types, classes)
        self.cached = (base, self.v, T)
        return T


class DefSession(aafsim.Session):
    def __init__(self, w, cfg, name="a"):
        self.extra = Extra()
        self.mode = cfg.get("mode", "rw")
        aafsim.Session.__init__(self, w, cfg, name)

    @property
    def T(self):
        return self.extra.over(aafsim.session_types(self.cfg.get("third"), self.have_ext))

    def start(self):
        if self.mode == "r":
            self.load()
            self.original = self.w.disk.get(self.name)
            self.open("r", self.cfg.get("ext", True))
        else:
            aafsim.Session.start(self)

    def op_reopen(self, k1, k2, rng):
        if self.mode == "r":
            self.close()
            self.same_bytes()
            self.open("r", k1 % 3 > 0)
        else:
            aafsim.Session.op_reopen(self, k1, k2, rng)

    def same_bytes(self):
        if self.w.disk.get(self.name) != self.original:
            raise Violation("source-modified", "a file opened for reading was changed")

    # ------------------------------------------------------------ definitions from another file
    def cls_by_auid(self, auid):
        T = self.T
        if not hasattr(T, "by_auid"):
            T.by_auid = {c["auid"]: n for n, c in T.classes.items()}
        return T.by_auid.get(auid)

    def reg_class(self, src, cls, seen=None):
        """what the definition of a class of another file brings with it -> its name here"""
        seen = set() if seen is None else seen
        S = src.T
        for c in reversed(list(S.chain(cls))):
            d = S.classes[c]
            if d["auid"] in seen or c == "Root":
                continue
            seen.add(d["auid"])
            n = self.cls_by_auid(d["auid"])
            if n is None:
                par = self.cls_by_auid(S.classes[d["parent"]]["auid"])
                self.extra.classes[c] = dict(d, props=[], parent=par, ext=False)
                self.extra.v += 1
                n = c
            have = {p["auid"] for p in self.T.classes[n]["props"]}
            new = [p for p in d["props"] if p["auid"] not in have]
            if new:
                self.extra.props.setdefault(n, []).extend(
                    dict(p, pid=p["pid"] if p["pid"] is not None and p["pid"] < 0x8000 else None, ext=False) for p in new)
                self.extra.v += 1
            for p in d["props"]:
                self.reg_type(src, p["type"], seen)
        return self.cls_by_auid(S.classes[cls]["auid"])

    def reg_type(self, src, t, seen):
        if t in seen:
            return
        seen.add(t)
        d = src.T.types[t]
        new = t not in self.T.types
        if new:
            self.extra.types[t] = dict(d, ext=False)
            self.extra.v += 1
        elif "values" in d:
            own = self.T.types[t]["values"]
            vals, names = {str(v[0]) for v in own}, {v[1] for v in own}
            add = [v for v in d["values"] if str(v[0]) not in vals and v[1] not in names]
            if add:
                self.extra.elems.setdefault(t, []).extend(add)
                self.extra.v += 1
        for x in [d["elem"]] if "elem" in d else [f[1] for f in d.get("fields", ())]:
            self.reg_type(src, x, seen)
        if "cls" in d and new:
            n = self.reg_class(src, d["cls"], seen)
            if n != d["cls"]:
                self.extra.types[t]["cls"] = n
                self.extra.v += 1

    def name_here(self, src, cls, prop, here):
        """name of a property in this file"""
        T = src.T
        if not hasattr(T, "pauid"):
            T.pauid = {}
        if cls not in T.pauid:
            T.pauid[cls] = {p["name"]: p["auid"] for p in T.props(cls)}
        au = T.pauid[cls][prop]
        for p in self.T.props(here):
            if p["auid"] == au:
                return p["name"]
        raise KeyError((cls, prop))

    def transplant(self, src, mo, owner=None, seen=None):
        """model of the copy of an object of another file, with the definitions it needs"""
        seen = set() if seen is None else seen
        c = MO(self.reg_class(src, mo.cls, seen), owner)
        c.new = True
        return self.transplant_into(src, mo, c, seen)

    def transplant_into(self, src, mo, c, seen):
        for n, (f, v) in mo.props.items():
            d = self.name_here(src, mo.cls, n, c.cls)
            if f == "s":
                v = self.transplant(src, v, (c, d), seen)
            elif f == "V":
                v = [self.transplant(src, x, (c, d), seen) for x in v]
            elif f == "S":
                v = {k: self.transplant(src, x, (c, d), seen) for k, x in v.items()}
            elif f in ("w", "W", "X"):
                t = src.ptype(mo.cls, n)
                for k in [v] if f == "w" else v:
                    self.need(src, t, k, seen)
                v = v if f == "w" else list(v)
            c.props[d] = [f, v]
        return c

    def need(self, src, t, key, seen):
        """the target of a weak reference comes along when it is missing"""
        cls = src.T.ref_class(t)
        if cls == "ClassDefinition":
            if self.cls_by_auid(aaftypes.atext(key)) is None:
                self.reg_class(src, src.cls_by_auid(aaftypes.atext(key)), seen)
        elif cls == "TypeDefinition":
            if aaftypes.atext(key) not in self.T.types:
                self.reg_type(src, aaftypes.atext(key), seen)
        else:
            dp = src.dict_prop(cls)
            self.need_definition(src, dp, key, seen)

    def need_definition(self, src, dp, key, seen):
        d = self.dictionary()
        cur = d.props.setdefault(dp, ["S", {}])[1]
        if key in cur:
            return
        m = src.dictionary().props[dp][1][key]
        c = MO(self.reg_class(src, m.cls, seen), (d, dp))
        c.new = True
        cur[key] = c
        self.transplant_into(src, m, c, seen)
        self.w.probe("definition came along")

    def registered(self, where):
        """what the file defines can be looked up, and no dynamic pid has two meanings"""
        def go():
            md = self.f.metadict
            pids = {}
            for c in md["ClassDefinitions"].values():
                if md.lookup_classdef(c.auid) is not c or md.lookup_classdef(c.class_name) is not c:
                    return "class %s cannot be looked up" % c.class_name
                for p in c.propertydefs:
                    if p.pid >= 0x8000 and pids.setdefault(p.pid, p.auid) != p.auid:
                        return "pid %04x is used twice (%s)" % (p.pid, p.property_name)
            for t in md["TypeDefinitions"].values():
                if md.lookup_typedef(t.auid) is not t or md.lookup_typedef(t.type_name) is not t:
                    return "type %s cannot be looked up" % t.type_name
        r = lib("definitions", go)
        if r:
            raise Violation("wrong-definition", "%s: %s" % (where, r))
        self.w.probe("definition lookups")

    # ------------------------------------------------------------ copying
    def source_object(self, k1, k2, rng):
        """an object to copy"""
        r = rng.random()
        c = []
        if r < .45:
            c = [m for _, m in self.content().kids()]
        elif r < .55:
            c = [m for _, m in self.dictionary().kids()]
        elif r < .6:
            c = [m for p in self.pool for m in p.walk()]
        elif r < .7:
            c = [m for m in self.user() if any(f in ("stream", "w", "W", "X", "S") for f, _ in m.props.values())]
        if not c:
            c = self.user()
        c = [m for m in c if m.cls not in ROOTS and m is not self.root]
        return c[k1 % len(c)] if c else None

    def place(self, c, rng):
        """put the copy somewhere in this file -> bool"""
        T = self.T
        if T.isinstance(c.cls, "Mob") or T.isinstance(c.cls, "EssenceData"):
            o, n = self.content(), "EssenceData" if T.isinstance(c.cls, "EssenceData") else "Mobs"
            cur = o.props.setdefault(n, ["S", {}])[1]
            if c.props["MobID"][1] in cur or rng.random() < .3:
                self.put_data(c.py, c, "MobID", aaftypes.T_MOBID, aaftypes.gen_mobid(rng), rng)
            lib("append copy", self.f.content[n].append, c.py)
            cur[c.props["MobID"][1]] = c
        elif T.isinstance(c.cls, "DefinitionObject"):
            o, n = self.dictionary(), self.dict_prop(c.cls)
            if n is None:
                return False
            cur = o.props.setdefault(n, ["S", {}])[1]
            key = c.props["Identification"][1]
            if key in cur:
                return False
            lib("register copy", self.f.dictionary.register_def if n in DEF_SETS and rng.random() < .5 and T.classes[c.cls]["py"] != "AAFObject"
                else self.f.dictionary[n].append, c.py)
            cur[key] = c
        else:
            spots = []
            us = self.user()
            if len(us) > self.limit:
                us = []
            for m in us:
                if m in self.pool or self.depth(m) > 9:
                    continue
                for p, f in self.refprops(m, ("s", "V", "S")):
                    if T.isinstance(c.cls, T.ref_class(p["type"])):
                        spots.append((m, p, f))
            if not spots:
                return False
            for _ in range(4):
                o, p, f = spots[rng.randrange(len(spots))]
                if p["name"] in o.props or rng.random() < .5:
                    break
            if self.top(o) is c:
                return False
            n = p["name"]
            po = self.py(o)
            if f == "s":
                self.pool.append(c)
                self.assign(po, o, n, "s", [c], rng)
                return True
            cur = o.props.get(n, [f, [] if f == "V" else {}])[1]
            if f == "S":
                key = self.set_key(c, T.ref_class(p["type"]))
                if key is None or key in cur:
                    return False
            lib("append copy", self.prop(po, o, n).append, c.py)
            o.props[n] = [f, cur + [c] if f == "V" else dict(cur, **{key: c})]
        c.owner = (o, n)
        if self.attached(c):
            self.settle(c, rng)
        return True

    def copy_from(self, src, k1, k2, rng, faults=None):
        """copy an object of src (which may be this file) and put it somewhere"""
        if self.mode == "r":
            return False
        mo = src.source_object(k1, k2, rng)
        if mo is None:
            return False
        size = sum(1 for _ in mo.walk())
        if size > 400 or len(self.user()) > self.limit + 60:
            return False
        o = src.py(mo)
        same = src is self
        what = "copy of %s %s" % (mo.cls, "within a file" if same else "into another file")
        go = lambda: lib(what, o.copy) if same and k2 % 4 else lib(what, o.copy, root=self.f)
        if faults and not same:
            # the file copied from fails to deliver
            from . import faulty
            self.w.disk.fault_scope = src.name
            try:
                r = faulty.retry(self.w, faults, go, what)
            finally:
                self.w.disk.fault_scope = None
        else:
            r = go()
        c = aafsim.clone(mo) if same else self.transplant(src, mo)
        c.py = r
        for m in c.walk():
            m.new = True
        self.w.log("copy", src.name, self.name, mo.cls, size)
        self.w.probe("copies within a file" if same else "copies between files")
        self.w.probe("objects copied", size)
        if self.clsname(r) != c.cls:
            raise Violation("wrong-copy", "%s is a %s" % (what, self.clsname(r)))
        if r.root is not self.f or r is o:
            raise Violation("wrong-copy", "%s belongs to another file" % what)
        if k2 % 3 == 0:
            for m in c.walk():
                self.check(m, "copy")
        if k2 % 5 == 0:
            self.registered("after a copy")
        if rng.random() < .85 and self.place(c, rng):
            self.w.probe("copies placed")
            self.check(c, "placed copy")
        else:
            self.pool.append(c)
        if rng.random() < .3 and (src.attached(mo) or src.top(mo) in src.pool):
            src.check(mo, "source of a copy")

    def dict_update(self, src, rng):
        if self.mode == "r" or src is self:
            return False
        both = [k for k in sorted(src.dictionary().props.get("OperationDefinitions", [0, {}])[1])
                if k in self.dictionary().props.get("OperationDefinitions", [0, {}])[1]]
        if both and src.mode != "r" and rng.random() < .8:
            # an operation both have gets another parameter in one of them
            m = src.dictionary().props["OperationDefinitions"][1][rng.choice(both)]
            src.rng = rng
            k = src.need_def("ParameterDefinition", rng)
            p = [p for p in src.pdefs(m.cls) if p["name"] == "ParametersDefined"][0]
            f = src.T.pform(p)
            cur = list(m.props.get("ParametersDefined", [f, []])[1])
            if k not in cur:
                lib("parameters.append", src.prop(src.py(m), m, "ParametersDefined").append, src.target("ParameterDefinitions", k))
                m.props["ParametersDefined"] = [f, cur + [k]]
                self.w.probe("operation with a new parameter")
        lib("dictionary.update", self.f.dictionary.update, src.f.dictionary)
        self.registered("after an update")
        seen = set()
        for dp in DEF_SETS:
            theirs = src.dictionary().props.get(dp, ["S", {}])[1]
            for key in sorted(theirs):
                mine = self.dictionary().props.setdefault(dp, ["S", {}])[1]
                if key not in mine:
                    self.need_definition(src, dp, key, seen)
                elif dp == "OperationDefinitions":
                    f, new = theirs[key].props.get("ParametersDefined", ["X", []])
                    if not new:
                        continue
                    cur = mine[key].props.setdefault("ParametersDefined", [f, []])[1]
                    for k in new:
                        self.need_definition(src, "ParameterDefinitions", k, seen)
                        if k not in cur:
                            cur.append(k)
        self.w.probe("dictionary updates")


def key_of(auid):
    return akey(auid)
