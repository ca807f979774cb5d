"""Independent reader and auditor of the AAF object layer of a compound file.

Nothing here imports the code under test.
"""
import struct
import uuid

from . import aaftypes
from .aaftypes import SF, OPGROUP_PARAMETERS, Types, Undecodable, akey
from .refcfb import Bad

FORM = {v: k for k, v in SF.items()}
ROOT_CLASS = "b3b398a5-1c90-11d4-8053-080036210804"
ROOT_PROPS = [("Header", "0d010301-0102-0100-060e-2b3401010102", 2, "05022800-0000-0000-060e-2b3401040101"),
              ("MetaDictionary", "0d010301-0101-0100-060e-2b3401010102", 1, "05022700-0000-0000-060e-2b3401040101")]
KINDS = {"0204": "Int", "0205": "StrongRef", "0206": "WeakRef", "0207": "Enum", "0208": "FixedArray", "0209": "VarArray",
         "020a": "Set", "020b": "String", "020c": "Stream", "020d": "Record", "020e": "Rename", "0220": "ExtEnum",
         "0221": "Indirect", "0222": "Opaque", "0223": "Character"}
GENERIC_CHAR = "0e040101-0000-0000-060e-2b3402060101"
GENERIC_CHAR_SIZE = "0e040101-0101-0111-060e-2b3401010101"
PARAMETER_PID = 0x1B01


def ctext(b):
    return str(uuid.UUID(bytes_le=bytes(b)))


class Prop(object):
    __slots__ = ("pid", "form", "raw", "val", "keys", "info", "name", "auid", "type", "index", "key_pid", "key_size", "next_free")

    def __init__(self):
        self.name = self.auid = self.type = None
        self.info = None


class Obj(object):
    __slots__ = ("path", "clsid", "cls", "props", "node", "owner")

    def prop(self, name):
        for p in self.props.values():
            if p.name == name:
                return p
        return None

    def __repr__(self):
        return "<%s %s>" % (self.cls, self.path)


def u16s(b, what):
    if len(b) % 2:
        raise Bad("aaf-string", "%s has an odd length" % what)
    s = b.decode("utf-16le", "surrogatepass")
    return s.split("\0")[0]


class AAF(object):
    """Parses everything reachable from the root object."""

    def __init__(self, reader, builtin=None):
        """builtin: definitions that a file from other software may leave out"""
        self.r = reader
        self.builtin = builtin
        self.streams = {}
        self.reached = {}
        self.objs = []
        self._refprops()
        self.root = self._load()
        self._model()
        for o in self.objs:
            self._resolve(o)

    # -- raw layer
    def _refprops(self):
        e = self.r.root.children.get("referenced properties")
        if e is None or e.type != 2:
            raise Bad("aaf-refs", "no referenced properties stream")
        d = self.r.content(e)
        if len(d) < 7:
            raise Bad("aaf-refs", "short referenced properties stream")
        bo, paths, pids = struct.unpack_from("<BHI", d, 0)
        if bo != 0x4c:
            raise Bad("aaf-refs", "byte order %x" % bo)
        if len(d) != 7 + 2 * pids:
            raise Bad("aaf-refs", "%d pids in %d bytes" % (pids, len(d)))
        self.table = []
        cur = []
        for (p,) in struct.iter_unpack("<H", d[7:]):
            if p:
                cur.append(p)
            else:
                self.table.append(cur)
                cur = []
        if cur or len(self.table) != paths:
            raise Bad("aaf-refs", "%d paths announced, %d stored" % (paths, len(self.table)))
        for i, p in enumerate(self.table):
            if not p:
                raise Bad("aaf-refs", "empty path %d" % i)

    def _child(self, o, name, kind, what):
        e = (o.node.children or {}).get(name)
        if e is None:
            raise Bad("aaf-missing", "%s: %s %r does not exist" % (o.path, what, name))
        if e.type != kind:
            raise Bad("aaf-missing", "%s: %s %r has entry type %d" % (o.path, what, name, e.type))
        return e

    def _load(self):
        root = Obj()
        root.path, root.node, root.owner = "", self.r.root, None
        todo = [root]
        while todo:
            o = todo.pop()
            kids = self._load_one(o)
            todo.extend(reversed(kids))
        return root

    def _load_one(self, o):
        self.objs.append(o)
        o.clsid = ctext(o.node.clsid)
        o.cls = None
        o.props = {}
        kids = []
        e = (o.node.children or {}).get("properties")
        if e is None:
            raise Bad("aaf-missing", "%s: no properties stream" % o.path)
        if e.type != 2:
            raise Bad("aaf-missing", "%s: properties is not a stream" % o.path)
        self.reached[o.path + "/properties"] = "properties"
        d = self.r.content(e)
        if len(d) < 4:
            raise Bad("aaf-properties", "%s: %d bytes" % (o.path, len(d)))
        bo, ver, n = struct.unpack_from("<BBH", d, 0)
        if bo != 0x4c or ver != 32:
            raise Bad("aaf-properties", "%s: byte order %x version %d" % (o.path, bo, ver))
        pos = 4 + 6 * n
        if len(d) < pos:
            raise Bad("aaf-properties", "%s: %d entries in %d bytes" % (o.path, n, len(d)))
        for i in range(n):
            pid, fmt, size = struct.unpack_from("<HHH", d, 4 + 6 * i)
            p = Prop()
            p.pid = pid
            p.form = FORM.get(fmt)
            if p.form is None:
                raise Bad("aaf-properties", "%s: pid %04x has storage form %x" % (o.path, pid, fmt))
            p.raw = d[pos:pos + size]
            if len(p.raw) != size:
                raise Bad("aaf-properties", "%s: pid %04x runs past the end" % (o.path, pid))
            pos += size
            if pid in o.props:
                raise Bad("aaf-duplicate-pid", "%s: pid %04x stored twice" % (o.path, pid))
            o.props[pid] = p
            kids += self._load_prop(o, p)
        if pos != len(d):
            raise Bad("aaf-properties", "%s: %d bytes after the last property" % (o.path, len(d) - pos))
        return kids

    def _own(self, o, name, what):
        e = self._child(o, name, 1, what)
        path = o.path + "/" + name
        if path in self.reached:
            raise Bad("aaf-owned-twice", "%s owned by %s and %s" % (path, self.reached[path], what))
        self.reached[path] = what
        k = Obj()
        k.path, k.node, k.owner = path, e, o
        return k

    def _istream(self, o, name, what):
        e = self._child(o, name, 2, what)
        path = o.path + "/" + name
        if path in self.reached:
            raise Bad("aaf-owned-twice", "%s used by %s and %s" % (path, self.reached[path], what))
        self.reached[path] = what
        return self.r.content(e), e

    def _load_prop(self, o, p):
        what = "%s pid %04x" % (o.path, p.pid)
        f = p.form
        p.val = None
        p.keys = None
        if f == "data":
            return []
        if f == "stream":
            if p.raw[:1] != b"\x55":
                raise Bad("aaf-properties", "%s: stream byte order %r" % (what, p.raw[:1]))
            d, e = self._istream(o, u16s(p.raw[1:], what), what)
            p.val = d
            return []
        if f == "s":
            k = self._own(o, u16s(p.raw, what), what)
            p.val = k
            return [k]
        if f == "V":
            name = u16s(p.raw, what)
            d, _ = self._istream(o, name + " index", what)
            if len(d) < 12:
                raise Bad("aaf-index", "%s: short index" % what)
            n, nf, lf = struct.unpack_from("<III", d, 0)
            if len(d) != 12 + 4 * n:
                raise Bad("aaf-index", "%s: %d keys in %d bytes" % (what, n, len(d)))
            keys = list(struct.unpack_from("<%dI" % n, d, 12))
            self._keys(what, keys, nf, lf)
            p.val = [self._own(o, "%s{%x}" % (name, x), what) for x in keys]
            p.next_free = nf
            return list(p.val)
        if f == "S":
            name = u16s(p.raw, what)
            d, _ = self._istream(o, name + " index", what)
            if len(d) < 15:
                raise Bad("aaf-index", "%s: short index" % what)
            n, nf, lf, p.key_pid, p.key_size = struct.unpack_from("<IIIHB", d, 0)
            if p.key_size not in (16, 32) or len(d) != 15 + n * (8 + p.key_size):
                raise Bad("aaf-index", "%s: %d keys of %d in %d bytes" % (what, n, p.key_size, len(d)))
            keys = []
            p.val = {}
            for i in range(n):
                q = 15 + i * (8 + p.key_size)
                lk, rc = struct.unpack_from("<II", d, q)
                key = d[q + 8:q + 8 + p.key_size]
                if rc != 1:
                    raise Bad("aaf-index", "%s: reference count %d" % (what, rc))
                key = ("A:" if p.key_size == 16 else "M:") + key.hex()
                if key in p.val:
                    raise Bad("aaf-index", "%s: key %s twice" % (what, key))
                keys.append(lk)
                p.val[key] = self._own(o, "%s{%x}" % (name, lk), what)
            self._keys(what, keys, nf, lf)
            p.next_free = nf
            return list(p.val.values())
        if f == "w":
            if len(p.raw) < 5:
                raise Bad("aaf-weakref", "%s: short" % what)
            p.index, p.key_pid, p.key_size = struct.unpack_from("<HHB", p.raw, 0)
            if p.key_size not in (16, 32) or len(p.raw) != 5 + p.key_size:
                raise Bad("aaf-weakref", "%s: key size %d in %d bytes" % (what, p.key_size, len(p.raw)))
            p.val = ("A:" if p.key_size == 16 else "M:") + p.raw[5:].hex()
            return []
        d, _ = self._istream(o, u16s(p.raw, what) + " index", what)
        if len(d) < 9:
            raise Bad("aaf-index", "%s: short index" % what)
        n, p.index, p.key_pid, p.key_size = struct.unpack_from("<IHHB", d, 0)
        if p.key_size not in (16, 32) or len(d) != 9 + n * p.key_size:
            raise Bad("aaf-index", "%s: %d keys of %d in %d bytes" % (what, n, p.key_size, len(d)))
        c = "A:" if p.key_size == 16 else "M:"
        p.val = [c + d[9 + i * p.key_size:9 + (i + 1) * p.key_size].hex() for i in range(n)]
        if f == "X" and len(set(p.val)) != len(p.val):
            raise Bad("aaf-index", "%s: a weak reference set names a key twice" % what)
        return []

    def _keys(self, what, keys, nf, lf):
        if len(set(keys)) != len(keys):
            raise Bad("aaf-index", "%s: local key used twice" % what)
        if keys and max(keys) >= nf:
            raise Bad("aaf-index", "%s: next free key %d, but key %d is in use" % (what, nf, max(keys)))
        if lf != 0xFFFFFFFF:
            raise Bad("aaf-index", "%s: last free key %x" % (what, lf))

    # -- model layer
    def _model(self):
        rp = self.root.props
        if self.root.clsid != ROOT_CLASS:
            raise Bad("aaf-root", "root class is %s" % self.root.clsid)
        if 1 not in rp or rp[1].form != "s" or 2 not in rp or rp[2].form != "s":
            raise Bad("aaf-root", "root lacks the header or the meta dictionary")
        md = rp[1].val
        for pid in (3, 4):
            if pid not in md.props or md.props[pid].form != "S":
                raise Bad("aaf-metadict", "no definition set %d" % pid)

        def raw(o, pid):
            if pid not in o.props:
                raise Bad("aaf-metadict", "%s: no property %04x" % (o.path, pid))
            return o.props[pid].raw

        def a(o, pid):
            b = raw(o, pid)
            if len(b) != 16:
                raise Bad("aaf-metadict", "%s: property %04x is no AUID" % (o.path, pid))
            return ctext(b)

        def flag(o, pid):
            b = raw(o, pid)
            if b not in (b"\0", b"\1"):
                raise Bad("aaf-metadict", "%s: property %04x is no boolean" % (o.path, pid))
            return b == b"\1"

        def weak(o, pid):
            p = o.props.get(pid)
            if p is None or p.form != "w" or p.key_size != 16:
                raise Bad("aaf-metadict", "%s: property %04x is no weak reference" % (o.path, pid))
            return aaftypes.atext(p.val)

        classes = {}
        names = {}
        self.classname = {}
        for key, c in md.props[3].val.items():
            auid = aaftypes.atext(key)
            name = u16s(raw(c, 6), "class name")
            if a(c, 5) != auid:
                raise Bad("aaf-metadict", "class %s is filed under %s" % (a(c, 5), auid))
            if name in classes:
                raise Bad("aaf-metadict", "two classes named %s" % name)
            names[auid] = name
            d = classes[name] = {"auid": auid, "parent": weak(c, 8), "concrete": flag(c, 0xA), "props": []}
            if 9 in c.props:
                for k, p in c.props[9].val.items():
                    opt = flag(p, 0xC)
                    uni = flag(p, 0xE) if 0xE in p.props else False
                    pid = raw(p, 0xD)
                    if len(pid) != 2 or a(p, 5) != aaftypes.atext(k):
                        raise Bad("aaf-metadict", "%s: inconsistent property definition" % p.path)
                    d["props"].append({"name": u16s(raw(p, 6), "property name"), "auid": a(p, 5), "pid": struct.unpack("<H", pid)[0],
                                       "type": a(p, 0xB), "optional": opt, "unique": uni})
        for name, d in classes.items():
            par = d["parent"]
            if par not in names:
                raise Bad("aaf-metadict", "class %s: parent %s is not defined" % (name, par))
            d["parent"] = None if par == d["auid"] else names[par]
        classes["Root"] = {"auid": ROOT_CLASS, "parent": None, "concrete": True,
                           "props": [{"name": n, "auid": au, "pid": pid, "type": t, "optional": False, "unique": False}
                                     for n, au, pid, t in ROOT_PROPS]}
        names[ROOT_CLASS] = "Root"
        if self.builtin is not None:
            for k, c in self.builtin.classes.items():
                if k not in classes and c["auid"] not in names:
                    classes[k] = dict(c, props=[dict(p, pid=(1000 + len(classes)) * 1000 + i if (p["pid"] or 0x8000) >= 0x8000 else p["pid"])
                                                for i, p in enumerate(c["props"])])
                    names[c["auid"]] = k
        self.names = names
        for name in classes:
            seen = set()
            c = name
            while c is not None:
                if c in seen:
                    raise Bad("aaf-metadict", "class %s is its own ancestor" % name)
                seen.add(c)
                c = classes[c]["parent"]
        types = {"05022800-0000-0000-060e-2b3401040101": {"name": "HeaderStrongRefence", "kind": "StrongRef", "cls": "Header"},
                 "05022700-0000-0000-060e-2b3401040101": {"name": "MetaDictionaryStrongReference", "kind": "StrongRef",
                                                          "cls": "MetaDictionary"}}
        tnames = {}
        gsize = [p["pid"] for p in (classes[names[GENERIC_CHAR]]["props"] if GENERIC_CHAR in names else [])
                 if p["auid"] == GENERIC_CHAR_SIZE]

        def strs(b):
            try:
                return Types({}, {})._strings(b)
            except Undecodable as e:
                raise Bad("aaf-metadict", str(e))

        def auids(b):
            if len(b) % 16:
                raise Bad("aaf-metadict", "AUID array of %d bytes" % len(b))
            return [ctext(b[i:i + 16]) for i in range(0, len(b), 16)]

        for key, t in md.props[4].val.items():
            auid = aaftypes.atext(key)
            name = u16s(raw(t, 6), "type name")
            if a(t, 5) != auid:
                raise Bad("aaf-metadict", "type %s is filed under %s" % (a(t, 5), auid))
            if name in tnames and auid != tnames[name]:
                raise Bad("aaf-metadict", "two types named %s" % name)
            tnames[name] = auid
            n = {"name": name}
            if t.clsid == GENERIC_CHAR:
                k = n["kind"] = "GenericCharacter"
                if not gsize or gsize[0] not in t.props:
                    raise Bad("aaf-metadict", "type %s: no size under pid %r" % (name, gsize))
                n["size"] = raw(t, gsize[0])[0]
            else:
                if not t.clsid.startswith("0d010101-") or t.clsid[9:13] not in KINDS:
                    raise Bad("aaf-metadict", "type %s has class %s" % (name, t.clsid))
                k = n["kind"] = KINDS[t.clsid[9:13]]
            if k == "Int":
                n.update(size=raw(t, 0xF)[0], signed=flag(t, 0x10))
                if n["size"] not in (1, 2, 4, 8):
                    raise Bad("aaf-metadict", "type %s: size %d" % (name, n["size"]))
            elif k in ("StrongRef", "WeakRef"):
                ca = weak(t, 0x11 if k == "StrongRef" else 0x12)
                if ca not in names:
                    raise Bad("aaf-metadict", "type %s: class %s is not defined" % (name, ca))
                n["cls"] = names[ca]
                if k == "WeakRef":
                    n["path"] = auids(raw(t, 0x13))
            elif k == "Enum":
                v = raw(t, 0x16)
                nm = strs(raw(t, 0x15))
                if len(v) != 8 * len(nm):
                    raise Bad("aaf-metadict", "type %s: %d names, %d bytes of values" % (name, len(nm), len(v)))
                n.update(elem=weak(t, 0x14), values=sorted([x, y] for x, y in zip(struct.unpack("<%dq" % len(nm), v), nm)))
            elif k == "ExtEnum":
                v = auids(raw(t, 0x20))
                nm = strs(raw(t, 0x1F))
                if len(v) != len(nm):
                    raise Bad("aaf-metadict", "type %s: %d names, %d values" % (name, len(nm), len(v)))
                n.update(values=sorted([x, y] for x, y in zip(v, nm)))
            elif k == "FixedArray":
                n.update(elem=weak(t, 0x17), count=struct.unpack("<I", raw(t, 0x18))[0])
            elif k in ("VarArray", "Set", "String", "Rename"):
                n.update(elem=weak(t, {"VarArray": 0x19, "Set": 0x1A, "String": 0x1B, "Rename": 0x1E}[k]))
            elif k == "Record":
                nm = strs(raw(t, 0x1D))
                if 0x1C not in t.props or t.props[0x1C].form != "W" or len(t.props[0x1C].val) != len(nm):
                    raise Bad("aaf-metadict", "type %s: %d member names" % (name, len(nm)))
                n.update(fields=[[x, aaftypes.atext(y)] for x, y in zip(nm, t.props[0x1C].val)])
            types[auid] = n
        if self.builtin is not None:
            for k, t in self.builtin.types.items():
                types.setdefault(k, t)
        for auid, n in types.items():
            for x in [n["elem"]] if "elem" in n else [f[1] for f in n.get("fields", ())]:
                if x not in types:
                    raise Bad("aaf-metadict", "type %s: %s is not defined" % (n["name"], x))
        self.types = Types(types, classes)
        for name, d in classes.items():
            pids = {}
            auids_ = {}
            for p in self.types.props(name):
                if p["type"] not in types:
                    raise Bad("aaf-metadict", "property %s.%s: type %s is not defined" % (name, p["name"], p["type"]))
                if p["pid"] in pids:
                    raise Bad("aaf-pid-clash", "class %s: %s and %s share pid %04x" % (name, pids[p["pid"]], p["name"], p["pid"]))
                if p["auid"] in auids_:
                    raise Bad("aaf-metadict", "class %s defines %s twice" % (name, p["name"]))
                pids[p["pid"]] = p["name"]
                auids_[p["auid"]] = 1
        # dynamic pids are unique in the file
        dyn = {}
        for name, d in classes.items():
            for p in d["props"]:
                if 0x8000 <= p["pid"] <= 0xFFFF:
                    if p["pid"] in dyn:
                        raise Bad("aaf-pid-clash", "%s and %s.%s share pid %04x" % (dyn[p["pid"]], name, p["name"], p["pid"]))
                    dyn[p["pid"]] = "%s.%s" % (name, p["name"])

    def _resolve(self, o):
        o.cls = self.names.get(o.clsid)
        if o.cls is None:
            raise Bad("aaf-class", "%s: class %s is not defined" % (o.path, o.clsid))
        defs = self._bypid(o.cls)
        for pid, p in o.props.items():
            d = defs.get(pid)
            if d is None:
                raise Bad("aaf-undefined-property", "%s (%s): pid %04x is not defined" % (o.path, o.cls, pid))
            p.name, p.auid, p.type = d["name"], d["auid"], d["type"]
            if p.auid == "06010103-0200-0000-060e-2b3401010102":
                pass
            if p.form == "data":
                if p.val is None:
                    try:
                        p.val = self.types.dec(p.type, p.raw)
                    except Undecodable as e:
                        p.info = str(e)

    def _bypid(self, cls):
        c = getattr(self, "_bp", None)
        if c is None:
            c = self._bp = {}
        if cls not in c:
            d = {}
            for p in self.types.props(cls):
                d.setdefault(p["pid"], p)
            c[cls] = d
        return c[cls]

    # -- audit
    def audit(self, frozen=None, ext=True, tmp=True, undecodable=()):
        T = self.types
        for o in self.objs:
            if not T.classes[o.cls]["concrete"] and o.cls not in ("Root",):
                raise Bad("aaf-class", "%s: %s is abstract" % (o.path, o.cls))
            for p in o.props.values():
                want = T.pform({"auid": p.auid, "type": p.type})
                if p.form != want:
                    raise Bad("aaf-form", "%s.%s: stored as %s, defined as %s" % (o.path, p.name, p.form, want))
                what = "%s.%s" % (o.path, p.name)
                if p.form == "data" and p.val is None:
                    raise Bad("aaf-value", "%s: %s" % (what, p.info))
                if p.form in "sVS":
                    base = T.ref_class(p.type)
                    vals = [p.val] if p.form == "s" else p.val if p.form == "V" else list(p.val.values())
                    for v in vals:
                        if not T.isinstance(v.cls, base):
                            raise Bad("aaf-reftype", "%s holds a %s, not a %s" % (what, v.cls, base))
                    if p.form == "S":
                        kp = self.key_pid(base)
                        if p.key_pid != kp:
                            raise Bad("aaf-index", "%s: key pid %04x, must be %04x" % (what, p.key_pid, kp))
                        for k, v in p.val.items():
                            q = v.props.get(p.key_pid) if base != "Parameter" else v.prop("Definition")
                            if q is None or k[2:] != q.raw.hex():
                                raise Bad("aaf-index", "%s: key %s, but the object says %s" % (what, k, q and q.raw.hex()))
                if p.form in "wWX" and p.form != "data":
                    self._weak(what, p)
            for d in T.props(o.cls):
                if not d["optional"] and d["name"] != "ObjClass" and d["pid"] not in o.props:
                    raise Bad("aaf-required", "%s (%s): required %s is missing" % (o.path, o.cls, d["name"]))
        if tmp and "tmp" in self.r.root.children:
            raise Bad("aaf-tmp", "temporary storage left in the file")
        if frozen is not None:
            self.cover(frozen, ext)

    def key_pid(self, base):
        for d in self.types.props(base):
            if d["unique"]:
                return d["pid"]
        if self.types.isinstance(base, "Parameter"):
            return PARAMETER_PID
        return None

    def target(self, p):
        """set property a weak reference path names"""
        if p.index >= len(self.table):
            raise Bad("aaf-weakref", "path %d of %d" % (p.index, len(self.table)))
        o = self.root
        path = self.table[p.index]
        for pid in path[:-1]:
            q = o.props.get(pid)
            if q is None or q.form != "s":
                raise Bad("aaf-weakref", "path %s does not resolve" % path)
            o = q.val
        q = o.props.get(path[-1])
        if q is None or q.form != "S":
            raise Bad("aaf-weakref", "path %s names no set" % path)
        return q

    def _weak(self, what, p):
        if p.form != "w" and not p.val:
            return
        try:
            q = self.target(p)
        except Bad as e:
            raise Bad(e.cls, "%s: %s" % (what, e.detail))
        keys = [p.val] if p.form == "w" else p.val
        if (p.key_pid, p.key_size) != (q.key_pid, q.key_size):
            raise Bad("aaf-weakref", "%s: key %04x/%d, the target uses %04x/%d" % (what, p.key_pid, p.key_size, q.key_pid, q.key_size))
        want = self.types.weak_path(p.type)
        got = self._auidpath(self.table[p.index])
        if want != got:
            raise Bad("aaf-weakref", "%s: path is %s, the type says %s" % (what, got, want))
        for k in keys:
            if k not in q.val:
                # references into the built-in model (Root) are not stored
                raise Bad("aaf-weakref", "%s: %s does not exist in its target set" % (what, k))

    def _auidpath(self, pids):
        o = self.root
        out = []
        for pid in pids:
            q = o.props[pid]
            out.append(q.auid)
            o = q.val
        return out

    def cover(self, frozen, ext):
        """the stored definitions contain the built-in ones, unchanged"""
        for name, c in frozen.classes.items():
            if name == "Root" or (c.get("ext") and not ext):
                continue
            m = self.types.classes.get(name)
            if m is None:
                raise Bad("aaf-model", "class %s is not stored" % name)
            if (m["auid"], m["parent"], m["concrete"]) != (c["auid"], c["parent"], c["concrete"]):
                raise Bad("aaf-model", "class %s is stored as %s" % (name, {k: m[k] for k in ("auid", "parent", "concrete")}))
            have = {p["auid"]: p for p in m["props"]}
            for p in c["props"]:
                if p.get("ext") and not ext:
                    continue
                q = have.get(p["auid"])
                if q is None:
                    raise Bad("aaf-model", "property %s.%s is not stored" % (name, p["name"]))
                if p["pid"] is not None and p["pid"] < 0x8000 and q["pid"] != p["pid"] or \
                        any(q[k] != p[k] for k in ("name", "type", "optional", "unique")):
                    raise Bad("aaf-model", "property %s.%s is stored as %s" % (name, p["name"], q))
        for auid, t in frozen.types.items():
            if t.get("ext") and not ext or auid in ("05022800-0000-0000-060e-2b3401040101", "05022700-0000-0000-060e-2b3401040101"):
                continue
            q = self.types.types.get(auid)
            if q is None:
                raise Bad("aaf-model", "type %s is not stored" % t["name"])
            for k in ("kind", "name", "size", "signed", "elem", "fields", "count", "cls", "path"):
                if k in t and t[k] != q.get(k):
                    raise Bad("aaf-model", "type %s: %s is stored as %r" % (t["name"], k, q.get(k)))
            if "values" in t:
                have = {str(x[0]): x[1] for x in q["values"]}
                for v, nm in (t["values"] if ext or "base_values" not in t else t["base_values"]):
                    if have.get(str(v)) != nm:
                        raise Bad("aaf-model", "type %s: element %s is stored as %r" % (t["name"], nm, have.get(str(v))))
