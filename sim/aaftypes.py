"""Independent AAF type codecs and the frozen class/type model (sim/model.json).

A value is held in normal form: int, bool, str, dict (record), list (array), and tagged lists
["R", num, den], ["T", y, m, d, H, M, S, f], ["D", y, m, d], ["t", H, M, S, f], ["S", [..sorted]],
["I", type auid, value], strings "A:<hex>" for AUIDs and "M:<hex>" for mob ids (byte order as stored).
"""
import datetime
import json
import os
import struct
import uuid

BOOL = "01040100-0000-0000-060e-2b3401040101"
T_AUID = "01030100-0000-0000-060e-2b3401040101"
T_MOBID = "01030200-0000-0000-060e-2b3401040101"
T_TIME = "03010600-0000-0000-060e-2b3401040101"
T_DATE = "03010500-0000-0000-060e-2b3401040101"
T_STAMP = "03010700-0000-0000-060e-2b3401040101"
T_RAT = "03010100-0000-0000-060e-2b3401040101"
T_CHAR = "01100100-0000-0000-060e-2b3401040101"
T_STRING = "01100200-0000-0000-060e-2b3401040101"
T_INT32 = "01010700-0000-0000-060e-2b3401040101"

SF = {"data": 0x82, "stream": 0x42, "s": 0x22, "V": 0x32, "S": 0x3A, "w": 0x02, "W": 0x12, "X": 0x1A}
OPGROUP_PARAMETERS = "06010104-060a-0000-060e-2b3401010102"


class Undecodable(Exception):
    pass


def akey(auid_text):
    """'A:<hex of stored bytes>' of an AUID given as text."""
    return "A:" + uuid.UUID(str(auid_text)).bytes_le.hex()


def atext(key):
    return str(uuid.UUID(bytes_le=bytes.fromhex(key[2:])))


class Types(object):
    def __init__(self, types, classes):
        self.types = types
        self.classes = classes

    def kind(self, t):
        return self.types[t]["kind"]

    def form(self, t):
        """storage form letter of a property of type t"""
        n = self.types[t]
        k = n["kind"]
        if k == "StrongRef":
            return "s"
        if k == "WeakRef":
            return "w"
        if k == "Stream":
            return "stream"
        if k == "Rename":
            return "data"
        if k == "VarArray":
            return {"s": "V", "w": "W"}.get(self.form(n["elem"]), "data")
        if k == "Set":
            return {"s": "S", "w": "X"}.get(self.form(n["elem"]), "data")
        return "data"

    def ref_class(self, t):
        n = self.types[t]
        if n["kind"] in ("StrongRef", "WeakRef"):
            return n["cls"]
        return self.ref_class(n["elem"])

    def weak_path(self, t):
        n = self.types[t]
        if n["kind"] == "WeakRef":
            return n["path"]
        return self.weak_path(n["elem"])

    def chain(self, cls):
        while cls is not None:
            yield cls
            cls = self.classes[cls]["parent"]

    def isinstance(self, cls, base):
        return base in self.chain(cls)

    def props(self, cls):
        for c in self.chain(cls):
            for p in self.classes[c]["props"]:
                yield p

    def pform(self, p):
        if p["auid"] == OPGROUP_PARAMETERS:
            return "S"
        return self.form(p["type"])

    def size(self, t):
        n = self.types[t]
        k = n["kind"]
        if k == "Int":
            return n["size"]
        if k == "Enum":
            return 1 if t == BOOL else self.size(n["elem"])
        if k == "Record":
            return sum(self.size(x) for _, x in n["fields"])
        if k == "FixedArray":
            return n["count"] * self.size(n["elem"])
        if k == "Rename":
            return self.size(n["elem"])
        if k == "ExtEnum":
            return 16
        if k == "Character":
            return 2
        if k == "GenericCharacter":
            return n["size"]
        raise Undecodable("type %s has no fixed size" % n["name"])

    # ------------------------------------------------------------ bytes -> norm
    def dec(self, t, b):
        n = self.types.get(t)
        if n is None:
            raise Undecodable("type %s is not defined" % t)
        k = n["kind"]
        if k == "Int":
            if len(b) != n["size"]:
                raise Undecodable("%s stored in %d bytes" % (n["name"], len(b)))
            return int.from_bytes(b, "little", signed=n["signed"])
        if k == "Enum":
            if t == BOOL:
                if b not in (b"\0", b"\1"):
                    raise Undecodable("boolean stored as %r" % b)
                return b == b"\1"
            v = self.dec(n["elem"], b)
            for val, name in n["values"]:
                if val == v:
                    return name
            raise Undecodable("%d is no %s" % (v, n["name"]))
        if k == "ExtEnum":
            if len(b) != 16:
                raise Undecodable("%s stored in %d bytes" % (n["name"], len(b)))
            a = str(uuid.UUID(bytes_le=b))
            for val, name in n["values"]:
                if val == a:
                    return name
            return "A:" + b.hex()
        if k == "Record":
            if t == T_AUID or t == T_MOBID:
                if len(b) != (16 if t == T_AUID else 32):
                    raise Undecodable("identifier stored in %d bytes" % len(b))
                return ("A:" if t == T_AUID else "M:") + b.hex()
            out = {}
            p = 0
            for name, ft in n["fields"]:
                s = self.size(ft)
                out[name] = self.dec(ft, b[p:p + s])
                p += s
            if p != len(b):
                raise Undecodable("%s stored in %d bytes" % (n["name"], len(b)))
            if t == T_RAT:
                return ["R", out["Numerator"], out["Denominator"]]
            if t == T_DATE:
                return ["D", out["year"], out["month"], out["day"]]
            if t == T_TIME:
                return ["t", out["hour"], out["minute"], out["second"], out["fraction"]]
            if t == T_STAMP:
                return ["T"] + out["date"][1:] + out["time"][1:]
            return out
        if k in ("FixedArray", "VarArray", "Set"):
            if k == "VarArray" and self.types[n["elem"]]["kind"] == "Character":
                return self._strings(b)
            s = self.size(n["elem"])
            if len(b) % s or (k == "FixedArray" and len(b) != s * n["count"]):
                raise Undecodable("%s stored in %d bytes" % (n["name"], len(b)))
            out = [self.dec(n["elem"], b[i:i + s]) for i in range(0, len(b), s)]
            if k == "Set":
                u = sorted(out, key=repr)
                for i in range(1, len(u)):
                    if u[i] == u[i - 1]:
                        raise Undecodable("%s stores an element twice" % n["name"])
                return ["S", u]
            return out
        if k == "String":
            if len(b) % 2 or b[-2:] != b"\0\0":
                raise Undecodable("string not terminated")
            return b[:-2].decode("utf-16le").split("\0")[0]
        if k == "Rename":
            return self.dec(n["elem"], b)
        if k in ("Indirect", "Opaque"):
            if b[:1] != b"\x4c":
                raise Undecodable("indirect byte order %r" % b[:1])
            it = str(uuid.UUID(bytes_le=b[1:17]))
            return ["I", it, self.dec(it, b[17:])]
        raise Undecodable("cannot decode %s" % n["name"])

    def _strings(self, b):
        if len(b) % 2 or (b and b[-2:] != b"\0\0"):
            raise Undecodable("string array not terminated")
        out = []
        s = 0
        for i in range(0, len(b), 2):
            if b[i:i + 2] == b"\0\0":
                out.append(b[s:i].decode("utf-16le"))
                s = i + 2
        return out

    # ------------------------------------------------------------ generator
    STR = ["", "a", "name", "Clip 01", "\u00e9t\u00e9", "\u65e5\u672c\u8a9e", "\U0001f3ac reel", "x" * 63, "tab\tnl\n", "v" * 300]

    def supported(self, t, seen=()):
        n = self.types[t]
        k = n["kind"]
        if k in ("Character", "GenericCharacter", "Stream", "StrongRef", "WeakRef"):
            return False
        if k == "VarArray" and self.types[n["elem"]]["kind"] == "Character":
            return True
        if k in ("FixedArray", "VarArray", "Set", "Rename"):
            return self.supported(n["elem"])
        if k == "Record":
            return all(self.supported(x) for _, x in n["fields"])
        return True

    def gen(self, rng, t, depth=0):
        n = self.types[t]
        k = n["kind"]
        if k == "Int":
            bits = n["size"] * 8
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if n["signed"] else (0, (1 << bits) - 1)
            r = rng.random()
            if r < .2:
                return rng.choice([lo, hi, 0, hi - 1, min(hi, 255), min(hi, 256)])
            if r < .8:
                return rng.randrange(0, min(hi, 5000) + 1)
            return rng.randrange(lo, hi + 1)
        if k == "Enum":
            if t == BOOL:
                return rng.random() < .5
            return rng.choice(n["values"])[1]
        if k == "ExtEnum":
            return rng.choice(n["values"])[1]
        if k == "Record":
            if t == T_AUID:
                return "A:" + rng.randbytes(16).hex()
            if t == T_MOBID:
                return gen_mobid(rng)
            if t == T_RAT:
                num = rng.choice([0, 1, -1, 24, 25, 30000, 60000, 2 ** 31 - 1, -2 ** 31, rng.randrange(-9999, 99999)])
                den = rng.choice([1, 1, 1, 2, 1001, 2 ** 31 - 1, rng.randrange(1, 9999)])
                return ["R", num, den]
            if t == T_DATE:
                return ["D", rng.choice([1, 1900, 2024, 9999, rng.randrange(1, 10000)]), rng.randrange(1, 13), rng.randrange(1, 29)]
            if t == T_TIME:
                return ["t", rng.randrange(24), rng.randrange(60), rng.randrange(60), 0]
            if t == T_STAMP:
                return ["T"] + self.gen(rng, T_DATE)[1:] + self.gen(rng, T_TIME)[1:]
            return {name: self.gen(rng, ft, depth + 1) for name, ft in n["fields"]}
        if k == "FixedArray":
            return [self.gen(rng, n["elem"], depth + 1) for _ in range(n["count"])]
        if k == "VarArray":
            c = rng.choice([0, 1, 2, 2, 3, 5, 8, 60 if depth == 0 else 1])
            if self.types[n["elem"]]["kind"] == "Character":
                return [rng.choice(self.STR) for _ in range(min(c, 8))]
            return [self.gen(rng, n["elem"], depth + 1) for _ in range(c)]
        if k == "Set":
            out = []
            for _ in range(rng.choice([0, 1, 2, 3, 7])):
                v = self.gen(rng, n["elem"], depth + 1)
                if v not in out:
                    out.append(v)
            return ["S", sorted(out, key=repr)]
        if k == "String":
            r = rng.random()
            if r < .5:
                return rng.choice(self.STR)
            if r < .97:
                return "s%x" % rng.getrandbits(rng.choice([8, 32, 200]))
            return "L" * rng.choice([2000, 2040, 16000])
        if k == "Rename":
            return self.gen(rng, n["elem"], depth)
        if k == "Indirect":
            it = rng.choice([T_STRING, T_STRING, T_INT32, T_RAT])
            return ["I", it, self.gen(rng, it, depth + 1)]
        if k == "Opaque":
            it = rng.choice([T_STRING, T_INT32, T_RAT])
            return ["I", it, self.gen(rng, it, depth + 1)]
        raise ValueError("cannot generate %s" % n["name"])

    # ------------------------------------------------------------ norm -> value given to the library
    def tolib(self, t, v, lib, rng=None):
        """lib: namespace with AUID, MobID, AAFRational"""
        n = self.types[t]
        k = n["kind"]
        if k == "Record":
            if t == T_AUID:
                return lib.AUID(bytes_le=bytes.fromhex(v[2:]))
            if t == T_MOBID:
                return lib.MobID(bytes_le=bytes.fromhex(v[2:]))
            if t == T_RAT:
                if rng is not None and v[2] == 1 and rng.random() < .3:
                    return v[1]
                if rng is not None and v[1] >= 0 and rng.random() < .3:
                    return "%d/%d" % (v[1], v[2])
                return lib.AAFRational(v[1], v[2])
            if t == T_DATE:
                return datetime.date(*v[1:])
            if t == T_TIME:
                return datetime.time(*v[1:4])
            if t == T_STAMP:
                return datetime.datetime(*v[1:7])
            return {name: self.tolib(ft, v[name], lib, rng) for name, ft in n["fields"]}
        if k in ("FixedArray", "VarArray"):
            if self.types[n["elem"]]["kind"] == "Character":
                return list(v)
            return [self.tolib(n["elem"], x, lib, rng) for x in v]
        if k == "Set":
            out = [self.tolib(n["elem"], x, lib, rng) for x in v[1]]
            if rng is not None and rng.random() < .4:
                return out
            try:
                return set(out)
            except TypeError:
                return out
        if k == "Rename":
            return self.tolib(n["elem"], v, lib, rng)
        if k in ("Indirect", "Opaque"):
            return self.tolib(v[1], v[2], lib, None)
        if k == "ExtEnum" and v.startswith("A:"):
            return lib.AUID(bytes_le=bytes.fromhex(v[2:]))
        return v

    # ------------------------------------------------------------ value returned by the library -> norm
    def fromlib(self, t, x, given=None):
        """None where the value has an unexpected shape. given: normal form used only to learn the
        type inside an indirect value."""
        n = self.types[t]
        k = n["kind"]
        try:
            if k == "Record":
                if t == T_AUID:
                    return "A:" + bytes(x.bytes_le).hex()
                if t == T_MOBID:
                    return "M:" + bytes(x.bytes_le).hex()
                if t == T_RAT:
                    return ["R", x.numerator, x.denominator]
                if t == T_DATE:
                    return ["D", x.year, x.month, x.day]
                if t == T_TIME:
                    return ["t", x.hour, x.minute, x.second, x.microsecond]
                if t == T_STAMP:
                    return ["T", x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond]
                if sorted(x) != sorted(name for name, _ in n["fields"]):
                    return None
                return {name: self.fromlib(ft, x[name]) for name, ft in n["fields"]}
            if k in ("FixedArray", "VarArray"):
                if not isinstance(x, (list, tuple)):
                    return None
                if self.types[n["elem"]]["kind"] == "Character":
                    return list(x)
                return [self.fromlib(n["elem"], e) for e in x]
            if k == "Set":
                if not isinstance(x, (set, frozenset, list)):
                    return None
                return ["S", sorted((self.fromlib(n["elem"], e) for e in x), key=repr)]
            if k == "Rename":
                return self.fromlib(n["elem"], x)
            if k in ("Indirect", "Opaque"):
                if given is None:
                    return None
                return ["I", given[1], self.fromlib(given[1], x)]
            if k == "ExtEnum" and not isinstance(x, str):
                return "A:" + bytes(x.bytes_le).hex()
            if k == "Int":
                return int(x) if isinstance(x, int) and not isinstance(x, bool) else None
            if t == BOOL:
                return x if isinstance(x, bool) else None
            return x if isinstance(x, str) else None
        except Exception:
            return None


def gen_mobid(rng):
    if rng.random() < .8:
        b = bytes.fromhex("060a2b340101010501010f10") + b"\x13\0\0\0" + rng.randbytes(16)
    else:
        b = rng.randbytes(32)
    return "M:" + b.hex()


_model = {}


def frozen(ext=True):
    """The frozen model, with or without the bundled extensions."""
    if ext not in _model:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "model.json")) as f:
            d = json.load(f)
        types, classes = d["types"], d["classes"]
        for t in types.values():
            t["base_values"] = t.get("values")
            if "ext_values" in t and ext:
                t["values"] = t["ext_values"]
        if not ext:
            types = {k: t for k, t in types.items() if not t["ext"]}
            classes = {k: c for k, c in classes.items() if not c["ext"]}
            for c in classes.values():
                c["props"] = [p for p in c["props"] if not p["ext"]]
        _model[ext] = Types(types, classes)
    return _model[ext]


def merged(own, base):
    """the definitions stored in a file, completed with built-in ones"""
    types = dict(own.types)
    for k, t in base.types.items():
        if k not in types:
            types[k] = t
        elif "values" in t:
            have = {str(v[0]) for v in types[k]["values"]}
            types[k] = dict(types[k], values=types[k]["values"] + [v for v in t["values"] if str(v[0]) not in have])
    classes = dict(own.classes)
    for k, c in base.classes.items():
        if k not in classes:
            classes[k] = c
        else:
            have = {p["auid"] for p in classes[k]["props"]}
            classes[k] = dict(classes[k], py=c["py"], props=classes[k]["props"] + [p for p in c["props"] if p["auid"] not in have])
    for c in classes.values():
        c.setdefault("py", "AAFObject")
    return Types(types, classes)
