"""C16: linking to MXF (and WAVE, AIFF) files: intact ones give what they describe, damaged ones end."""
import random
import struct
import uuid

from .. import aafsim, core, refmxf
from ..core import STEPS, Violation, lib, mix, pattern
from ..disk import simpath
from . import c10

RUNS = {"quick": 1300, "thorough": 200000}
WALL_CAP = {"quick": 80, "thorough": 3000}
BATCH = 20
RULE = ("one run = one or two seeded MXF files written by an independent writer (packages, tracks, components and descriptors of every kind that can be "
        "linked to; any grid, length coding, set and tag order, dark sets, fill, later partitions), linked to from a new or existing AAF file, once or "
        "again, while reads deliver in small pieces or fail; either intact (what is linked is compared with the description, live and after reopening) or "
        "damaged (truncated, bytes flipped, lengths, counts, tags, identifiers and references changed, sets repeated, removed or referenced in circles, many times "
        "or very deep; each call limited in steps, the run in memory by the size of the file); some link to WAVE and AIFF files; distinct by event-log digest; "
        "non-trivial = something was linked, or damage was done")
STATE_MEASURE = "distinct (kinds of set, damage or delivery, outcome)"
ASSUMPTIONS = ["the header partition carries the metadata, there is no run-in, and the metadata ends in fill",
               "in a deeply nested description the interpreter's recursion limit is an accepted way to refuse",
               "locators that name the linked file itself may be given any number of times"]
SHRINK = ("damage",)
LEVEL = None
MEMORY = 96 << 20


def setup():
    for ss in (512, 4096):
        aafsim.image(True, ss)


# ---------------------------------------------------------------- descriptions

STRINGS = ["", "a", "Video 1", "\u00e9t\u00e9", "\u30c6\u30b9\u30c8", "x" * 300, "A01_C003 / take 2", "\U0001f3ac slate"]
URLS = ["file:///Volumes/a/b.mxf", "file://localhost/C%3a/x.mxf", "http://h/p?q=1"]
USAGE = {"0d010102-0101-0500-060e-2b3404010101": "Usage_SubClip", "0d010102-0101-0700-060e-2b3404010101": "Usage_TopLevel",
         "0d010102-0101-0900-060e-2b3404010101": "Usage_Template"}
COMPRESSION = ["04010202-0101-0000-060e-2b3404010101", "04010202-7101-0000-060e-2b340401010a", "0e040201-0204-0100-060e-2b3404010101"]


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.sets = []
        self.rich = rng.random() < .5
        self.sources = []

    def add(self, c, p):
        self.sets.append({"c": c, "p": p, "shuffle": self.rng.random() < .3})
        rng = self.rng
        if rng.random() < .3:
            p["GenerationUID"] = self.uuid()
        if rng.random() < .1:
            p["Foreign"] = [rng.randrange(256), rng.choice([1, 2, 16, 300, 5000, 0x7fff, 0x8000, 0xffff])]
            if p["Foreign"][1] > 5000:
                self.sets[-1]["shuffle"] = True
        if rng.random() < .05:
            p["Odd"] = [rng.randrange(256), rng.choice([1, 2, 16, 300])]
        return len(self.sets) - 1

    def uuid(self):
        return str(uuid.UUID(int=self.rng.getrandbits(128)))

    def mobid(self):
        return "060a2b340101010501010f1013000000" + "%032x" % self.rng.getrandbits(128)

    def opt(self, p, name, f, prob=.5):
        if self.rng.random() < prob:
            p[name] = f()

    def text(self):
        return self.rng.choice(STRINGS)

    def rate(self):
        return self.rng.choice([[25, 1], [24000, 1001], [30000, 1001], [48000, 1], [1, 1], [60000, 1001], [0, 1], [2, 4]])

    def length(self):
        return self.rng.choice([0, 1, 24, 1000, 123456789, 1 << 40, -1, (1 << 63) - 1])

    def component(self, depth=0, master=False):
        rng = self.rng
        dd = rng.choice(sorted(refmxf.DATADEFS))
        p = {"DataDefinition": dd, "Length": self.length()}
        k = rng.choices(["SourceClip", "Filler", "Timecode", "Sequence", "EssenceGroup", "Pulldown", "ScopeReference"],
                        [6, 2, 2, 2 if depth < 3 else 0, 1 if depth < 2 else 0, 1 if depth < 3 else 0, 1])[0]
        if k == "SourceClip":
            p.update(SourceID=rng.choice(self.sources) if rng.random() < .7 else rng.choice([self.mobid(), "00" * 32]),
                     SourceMobSlotID=rng.choice([0, 1, 2, 77, 0xffffffff]), StartTime=rng.choice([0, 1, 100, 1 << 33, -1]))
        elif k == "Timecode":
            p.update(FPS=rng.choice([24, 25, 30, 60, 65535]), Drop=rng.choice([0, 1]), Start=rng.choice([0, 1, 86400, 1 << 35, -5]))
        elif k == "Sequence":
            p["Components"] = [self.component(depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 4, 12 if self.rich and not depth else 3]))]
            if rng.random() < .2:
                del p["Length"]
        elif k == "EssenceGroup":
            p["Choices"] = []
            for _ in range(rng.choice([0, 1, 2, 3])):
                q = {"DataDefinition": dd, "Length": p["Length"], "SourceID": self.mobid(), "SourceMobSlotID": 1, "StartTime": 0}
                p["Choices"].append(self.add("SourceClip", q))
        elif k == "Pulldown":
            p.update(PulldownKind=rng.randrange(5), PulldownDirection=rng.randrange(2), PhaseFrame=rng.choice([0, 1, 4, -1]),
                     InputSegment=self.component(depth + 1))
        elif k == "ScopeReference":
            p.update(RelativeScope=rng.choice([0, 1, 7]), RelativeSlot=rng.choice([0, 1, 9]))
        return self.add(k, p)

    def descriptor(self, depth=0):
        rng = self.rng
        k = rng.choices(["CDCIDescriptor", "RGBADescriptor", "PCMDescriptor", "AES3", "Sound", "MultipleDescriptor", "ImportDescriptor", "TapeDescriptor",
                         "ANCDataDescriptor", "MPEG2"], [4, 2, 3, 1, 1, 2 if depth == 0 else .2 if depth < 3 else 0, 1, 1, 1, 1])[0]
        if depth and k in ("ImportDescriptor", "TapeDescriptor"):
            k = "PCMDescriptor"
        p = {}
        if k not in ("ImportDescriptor", "TapeDescriptor"):
            p["SampleRate"] = self.rate()
            self.opt(p, "Length", self.length, .8)
            self.opt(p, "LinkedSlotID", lambda: rng.choice([1, 2, 1001]))
            self.opt(p, "ContainerFormat", lambda: rng.choice(COMPRESSION))
            self.opt(p, "CodecDefinition", lambda: rng.choice(COMPRESSION), .3)
        if k in ("CDCIDescriptor", "RGBADescriptor", "MPEG2"):
            p.update(StoredWidth=rng.choice([1920, 1, 720, 4096]), StoredHeight=rng.choice([1080, 540, 1]), FrameLayout=rng.randrange(4),
                     ImageAspectRatio=rng.choice([[16, 9], [4, 3], [239, 100]]), VideoLineMap=rng.choice([[42, 0], [21, 584], [7], [], [1, 2], [-1, 5]]))
            self.opt(p, "SampledWidth", lambda: rng.choice([1920, 720]))
            self.opt(p, "SampledHeight", lambda: rng.choice([1080, 540]))
            self.opt(p, "Compression", lambda: rng.choice(COMPRESSION))
            self.opt(p, "FrameSampleSize", lambda: rng.choice([0, 917504, (1 << 31) - 1]))
            self.opt(p, "ImageAlignmentOffset", lambda: 1)
            if k == "RGBADescriptor":
                p["PixelLayout"] = rng.choice([[[0x52, 8], [0x47, 8], [0x42, 8]], [[0x41, 8], [0x52, 10], [0x47, 10], [0x42, 10]], [[0x52, 1]], [],
                                                [[0x52, 8], [0x47, 8], [0x42, 8], [0x41, 8], [0x52, 16], [0x47, 16], [0x42, 16]],
                                                [[0x41, 1], [0x52, 2], [0x47, 3], [0x42, 4], [0x41, 5], [0x52, 6], [0x47, 7], [0x42, 8]]])
            else:
                p.update(ComponentWidth=rng.choice([8, 10, 12]), HorizontalSubsampling=rng.choice([1, 2, 4]))
                self.opt(p, "VerticalSubsampling", lambda: rng.choice([1, 2]))
                if k == "CDCIDescriptor":
                    self.opt(p, "ResolutionID", lambda: rng.choice([1235, 1274, 4076]))
        if k in ("PCMDescriptor", "AES3", "Sound"):
            p.update(BlockAlign=rng.choice([2, 3, 6, 65535]), AverageBPS=rng.choice([0, 144000, 0xffffffff]), Channels=rng.choice([1, 2, 16]),
                     QuantizationBits=rng.choice([16, 24]), AudioSamplingRate=self.rate())
            self.opt(p, "Locked", lambda: rng.choice([0, 1]), .3)
        if k == "MultipleDescriptor":
            p["FileDescriptors"] = [self.descriptor(depth + 1) for _ in range(rng.choice([1, 2, 5]))]
        if rng.random() < .3:
            p["Locator"] = [self.add("NetworkLocator", {"URLString": rng.choice(URLS)}) for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < .1:
            p["SubDescriptors"] = []
        return self.add(k, p)

    def tag(self, depth=0):
        rng = self.rng
        p = {"TagName": self.text() or "n", "Value": rng.choice([["le", self.text()], ["le", self.text()], ["be", self.text()], ["i32", rng.choice([0, -1, 77])],
                                                                 ["other", 3]])}
        if depth < 2 and rng.random() < .25:
            p["TaggedValueAttributeList"] = [self.tag(depth + 1) for _ in range(rng.choice([0, 1, 2]))]
        return self.add("TaggedValue", p)

    def package(self, c, mid):
        rng = self.rng
        p = {"MobID": mid, "Slots": []}
        self.opt(p, "Name", lambda: self.text() or "m", .8)
        for n in ("LastModified", "CreationTime"):
            self.opt(p, n, lambda: [rng.choice([1970, 2017, 2036]), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60)], .8)
        self.opt(p, "UsageCode", lambda: rng.choice(sorted(USAGE)), .2)
        self.opt(p, "AppCode", lambda: rng.choice([0, 7, -1]), .2)
        if rng.random() < .4:
            p["UserComments"] = [self.tag() for _ in range(rng.choice([0, 1, 3]))]
        if rng.random() < .3:
            p["MobAttributeList"] = [self.tag() for _ in range(rng.choice([0, 1, 3]))]
        for i in range(rng.choice([0, 1, 1, 2, 3, 17 if self.rich else 4])):
            q = {"SlotID": rng.choice([i + 1, i + 1, 1000 + i]), "EditRate": self.rate(), "Origin": rng.choice([0, 0, 5, -7])}
            self.opt(q, "SlotName", self.text)
            self.opt(q, "PhysicalTrackNumber", lambda: rng.choice([0, 1, 9]))
            q["Segment"] = self.component()
            p["Slots"].append(self.add(rng.choices(["TimelineMobSlot", "StaticMobSlot", "EventMobSlot"], [8, 1, 1])[0], q))
        if c == "SourceMob":
            p["EssenceDescription"] = self.descriptor()
        return self.add(c, p)

    def description(self, mids=()):
        rng = self.rng
        n = rng.choice([1, 1, 2, 3])
        self.sources = [self.mobid() for _ in range(n)]
        if mids and rng.random() < .6:
            self.sources[0] = rng.choice(mids)
        packs = [self.package("SourceMob", m) for m in self.sources]
        mm = [self.mobid() for _ in range(rng.choice([1, 1, 1, 2, 0]))]
        packs += [self.package("MasterMob", m) for m in mm]
        rng.shuffle(packs)
        es = [self.add("EssenceData", {"LinkedPackage": self.sources[0]})]
        p = {"Packages": packs}
        self.opt(p, "EssenceContainerData", lambda: es, .8)
        cs = self.add("ContentStorage", p)
        lay = {"ber": rng.choice([1, 2, 4, 4, 8]), "kag": rng.choice([1, 1, 512, 512, 256, 4096, 65536 if rng.random() < .2 else 16]),
               "containers": rng.choice([0, 1, 3]), "primer": [0x3c0a, 0x4401] if rng.random() < .7 else [], "fills": rng.choice([0, 0, 100]),
               "mess": rng.choice([0, 0, .3]), "index": rng.random() < .4, "op": rng.choice(["OPAtom"] * 5 + ["OPAtom2", "OPAtom3", "OP1a", "OP2b"]),
               "essence": rng.choice([None, 0, 100, 5000, 200000]), "decoy": rng.random() < .4}
        pf = self.add("Preface", {"ContentStorage": cs, "OperationalPattern": refmxf.PATTERNS[lay["op"]]})
        order = list(range(len(self.sets)))
        for _ in range(rng.choice([0, 0, 2])):
            order.append(self.add("Dark", {"Foreign": [1, 40]}))
        k = rng.choice(["as is", "reverse", "preface first", "shuffle"])
        if k == "reverse":
            order.reverse()
        elif k == "preface first":
            order = [pf] + [x for x in order if x != pf]
        elif k == "shuffle":
            rng.shuffle(order)
        return {"sets": self.sets, "order": order, "layout": lay, "top": packs, "preface": pf}


# ---------------------------------------------------------------- damage

DAMAGE = {"trunc": 5, "cut": 2, "flip": 4, "ber": 5, "size": 4, "tag": 3, "count": 5, "ref": 6, "id": 3, "data": 5, "drop": 2, "dup": 3, "swap": 1, "pcount": 2,
          "kag": 1, "hbc": 2, "op": .5, "key": 2, "zero": 1, "ptag": 1, "wipe": 1}
BOMBS = ["many", "chain", "circle", "deep", "overlap", "primers", "share"]


def gen_damage(rng):
    ks = sorted(DAMAGE)
    return [[rng.choices(ks, [DAMAGE[k] for k in ks])[0], rng.getrandbits(32)] for _ in range(rng.choice([1, 1, 1, 2, 3, 8]))]


def damage(wr, ops):
    """-> damaged bytes, kinds done"""
    b = bytearray(wr.out)
    done = set()
    for kind, seed in ops:
        rng = random.Random(seed)
        n = len(b)
        if not n:
            break

        def pick(*kinds):
            m = [x for x in wr.marks if x[0] in kinds and x[1] + x[2] <= len(b)]
            return rng.choice(m) if m else None

        if kind == "trunc":
            k = rng.choice(["any", "header", "klv"])
            at = rng.randrange(n) if k == "any" else rng.randrange(min(n, wr.header_end)) if k == "header" else min(n, rng.choice(rng.choice(wr.klvs)[:3]) + rng.choice([0, 0, 1, -1]))
            del b[max(0, at):]
        elif kind == "cut":
            at = rng.randrange(min(n, wr.header_end))
            del b[at:at + rng.choice([1, 2, 4, 16, 100])]
        elif kind == "flip":
            for _ in range(rng.choice([1, 1, 8, 64])):
                b[rng.randrange(min(n, wr.header_end))] ^= 1 << rng.randrange(8)
        elif kind in ("ber", "size", "tag", "count", "data", "pcount", "kag", "hbc", "op", "key", "ptag", "id"):
            m = pick("kag" if kind == "kag" else kind) if kind != "hbc" else pick("hbc", "ibc")
            if m is None:
                continue
            _, off, size = m
            size = min(size, len(b) - off)
            r = rng.random()
            if kind == "ber" and r < .5:
                new = rng.choice([b"\x00", b"\x80", b"\x84\xff\xff\xff\xff", b"\x87" + b"\xff" * 7, b"\x88\x7f" + b"\xff" * 7, b"\x88" + b"\xff" * 8, b"\xff",
                                  b"\x84\x7f\xff\xff\xff", b"\x90" + b"\xff" * 16])
                b[off:off + len(new)] = new
            elif kind in ("tag", "key", "id") and r < .5:
                o = pick(kind)
                b[off:off + size] = b[o[1]:o[1] + o[2]]
            elif kind in ("ber", "size", "count", "pcount", "kag", "hbc") and r < .8:
                v = int.from_bytes(b[off:off + size], "big")
                v = rng.choice([0, 1, v + 1, v - 1, v * 2, (1 << 8 * size) - 1, 1 << 8 * size - 1, 65536, 65535, v + rng.randrange(1000)])
                b[off:off + size] = (v & (1 << 8 * size) - 1).to_bytes(size, "big")
            else:
                b[off:off + size] = rng.choice([bytes(size), b"\xff" * size, rng.randbytes(size), b"\x7f" + b"\xff" * (size - 1), b"\x80" + bytes(size - 1)][:5])[:size]
        elif kind == "ref":
            m = pick("ref")
            if m:
                b[m[1]:m[1] + 16] = rng.choice([rng.choice(wr.ids), rng.choice(wr.ids), rng.choice(wr.ids), rng.choice(wr.ids), bytes(16), rng.randbytes(16)])
        elif kind in ("drop", "dup", "swap", "wipe"):
            s, v, e, what = rng.choice(wr.klvs)
            if e > n:
                continue
            if kind == "drop":
                del b[s:e]
            elif kind == "wipe":
                b[v:e] = bytes(e - v)
            elif kind == "dup":
                at = rng.choice(wr.klvs)[0]
                b[at:at] = b[s:e] * rng.choice([1, 1, 2, 50])
            else:
                s2, v2, e2, _ = rng.choice(wr.klvs)
                x, y = sorted([(s, e), (s2, e2)])
                if x[1] <= y[0] and y[1] <= len(b):
                    b = b[:x[0]] + b[y[0]:y[1]] + b[x[1]:y[0]] + b[x[0]:x[1]] + b[y[1]:]
        elif kind == "zero":
            at = rng.randrange(min(n, wr.header_end))
            m = rng.choice([1, 16, 512, 4096])
            b[at:at + m] = bytes(min(m, n - at))
        done.add(kind)
    return bytes(b), done


def bomb(desc, kind, rng):
    """small descriptions that mean a lot of work; -> description"""
    sets = desc["sets"]

    def add(c, p):
        sets.append({"c": c, "p": p})
        desc["order"].insert(0, len(sets) - 1)
        return len(sets) - 1

    dd = {"DataDefinition": "DataDef_Picture", "Length": 10}
    n = rng.choice([12, 40, 200])
    top = None
    if kind == "chain":
        # each refers to the next one twice
        i = add("Filler", dict(dd))
        for _ in range(n):
            i = add("Sequence", dict(dd, Components=[i] * rng.choice([2, 2, 3, 10])))
        top = i
    elif kind == "circle":
        first = len(sets)
        k = rng.choice([1, 2, 3, n])
        for j in range(k):
            add("Sequence", dict(dd, Components=[first + (j + 1) % k] * rng.choice([1, 1, 2, 5])))
        top = first
    elif kind == "deep":
        i = add("Filler", dict(dd))
        for _ in range(rng.choice([50, 300, 3000])):
            i = add("Sequence", dict(dd, Components=[i]))
        top = i
    elif kind == "many":
        # one set referred to very often
        i = add(*rng.choice([("Filler", dict(dd)), ("Sequence", dict(dd, Components=[]))]))
        top = add("Sequence", dict(dd, Components=[i] * rng.choice([1000, 4000])))
    elif kind == "share":
        i = add("TaggedValue", {"TagName": "n", "Value": ["le", "v" * rng.choice([10, 30000])]})
        for s in sets:
            if s["c"] in ("MasterMob", "SourceMob"):
                s["p"]["UserComments"] = [i] * 4000
    if top is not None:
        t = [s for s in sets if s["c"] == "TimelineMobSlot"]
        if t:
            for s in t:
                s["p"]["Segment"] = top
        else:
            p = add("TimelineMobSlot", {"SlotID": 1, "EditRate": [25, 1], "Origin": 0, "Segment": top})
            for s in sets:
                if s["c"] in ("MasterMob", "SourceMob"):
                    s["p"]["Slots"] = [p]
    return desc


def raw_bomb(wr, kind, rng):
    """the same on the level of bytes"""
    b = bytearray(wr.out)
    out = bytearray()
    key = bytearray(refmxf.auid("060e2b34-0253-0101-0d01-010101010000"))
    if kind == "overlap":
        # short sets whose last item claims to be long
        key[14] = refmxf.KEYS[rng.choice(["MasterMob", "NetworkLocator", "ContentStorage"])]
        tag = {0x36: 0x4402, 0x32: 0x4001, 0x18: 0x1901}[key[14]]
        head = bytes([0x41, 0x42] * 2) if key[14] != 0x18 else struct.pack(">II", 4000, 16)
        for i in range(rng.choice([500, 3000])):
            v = struct.pack(">HH", 0x3c0a, 16) + rng.randbytes(16) + struct.pack(">HH", tag, 0xffff) + head
            out += key + bytes([len(v)]) + v
        out += bytes([0x41, 0x42]) * 35000
    else:
        for i in range(rng.choice([100, 2000])):
            v = struct.pack(">II", 65536, 18)
            out += refmxf.auid("060e2b34-0205-0101-0d01-020101050100") + bytes([len(v)]) + v
        out += rng.randbytes(18 * 65536)
    at = wr.klvs[1][0]
    b[at:at] = out
    # whatever the header says about its size
    hbc = [m for m in wr.marks if m[0] == "hbc"][0]
    b[hbc[1]:hbc[1] + 8] = (1 << 40).to_bytes(8, "big")
    return bytes(b)


# ---------------------------------------------------------------- runs

def generate(rng, tier, index):
    plan = {"ss": rng.choice([512, 4096]), "fresh": rng.random() < .1, "wseed": rng.getrandbits(32), "buffering": rng.choice([-1, -1, 0, 512]),
            "cap": rng.choice([None, None, None, 1, 3, 17, 4096]), "cache": None, "gc_mean": rng.choice([None, None, 5000])}
    r = rng.random()
    if r < .06:
        plan.update(kind="chunk", form=rng.choice(["wav", "aifc"]), before=[[rng.choice(["JUNK", "bext", "LIST", "FVER", "iXML"]), rng.choice([0, 1, 7, 602, 5000])]
                    for _ in range(rng.choice([0, 1, 3]))], fmt=rng.choice([14, 16, 18, 40]), cut=rng.choice([None, None, rng.randrange(6000)]),
                    rate=rng.choice([8000, 44100, 48000]), ch=rng.choice([1, 2, 5]), n=rng.choice([0, 1, 100000]))
    else:
        plan.update(kind="mxf", files=[], steps=[], faults=[])
        mids = []
        n = rng.choice([1, 1, 1, 2])
        hurt = rng.random() < .6
        for i in range(n):
            g = Gen(rng)
            d = g.description(mids)
            mids += [d["sets"][k]["p"]["MobID"] for k in d["top"]]
            plan["files"].append({"desc": d, "wseed": rng.getrandbits(32), "tail": rng.choice([None, None, None, rng.random()])})
        if hurt:
            plan["damage"] = gen_damage(rng)
            if rng.random() < .12:
                plan["bomb"] = [rng.choice(BOMBS), rng.getrandbits(32)]
                plan["damage"] = [] if rng.random() < .8 else plan["damage"]
                plan["files"] = plan["files"][:1]
        for i in range(n if not plan.get("bomb") else 1):
            plan["steps"].append([rng.choice(["ama", "ama", "link", "link"]), i])
            if rng.random() < .3:
                plan["steps"].append([rng.choice(["ama", "link"]), i])
        if rng.random() < .3:
            plan["faults"] = [[rng.choice(["r_eio", "r_short", "o_eio"]), rng.choice([0, 1, 2, 5, rng.randrange(80)]), rng.choice([1, 1, 5])] for _ in range(rng.choice([1, 2]))]
    return plan


FRAME = ["FullFrame", "SeparateFields", "OneField", "MixedFields", "SegmentedFrame"]
ENUMS = {"FrameLayout": FRAME, "PulldownKind": ["TwoThreePD", "PALPD", "OneToOneNTSC", "OneToOnePAL", "VideoTapNTSC"],
         "PulldownDirection": ["TapeToFilmSpeed", "FilmToTapeSpeed"]}
COMPS = {0x52: "CompRed", 0x47: "CompGreen", 0x42: "CompBlue", 0x41: "CompAlpha"}


def got(name, v):
    if v is None:
        return None
    if name in ("MobID", "SourceID"):
        return bytes(v.bytes_le).hex()
    if name == "DataDefinition":
        return v.name
    if name in ("UsageCode", "Compression"):
        return str(v)
    if name in ("LastModified", "CreationTime"):
        return str(v)
    if name in ("EditRate", "SampleRate", "AudioSamplingRate", "ImageAspectRatio"):
        return "%d/%d" % (v.numerator, v.denominator)
    if name == "PixelLayout":
        return [[x["Code"], x["Size"]] for x in v if x["Code"] != "CompNone" and x["Size"]]
    if name == "VideoLineMap":
        return list(v)
    return v


def want(name, v):
    if v is None:
        return None
    if name in ("MobID", "SourceID"):
        b = bytes.fromhex(v)
        return (b[:16] + uuid.UUID(bytes=b[16:]).bytes_le).hex()
    if name == "UsageCode":
        return USAGE[v]
    if name in ENUMS:
        return ENUMS[name][v]
    if name == "PixelLayout":
        return [[COMPS[a], b] for a, b in v]
    if name in ("EditRate", "SampleRate", "AudioSamplingRate", "ImageAspectRatio"):
        return v
    return v


def compare(o, e, where):
    if o.classdef.class_name != e["class"]:
        raise Violation("linked-differs", "%s is a %s, the file describes a %s" % (where, o.classdef.class_name, e["class"]))
    for name, v in e["p"].items():
        p = o.get(name)
        x = got(name, p.value if p is not None else None)
        if v is None and name in ("Name", "SlotName"):
            continue        # the library has names of its own
        if x != want(name, v):
            raise Violation("linked-differs", "%s: %s is %r, the file describes %r" % (where, name, x, want(name, v)))
    for name, l in e["kids"].items():
        p = o.get(name)
        x = p.value if p is not None else []
        x = list(x) if not isinstance(x, core.aaf2.core.AAFObject) else [x]
        if len(x) != len(l):
            raise Violation("linked-differs", "%s: %d %s, the file describes %d" % (where, len(x), name, len(l)))
        for i, (a, b) in enumerate(zip(x, l)):
            compare(a, b, "%s %s[%d]" % (where, name, i))
    if "urls" in e:
        p = o.get("Locator")
        urls = [x["URLString"].value for x in p.value] if p is not None else []
        own = [u for u in urls if u != e["self_url"]]
        if own != e["urls"]:
            raise Violation("linked-differs", "%s: locators %r, the file describes %r" % (where, own, e["urls"]))
        if e["needs_self"] and e["self_url"] not in urls:
            raise Violation("linked-differs", "%s: no locator names the file" % where)


class Run(object):
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.mobs = {}          # hex of mob id -> expected or None
        self.states = set()
        self.done = 0

    def open(self, mode):
        self.f = core.aaf2.open("/simfs/l.aaf", mode, buffering=self.plan["buffering"])

    def start(self):
        if self.plan["fresh"]:
            self.open("w")
        else:
            self.w.disk.put("l.aaf", aafsim.image(True, self.plan["ss"]).data)
            self.open("rw")
        self.base = {bytes(m.mob_id.bytes_le).hex() for m in self.f.content.mobs}

    def check(self, when):
        have = {}
        for m in lib("mobs " + when, lambda: list(self.f.content.mobs)):
            have[bytes(m.mob_id.bytes_le).hex()] = m
        extra = set(have) - self.base - set(self.mobs)
        if extra:
            raise Violation("linked-differs", "%s: %d mobs that were not linked to" % (when, len(extra)))
        for k, e in sorted(self.mobs.items()):
            if k not in have:
                raise Violation("linked-differs", "%s: mob %s is not there" % (when, k))
            compare(have[k], e, "%s: %s" % (when, e["class"]))

    def finish(self):
        lib("save", self.f.save)
        lib("close", self.f.close)
        self.w.log("file", core.dig(self.w.disk.get("l.aaf")))
        self.open("r")
        self.check("after reopening")
        self.f.close()

    def names(self):
        return ["clip%d.%s" % (i, ["mxf", "MXF"][x["wseed"] & 1]) for i, x in enumerate(self.plan["files"])]


def intact(r, plan):
    w = r.w
    names = r.names()
    for fd, name in zip(plan["files"], names):
        wr = refmxf.Writer(fd["desc"], random.Random(fd["wseed"]))
        data = wr.bytes()
        if fd["tail"] is not None and fd["desc"]["layout"]["essence"]:
            # the essence is not what is linked
            data = data[:wr.header_end + 200 + int(fd["tail"] * (len(data) - wr.header_end))]
            w.disk.note("essence cut")
        w.disk.put(name, data)
    w.disk.max_read, w.disk.max_read_names = plan["cap"], set(names)
    for si, (how, i) in enumerate(plan["steps"]):
        d = plan["files"][i]["desc"]
        path = simpath(names[i])
        mobs = []
        seen = set(r.mobs) | r.base
        for k in d["top"]:
            e = refmxf.expect(d, k, path, how == "ama")
            h = want("MobID", e["p"]["MobID"])
            if h not in seen:
                seen.add(h)
                mobs.append((h, e))
        w.disk.fault_scope = names[i]
        if si < len(plan["faults"]):
            k, after, times = plan["faults"][si]
            w.disk.arm(k, after, times, 3)
        fired = sum(v for k, v in w.disk.fired.items() if k in ("r_eio", "o_eio"))
        call = (lambda: r.f.content.create_ama_link(path, {})) if how == "ama" else (lambda: r.f.content.link_external_mxf(path))
        atom = d["layout"]["op"].startswith("OPAtom")
        try:
            if how == "link" and not atom:
                try:
                    call()
                except Exception as e:
                    if not core.from_code_under_test(e) and not isinstance(e, OSError):
                        raise
                else:
                    raise Violation("linked-differs", "%s was linked to as OPAtom" % d["layout"]["op"])
                out = "not OPAtom"
            else:
                try:
                    res = call()
                except OSError as e:
                    if sum(v for k, v in w.disk.fired.items() if k in ("r_eio", "o_eio")) == fired:
                        raise Violation("refused", "%s of an intact file: %s" % (how, core.where(e)))
                    out = "read error"
                except Exception as e:
                    if not core.from_code_under_test(e):
                        raise
                    raise Violation("refused", "%s of an intact file: %s: %s (%s)" % (how, type(e).__name__, e, core.where(e)))
                else:
                    got_ids = [bytes(m.mob_id.bytes_le).hex() for m in res]
                    if got_ids != [h for h, _ in mobs]:
                        raise Violation("linked-differs", "%s returned mobs %s, the file describes %s" % (how, got_ids, [h for h, _ in mobs]))
                    r.mobs.update(mobs)
                    out = "linked %d" % min(len(mobs), 3)
        finally:
            w.disk.armed = []
            w.disk.fault_scope = None
        r.done += 1
        w.log("step", how, i, out)
        w.probe(how + ": " + out)
        r.check("after linking")
        r.states.add(repr(("intact", how, out, plan["cap"], d["layout"]["op"], sorted({s["c"] for s in d["sets"]}))))
    w.disk.max_read = None
    r.finish()
    return len(r.mobs) > 0, set()


def damaged(r, plan):
    w = r.w
    fd = plan["files"][0]
    d = fd["desc"]
    kinds = set()
    if plan.get("bomb"):
        kind, seed = plan["bomb"]
        kinds.add("bomb " + kind)
        rng = random.Random(seed)
        d = {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}
        d["sets"] = [dict(s, p=dict(s["p"])) for s in d["sets"]]
        if kind not in ("overlap", "primers"):
            d = bomb(d, kind, rng)
        wr = refmxf.Writer(d, random.Random(fd["wseed"]))
        if kind in ("overlap", "primers"):
            wr.out = bytearray(raw_bomb(wr, kind, rng))
    else:
        wr = refmxf.Writer(d, random.Random(fd["wseed"]))
    orig = wr.bytes()
    data, more = damage(wr, plan["damage"])
    kinds |= more
    name = r.names()[0]
    w.disk.put(name, data)
    w.disk.max_read, w.disk.max_read_names = plan["cap"], {name}
    wk = c10.Walk(w, len(data), plan)
    wk.kept = []
    # loop iterations are cheap to make and there is an encoder behind every value
    wk.limit = 400000 + 25 * len(data)
    w.disk.op_limit = w.disk.nops + 100000 + (len(data) * 4 if plan["cap"] and plan["cap"] < 100 else len(data))
    w.log("damaged", sorted(kinds), len(data), core.dig(data))
    path = simpath(name)
    wk.limits = c10.Limits(MEMORY + 30 * len(data))
    with wk.limits:
        try:
            for how, i in plan["steps"]:
                if i:
                    continue
                if plan["faults"]:
                    w.disk.fault_scope = name
                    k, after, times = plan["faults"][0]
                    w.disk.arm(k, after, times, 3)
                call = (lambda: r.f.content.create_ama_link(path, {})) if how == "ama" else (lambda: r.f.content.link_external_mxf(path))
                ok, res = attempt(wk, how, call)
                w.disk.armed = []
                w.disk.fault_scope = None
                res = None
                r.done += 1
                r.states.add(repr(("damaged", how, sorted(kinds), ok, sorted(wk.failed)[:2])))
        finally:
            STEPS.limit = None
    w.disk.op_limit = None
    w.disk.max_read = None
    w.probe("damaged, raised", sum(wk.failed.values()))
    w.probe("damaged, linked", wk.ok)
    return data != orig or bool(plan.get("bomb")), kinds


def attempt(wk, what, fn):
    try:
        return wk.attempt(what, fn)
    except Violation as e:
        if e.cls == "unbounded-recursion":
            wk.failed["RecursionError:" + what] = 1
            wk.w.probe("deep nesting ended by the recursion limit")
            return False, None
        raise


def chunk(r, plan):
    """the summary of a linked WAVE or AIFF file"""
    w = r.w
    big = plan["form"] == "aifc"
    fmt = ">I" if big else "<I"
    body = bytearray()
    for k, n in plan["before"]:
        body += k.encode() + struct.pack(fmt, n) + bytes(pattern(n, n)) + bytes(n % 2)
    at = len(body)
    f = pattern(77, plan["fmt"])
    body += (b"COMM" if big else b"fmt ") + struct.pack(fmt, len(f)) + bytes(f)
    end = len(body)
    body += (b"SSND" if big else b"data") + struct.pack(fmt, plan["n"]) + bytes(plan["n"])
    head = (b"FORM" if big else b"RIFF") + struct.pack(fmt, len(body) + 4) + (b"AIFC" if big else b"WAVE")
    data = head + bytes(body)
    summary = head + bytes(body[at:end])
    if plan["cut"] is not None:
        data = data[:plan["cut"]]
    name = "s." + ("aif" if big else "wav")
    w.disk.put(name, data)
    w.disk.max_read, w.disk.max_read_names = plan["cap"], {name}
    meta = {"format": {"format_name": "aiff" if big else "wav", "format_long_name": "x", "filename": simpath(name)},
            "streams": [{"codec_type": "audio", "codec_name": "pcm", "sample_rate": str(plan["rate"]), "channels": plan["ch"], "duration_ts": plan["n"]}]}
    whole = len(data) >= len(head) + end
    try:
        res = r.f.content.create_ama_link(simpath(name), meta)
    except Exception as e:
        if not core.from_code_under_test(e):
            raise
        if whole:
            raise Violation("refused", "link to an intact %s file: %s: %s (%s)" % (plan["form"], type(e).__name__, e, core.where(e)))
        w.probe("cut file refused")
        return False, {"trunc"}
    finally:
        w.disk.max_read = None
    mid = bytes(res[1].mob_id.bytes_le).hex()

    def see(when):
        m = [m for m in r.f.content.mobs if bytes(m.mob_id.bytes_le).hex() == mid][0]
        s = m.descriptor["Summary"].value
        s = None if s is None else bytes(s)
        if whole and s != summary:
            raise Violation("linked-differs", "%s: summary of %s is not the header of the file" % (when, plan["form"]))
        if not whole and s and not data.startswith(s[:12]):
            raise Violation("linked-differs", "%s: summary of %s is not from the file" % (when, plan["form"]))
        if m.descriptor["Length"].value != plan["n"]:
            raise Violation("linked-differs", "%s: length" % when)

    see("live")
    r.f.save()
    r.f.close()
    r.open("r")
    see("after reopening")
    r.f.close()
    r.states.add(repr(("chunk", plan["form"], whole, plan["cap"])))
    w.probe("link to " + plan["form"])
    r.done += 1
    return True, set()


def execute(plan, keep_log=False):
    with core.world(plan["seed"], cache_size=plan["cache"], keep_log=keep_log, gc_mean=plan["gc_mean"]) as w:
        r = Run(w, plan)
        r.start()
        if plan["kind"] == "chunk":
            nt, kinds = chunk(r, plan)
        elif "damage" in plan:
            nt, kinds = damaged(r, plan)
        else:
            nt, kinds = intact(r, plan)
        st = {"operations": r.done, "probes": w.probes, "faults": dict(w.disk.fired), "steps_in_code_under_test": STEPS.n, "raw_io": dict(w.disk.counts),
              "raw_bytes_read": w.disk.bytes_read}
        for k in kinds:
            st["faults"]["damage: " + k] = 1
        r.f = None
        return {"digest": w.log.digest(), "stats": st, "states": sorted(r.states), "nontrivial": nt,
                "sample": {"seed": plan["seed"], "kind": plan["kind"], "steps": plan.get("steps"), "damage": plan.get("damage"), "bomb": plan.get("bomb"),
                           "sets": [len(x["desc"]["sets"]) for x in plan.get("files", ())]},
                "log": w.log.lines if keep_log else None}


def shrink_args(plan):
    for k in ("steps", "faults"):
        for i in range(len(plan.get(k, ()))):
            yield dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
    for k, v in (("cap", None), ("buffering", -1), ("gc_mean", None), ("fresh", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
