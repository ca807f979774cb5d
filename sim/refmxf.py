"""An independent writer of small MXF files (header metadata, some essence), and what linking to them should give.

A description is plain data (JSON); `Writer` turns it into bytes and notes where everything is, `expect` into the tree of
AAF objects that it describes."""
import datetime
import struct

KEYS = {"Preface": 0x2f, "ContentStorage": 0x18, "EssenceData": 0x23, "MasterMob": 0x36, "SourceMob": 0x37, "TimelineMobSlot": 0x3b, "StaticMobSlot": 0x3a,
        "EventMobSlot": 0x39, "Sequence": 0x0f, "SourceClip": 0x11, "Timecode": 0x14, "Filler": 0x09, "EssenceGroup": 0x05, "Pulldown": 0x0c,
        "ScopeReference": 0x0d, "CDCIDescriptor": 0x28, "RGBADescriptor": 0x29, "PCMDescriptor": 0x48, "AES3": 0x47, "Sound": 0x42,
        "MultipleDescriptor": 0x44, "ImportDescriptor": 0x4a, "TapeDescriptor": 0x2e, "ANCDataDescriptor": 0x5c, "MPEG2": 0x51, "NetworkLocator": 0x32,
        "TaggedValue": 0x3f, "Identification": 0x30, "Dark": 0x7b}
CLASS = {"AES3": "PCMDescriptor", "Sound": "PCMDescriptor", "MPEG2": "CDCIDescriptor"}
DATADEFS = {"DataDef_Picture": "01030202-0100-0000-060e-2b3404010101", "DataDef_Sound": "01030202-0200-0000-060e-2b3404010101",
            "DataDef_Data": "01030202-0300-0000-060e-2b3404010101", "DataDef_Timecode": "01030201-0100-0000-060e-2b3404010101",
            "DataDef_LegacyPicture": "6f3c8ce1-6cef-11d2-807d-006008143e6f", "DataDef_LegacySound": "78e1ebe1-6cef-11d2-807d-006008143e6f",
            "DataDef_LegacyTimecode": "7f275e81-77e5-11d2-807f-006008143e6f"}
PATTERNS = {"OPAtom": "060e2b34040101010d01020110000000", "OPAtom2": "060e2b34040101020d01020110030000", "OPAtom3": "060e2b34040101030d01020110010000",
            "OP1a": "060e2b34040101010d01020101010900", "OP2b": "060e2b34040101010d01020102020900"}
# property -> (tag, format)
TAGS = {
    "InstanceUID": (0x3c0a, "auid"), "GenerationUID": (0x0102, "auid"), "OperationalPattern": (0x3b09, "auid"), "ContentStorage": (0x3b03, "ref"),
    "EssenceContainerData": (0x1902, "refs"), "Packages": (0x1901, "refs"), "LinkedPackage": (0x2701, "mobid"),
    "Slots": (0x4403, "refs"), "MobID": (0x4401, "mobid"), "Name": (0x4402, "str"), "EssenceDescription": (0x4701, "ref"),
    "LastModified": (0x4404, "time"), "CreationTime": (0x4405, "time"), "UsageCode": (0x4408, "auid"), "UserComments": (0x4406, "refs"),
    "Origin": (0x4b02, "s64"), "EditRate": (0x4b01, "rat"), "Segment": (0x4803, "ref"), "PhysicalTrackNumber": (0x4804, "u32"), "SlotID": (0x4801, "u32"),
    "SlotName": (0x4802, "str"),
    "Components": (0x1001, "refs"), "StartTime": (0x1201, "s64"), "SourceMobSlotID": (0x1102, "u32"), "SourceID": (0x1101, "mobid"), "Length": (0x0202, "s64"),
    "DataDefinition": (0x0201, "ddef"), "Drop": (0x1503, "u8"), "FPS": (0x1502, "u16"), "Start": (0x1501, "s64"), "Choices": (0x0501, "refs"),
    "InputSegment": (0x0d01, "ref"), "PulldownKind": (0x0d02, "u8"), "PulldownDirection": (0x0d03, "u8"), "PhaseFrame": (0x0d04, "s32"),
    "RelativeScope": (0x0e01, "u32"), "RelativeSlot": (0x0e02, "u32"),
    "FileDescriptors": (0x3f01, "refs"), "ContainerFormat": (0x3004, "ul"), "CodecDefinition": (0x3005, "ul"), "LinkedSlotID": (0x3006, "u32"),
    "StoredWidth": (0x3203, "u32"), "StoredHeight": (0x3202, "u32"), "SampledHeight": (0x3208, "u32"), "SampledWidth": (0x3209, "u32"),
    "VideoLineMap": (0x320d, "map"), "ImageAlignmentOffset": (0x3211, "u32"), "DLength": (0x3002, "s64"), "SampleRate": (0x3001, "rat"),
    "AudioSamplingRate": (0x3d03, "rat"), "BlockAlign": (0x3d0a, "u16"), "QuantizationBits": (0x3d01, "u32"), "Channels": (0x3d07, "u32"),
    "AverageBPS": (0x3d09, "u32"), "Locked": (0x3d02, "u8"), "ComponentWidth": (0x3301, "u32"), "FrameLayout": (0x320c, "u8"),
    "ImageAspectRatio": (0x320e, "rat"), "SoundCompression": (0x3d06, "ul"), "Compression": (0x3201, "ul"), "HorizontalSubsampling": (0x3302, "u32"),
    "VerticalSubsampling": (0x3308, "u32"), "Locator": (0x2f01, "refs"), "PixelLayout": (0x3401, "pix"),
    "URLString": (0x4001, "str"), "TagName": (0x5001, "str"), "Value": (0x5003, "ind"), "Foreign": (0x3f7f, "raw"),
}
# properties without a tag of their own: the primer says which one
DYNAMIC = {
    "FrameSampleSize": ("a0240060-94eb-75cb-ce2a-ca5051ab11d3", "s32"), "ResolutionID": ("a0240060-94eb-75cb-ce2a-ca4d51ab11d3", "s32"),
    "AppCode": ("a0220060-94eb-75cb-96c4-69924f6211d3", "s32"), "SubDescriptors": ("060e2b34-0101-0109-0601-010406100000", "refs"),
    "MobAttributeList": ("a01c0004-ac96-9f50-6095-818347b111d4", "refs"), "TaggedValueAttributeList": ("a01c0004-ac96-9f50-6095-818547b111d4", "refs"),
    "Odd": ("11223344-5566-7788-99aa-bbccddeeff00", "raw"),
}
DYNAMIC_TAG = {k: 0x8001 + i * 3 for i, k in enumerate(sorted(DYNAMIC))}
REFS = ("ref", "refs")


def auid(s):
    return bytes.fromhex(s.replace("-", ""))


def ul(s):
    b = auid(s)
    return b[8:] + b[:8]


def value(fmt, v, ids):
    if fmt in ("u8", "u16", "u32", "u64", "s32", "s64"):
        return struct.pack(">" + {"u8": "B", "u16": "H", "u32": "I", "u64": "Q", "s32": "i", "s64": "q"}[fmt], v)
    if fmt == "rat":
        return struct.pack(">II", *v)
    if fmt == "auid":
        return auid(v)
    if fmt == "ul":
        return ul(v)
    if fmt == "ddef":
        return ul(DATADEFS[v])
    if fmt == "mobid":
        return bytes.fromhex(v)
    if fmt == "str":
        return v.encode("utf-16be") + b"\0\0"
    if fmt == "time":
        return struct.pack(">HBBBBBB", *(v + [0]))
    if fmt == "map":
        return struct.pack(">II", len(v), 4) + b"".join(struct.pack(">i", x) for x in v)
    if fmt == "pix":
        return b"".join(struct.pack("BB", *x) for x in v) + bytes(16 - 2 * len(v))
    if fmt == "ind":
        kind, x = v
        if kind == "le":
            return b"\x4c\x00\x02\x10\x01\x00\x00\x00\x00\x06\x0e\x2b\x34\x01\x04\x01\x01" + x.encode("utf-16le") + b"\0\0"
        if kind == "be":
            return b"\x42\x01\x10\x02\x00\x00\x00\x00\x00\x06\x0e\x2b\x34\x01\x04\x01\x01" + x.encode("utf-16be") + b"\0\0"
        if kind == "i32":
            return b"\x4c\x00\x07\x01\x01\x00\x00\x00\x00\x06\x0e\x2b\x34\x01\x04\x01\x01" + struct.pack("<i", x)
        return b"\x4c\x00\x01\x01\x01\x00\x00\x00\x00\x06\x0e\x2b\x34\x01\x04\x01\x01" + bytes([x & 0xff])
    if fmt == "ref":
        return ids[v]
    if fmt == "refs":
        return struct.pack(">II", len(v), 16) + b"".join(ids[x] for x in v)
    if fmt == "raw":
        return bytes((v[0] + 7 * i) & 0xff for i in range(v[1]))
    raise KeyError(fmt)


class Writer(object):
    """desc: {"sets": [{"c": class, "p": {property: value}}], "order": [...], "layout": {...}}; a reference is an index into sets"""

    def __init__(self, desc, rng):
        self.d = desc
        self.rng = rng
        self.out = bytearray()
        self.marks = []         # (kind, offset, size)
        self.klvs = []          # (start, value start, end, what)
        self.ids = [bytes.fromhex("%032x" % (x | 1)) for x in (rng.getrandbits(128) for _ in desc["sets"])]
        self.build()

    def mark(self, kind, size):
        self.marks.append((kind, len(self.out), size))

    def ber(self, n):
        k = self.d["layout"]["ber"]
        if k == 1 and n < 128:
            return bytes([n])
        if k == 1 or k == 2:
            k = max(1, (n.bit_length() + 7) // 8) if k == 1 else 3
        return bytes([0x80 | k]) + n.to_bytes(k, "big")

    def klv(self, key, val, what, inner=()):
        start = len(self.out)
        self.mark("key", 16)
        self.out += key
        b = self.ber(len(val))
        self.mark("ber", len(b))
        self.out += b
        at = len(self.out)
        for kind, off, size in inner:
            self.marks.append((kind, at + off, size))
        self.out += val
        self.klvs.append((start, at, len(self.out), what))

    def fill(self, n):
        self.klv(auid("060e2b34-0101-0101-0301-021001000000"), bytes(n), "fill")

    def align(self):
        kag = self.d["layout"]["kag"]
        if kag <= 1:
            return
        room = -len(self.out) % kag
        if room:
            over = 16 + len(self.ber(room))
            while room < over + 4:
                room += kag
            n = room - 16 - len(self.ber(room - 20))
            while 16 + len(self.ber(n)) + n > room:
                n -= 1
            self.fill(n)
            self.out += bytes(-len(self.out) % kag)

    def a_set(self, i):
        s = self.d["sets"][i]
        val = bytearray()
        inner = []
        items = [("InstanceUID", None)] + list(s["p"].items())
        if s.get("shuffle"):
            self.rng.shuffle(items)
        for k, v in items:
            if k in DYNAMIC:
                tag, fmt = DYNAMIC_TAG[k], DYNAMIC[k][1]
            elif k == "Length" and "Descriptor" in s["c"] + CLASS.get(s["c"], ""):
                tag, fmt = TAGS["DLength"]
            else:
                tag, fmt = TAGS[k]
            b = self.ids[i] if k == "InstanceUID" else value(fmt, v, self.ids)
            inner.append(("tag", len(val), 2))
            inner.append(("size", len(val) + 2, 2))
            at = len(val) + 4
            if fmt == "refs":
                inner.append(("count", at, 4))
                inner.extend(("ref", at + 8 + 16 * j, 16) for j in range(len(v)))
            elif fmt == "ref":
                inner.append(("ref", at, 16))
            elif k == "InstanceUID":
                inner.append(("id", at, 16))
            else:
                inner.append(("data", at, len(b)))
            val += struct.pack(">HH", tag, len(b)) + b
        key = bytearray(auid("060e2b34-0253-0101-0d01-010101010000"))
        key[14] = KEYS[s["c"]]
        self.klv(bytes(key), bytes(val), s["c"], inner)

    def build(self):
        d, lay = self.d, self.d["layout"]
        # header partition pack, completed below
        n = 88 + 16 * lay["containers"]
        start = len(self.out)
        self.klv(auid("060e2b34-0205-0101-0d01-020101020400"), bytes(n), "partition",
                 [("kag", 4, 4), ("hbc", 32, 8), ("ibc", 40, 8), ("op", 64, 16), ("data", 80, n - 80)])
        pack = self.klvs[-1][1]
        self.align()
        at = len(self.out)
        used = sorted({k for s in d["sets"] for k in s["p"] if k in DYNAMIC})
        prim = [(DYNAMIC_TAG[k], auid(DYNAMIC[k][0])) for k in used] + [(t, bytes([t >> 8, t & 255]) * 8) for t in lay["primer"]]
        self.rng.shuffle(prim)
        val = struct.pack(">II", len(prim), 18) + b"".join(struct.pack(">H", t) + u for t, u in prim)
        self.klv(auid("060e2b34-0205-0101-0d01-020101050100"), val, "primer", [("pcount", 0, 4), ("psize", 4, 4)] + [("ptag", 8 + 18 * i, 18) for i in range(len(prim))])
        if lay["fills"]:
            self.fill(lay["fills"])
        for i in d["order"]:
            self.a_set(i)
            if self.rng.random() < lay["mess"]:
                self.fill(self.rng.choice([0, 1, 30, 300]))
        self.fill(40)
        self.align()
        hbc = len(self.out) - at
        at = len(self.out)
        if lay["index"]:
            self.klv(auid("060e2b34-0253-0101-0d01-020101100100"), struct.pack(">HHHH", 0x3f0b, 4, 1, 1) + bytes([0x3f, 5, 0, 4, 0, 0, 1, 0]), "index")
            self.align()
        ibc = len(self.out) - at
        self.header_end = len(self.out)
        struct.pack_into(">HHIQQQQQIQI", self.out, pack, 1, 2, lay["kag"], 0, 0, 0, hbc, ibc, 129 if ibc else 0, 0, 0)
        self.out[pack + 64:pack + 80] = bytes.fromhex(PATTERNS[lay["op"]])
        struct.pack_into(">II", self.out, pack + 80, lay["containers"], 16)
        if lay["essence"] is not None:
            self.klv(auid("060e2b34-0205-0101-0d01-020101030400"), struct.pack(">HHIQQQQQIQI", 1, 2, lay["kag"], start, 0, 0, 0, 0, 0, 0, 1) + bytes(24), "body")
            self.align()
            if lay["decoy"]:
                # metadata in a later partition
                keep = self.ids
                self.a_set(d["order"][0])
                self.a_set(d["order"][-1])
                key = bytearray(auid("060e2b34-0253-0101-0d01-010101010000"))
                for i in d["order"]:
                    if d["sets"][i]["c"] in ("MasterMob", "SourceMob", "Sequence"):
                        key[14] = KEYS[d["sets"][i]["c"]]
                        self.klv(bytes(key), struct.pack(">HH", 0x3c0a, 16) + keep[i], "decoy")
            self.klv(auid("060e2b34-0102-0101-0d01-030118010100"), bytes(lay["essence"]), "essence")

    def bytes(self):
        return bytes(self.out)


# ---------------------------------------------------------------- what a description describes

SKIP = {"InstanceUID", "GenerationUID", "Foreign", "Odd", "SubDescriptors", "CodecDefinition", "ImageAlignmentOffset", "Locked", "SoundCompression",
        "ContainerFormat", "LinkedPackage"}
# descriptor properties that are carried over
CARRY = {
    "CDCIDescriptor": ("ComponentWidth", "HorizontalSubsampling", "ImageAspectRatio", "StoredWidth", "VideoLineMap", "StoredHeight", "SampleRate", "FrameLayout",
                       "Length", "FrameSampleSize", "ResolutionID", "Compression", "VerticalSubsampling", "SampledWidth", "SampledHeight", "LinkedSlotID"),
    "RGBADescriptor": ("ImageAspectRatio", "StoredWidth", "FrameLayout", "PixelLayout", "VideoLineMap", "StoredHeight", "SampleRate", "Length", "FrameSampleSize",
                       "SampledWidth", "SampledHeight", "Compression", "LinkedSlotID"),
    "PCMDescriptor": ("BlockAlign", "AverageBPS", "Channels", "QuantizationBits", "AudioSamplingRate", "SampleRate", "Length", "LinkedSlotID"),
    "ANCDataDescriptor": ("SampleRate", "Length", "LinkedSlotID"),
    "MultipleDescriptor": ("Length", "SampleRate"), "ImportDescriptor": (), "TapeDescriptor": (),
}


def plain(k, v):
    """(property, described value) -> what the AAF property should hold"""
    fmt = DYNAMIC[k][1] if k in DYNAMIC else TAGS[k][1]
    if fmt == "rat":
        return "%d/%d" % tuple(v)
    if fmt == "time":
        return str(datetime.datetime(*v))
    if fmt == "ddef":
        return v
    if fmt == "map":
        return (list(v) + [0, 0])[:2]
    if fmt == "pix":
        return [[a, b] for a, b in v]
    if fmt == "mobid":
        return v
    if k == "Drop":
        return bool(v)
    return v


def expect(desc, i, path, ama):
    """the object set i describes: {"class", "p": {name: value}, "kids": {name: [objects]}, "urls": [...]}; None: not linked to"""
    s = desc["sets"][i]
    c = CLASS.get(s["c"], s["c"])
    p = s["p"]
    out = {"class": c, "p": {}, "kids": {}}

    def kids(name, keep=lambda x: True):
        out["kids"][name] = [e for e in (expect(desc, j, path, ama) for j in p.get(name, ()) if keep(desc["sets"][j])) if e is not None]

    def take(*names):
        for n in names:
            out["p"][n] = plain(n, p[n]) if n in p else None

    if c in ("MasterMob", "SourceMob"):
        take("MobID", "Name", "UsageCode", "AppCode")
        for n in ("LastModified", "CreationTime"):
            if n in p:
                take(n)
        kids("Slots", lambda x: x["c"] == "TimelineMobSlot")
        kids("UserComments")
        kids("MobAttributeList")
        if "EssenceDescription" in p:
            out["kids"]["EssenceDescription"] = [expect(desc, p["EssenceDescription"], path, ama)]
    elif c == "TimelineMobSlot":
        take("SlotID", "SlotName", "EditRate", "PhysicalTrackNumber", "Origin")
        out["kids"]["Segment"] = [expect(desc, p["Segment"], path, ama)]
    elif c == "Sequence":
        take("DataDefinition", "Length")
        if out["p"]["Length"] is None:
            out["p"]["Length"] = 0
        kids("Components")
    elif c == "SourceClip":
        take("DataDefinition", "Length", "SourceID", "SourceMobSlotID", "StartTime")
    elif c == "Timecode":
        take("DataDefinition", "Length", "FPS", "Drop", "Start")
    elif c == "Filler":
        take("DataDefinition", "Length")
    elif c == "ScopeReference":
        take("DataDefinition", "Length", "RelativeSlot", "RelativeScope")
    elif c == "EssenceGroup":
        take("DataDefinition", "Length")
        kids("Choices")
    elif c == "Pulldown":
        take("DataDefinition", "Length", "PulldownKind", "PulldownDirection", "PhaseFrame")
        out["kids"]["InputSegment"] = [expect(desc, p["InputSegment"], path, ama)]
    elif c == "TaggedValue":
        if p["Value"][0] == "other":
            return None
        out["p"]["Name"] = p["TagName"]
        out["p"]["Value"] = p["Value"][1]
        kids("TaggedValueAttributeList")
    elif c == "NetworkLocator":
        take("URLString")
    else:
        take(*CARRY[c])
        if "Length" in out["p"] and out["p"]["Length"] is None:
            out["p"]["Length"] = 0
        if s["c"] == "MPEG2":
            out["p"]["ResolutionID"] = 4076
        if c == "MultipleDescriptor":
            kids("FileDescriptors")
        # locators: those described (where they are carried over) and some that name the file itself
        out["urls"] = [desc["sets"][j]["p"]["URLString"] for j in p.get("Locator", ())] if c == "CDCIDescriptor" else []
        out["self_url"] = "file://" + path
        out["needs_self"] = c in ("RGBADescriptor", "PCMDescriptor", "MultipleDescriptor", "ImportDescriptor") or ama and c == "CDCIDescriptor"
    return out
