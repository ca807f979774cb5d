"""C14: imported essence is stored byte for byte and exports unchanged."""
import io
import random
from fractions import Fraction

from .. import aafsim, core, media
from ..core import Violation, lib, lib_raises, mix, pattern
from ..disk import simpath

RUNS = {"quick": 600, "thorough": 60000}
WALL_CAP = {"quick": 75, "thorough": 3000}
BATCH = 8
RULE = ("one run = one seeded history of importing synthetic WAVE, DNxHD/DNxHR and raw video sources (any length, rate, channel count, chunk "
        "layout; by path, buffered, unbuffered or in memory) and of writing essence in chunks, into one file over several sessions, mixed with "
        "reads, exports, saves, reopens and collection; sources deliver in small pieces, fail or end early at seeded places; everything imported "
        "before is compared after each step; distinct by event-log digest; non-trivial = at least one import")
STATE_MEASURE = "distinct (kind of source, layout, how it was delivered, outcome)"
ASSUMPTIONS = ["a source that ends inside a frame may be refused or stored without the incomplete frame",
               "what an import that raised leaves behind is not specified, except that nothing else is affected"]
SHRINK = ("ops",)


def setup():
    for ss in (512, 4096):
        aafsim.image(True, ss)


FILE = "e.aaf"
RATES = [1, 7, 25, 100, 999, 1000, 8000, 11025, 32000, 44100, 48000, 96000]
EDIT = ["25", "24", "30", "24000/1001", "30000/1001", "50", "60000/1001", "1", "48000"]
CHUNKS = ["LIST", "JUNK", "bext", "fact", "iXML"]


def gen_extra(rng):
    return [[rng.choice(CHUNKS), rng.choice([0, 1, 4, 7, 26, 602, 5000]), rng.randrange(1000)] for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]


def gen_faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        out.append([rng.choice(["r_eio", "r_eio", "r_short"]), rng.choice([0, 1, 2, 3, rng.randrange(12), rng.randrange(60)]), rng.choice([1, 1, 1000]),
                    rng.randrange(1 << 16)])
    return out


def gen_op(rng):
    k = rng.choices(["wav", "dnx", "raw", "chunks", "export", "read", "save", "reopen", "gc", "again", "offline"],
                    [10, 6, 4, 3, 5, 3, 1.5, 1.5, 1, 1, 1.5])[0]
    op = {"k": k, "seed": rng.getrandbits(32), "pick": rng.getrandbits(16)}
    if k in ("again", "offline"):
        op["what"] = rng.choice(["wav", "dnx"] + (["raw"] if k == "again" else []))
    src = op.get("what", k)
    if src in ("wav", "dnx", "raw"):
        op.update(master=src != "raw" and rng.random() < .5, length=rng.choice([None] * 6 + [1, 3, 1000]), tape=rng.random() < .2,
                  attached=rng.random() < .7, edit=rng.choice(EDIT), cap=rng.choice([None, None, 1, 13, 511, 4096]))
        if rng.random() < .25:
            op["faults"] = gen_faults(rng)
        if rng.random() < .25:
            op["cut"] = rng.choice([rng.random(), rng.random(), 0, 1])
            op["near"] = rng.choice([0, 0, -1, 1, 2, -640, 640, 639])
    if src == "wav":
        op.update(rate=rng.choice(RATES), ch=rng.choice([1, 1, 2, 2, 3, 6, 16]), bits=rng.choice([16, 16, 24, 24, 20, 12, 8, 32]) if rng.random() < .3
                  else rng.choice([16, 24]), fmt=rng.choice([16, 16, 18, 40]), before=gen_extra(rng), after=gen_extra(rng),
                  frames=[rng.choice([0, 0, 1, 1, 2, 3]), rng.choice([0, 0, 0, 1, 1, -1, 5, rng.randrange(3000)])],
                  via=rng.choice(["path", "path", "path", "bytesio", "file", "raw"]), edit=rng.choice([None, None] + EDIT),
                  claim=rng.choice([None] * 8 + ["less", "more", "max"]), odd=rng.choice([0] * 9 + [1, 2]))
    elif src == "dnx":
        hr = rng.random() < .85
        op.update(cid=rng.choice([1270, 1271, 1272, 1273, 1274, 1274]) if hr else rng.choice([1253, 1253, 1252, 1258]),
                  size=rng.choice([[16, 16], [64, 36], [96, 64], [320, 240], [1, 1], [640, 360], [17, 33]]) if hr else rng.choice([[1920, 1080], [1280, 720]]),
                  depth=rng.choice([8, 8, 10, 12]), inter=rng.random() < .3, n=rng.choice([0, 1, 1, 2, 3, 5, 9]) if hr else rng.choice([1, 2, 3]),
                  mixed=rng.random() < .15)
    elif src == "raw":
        lay = rng.choice([[["CompBlue", 8], ["CompGreen", 8], ["CompRed", 8], ["CompAlpha", 8]], [["CompRed", 8], ["CompGreen", 8], ["CompBlue", 8]],
                          [["CompRed", 10], ["CompGreen", 10], ["CompBlue", 10]], [["CompRed", 1]]])
        op.update(layout=lay, size=rng.choice([[1, 1], [3, 5], [64, 32], [64, 64], [100, 41], [33, 62]]), n=rng.choice([0, 1, 2, 3, 7]))
    elif k == "chunks":
        op.update(chunks=[rng.choice([0, 1, 100, 511, 4095, 4096, 4097, 10000, 70000]) for _ in range(rng.choice([1, 2, 5, 10]))])
    elif k == "export":
        op.update(via=rng.choice(["path", "path", "bytesio", "file"]), fault=rng.choice([None] * 5 + ["w_eio", "w_enospc", "w_short"]),
                  after=rng.choice([0, 1, 2, 3, 5, 9]))
    elif k == "read":
        op.update(chunk=rng.choice([1, 7, 512, 4096, 5000, 100000]))
    return op


def generate(rng, tier, index):
    return {"ss": rng.choice([512, 4096]), "ext": True, "buffering": rng.choice([-1, -1, 0, 512]), "cache": rng.choice([None] * 8 + [1, 4]), "fresh": rng.random() < .1,
            "gc_mean": rng.choice([None, None, 3000]), "ops": [gen_op(rng) for _ in range(rng.choice([1, 2, 4, 8, 14]))]}


class Entry(object):
    pass


class Run(object):
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.entries = []
        self.f = None
        self.nsrc = 0
        self.states = set()
        self.imports = 0
        w.disk.fault_scope = "-"

    def open(self, mode):
        a = core.aaf2
        p = self.plan
        kw = {"buffering": p["buffering"]}
        if mode == "w":
            kw["sector_size"] = p["ss"]
        self.f = lib("open", a.open, simpath(FILE), mode, extensions=p["ext"], **kw)

    def close(self):
        lib("close", self.f.close)
        self.f = None

    # -------------------------------------------------------------- sources
    def wav(self, op):
        width = (op["bits"] + 7) // 8
        n = max(0, op["frames"][0] * op["rate"] + op["frames"][1])
        fs = op["ch"] * width
        n = min(n, 400000 // fs)
        data = pattern(op["seed"], n * fs + op["odd"])
        claim, riff = None, None
        if op["claim"] == "max":
            claim = riff = 0xFFFFFFFF
        elif op["claim"] == "more":
            claim = len(data) + 1 + op["seed"] % 5000
            riff = claim + 20000
        elif op["claim"] == "less":
            claim = op["seed"] % (len(data) + 1)
        mk = lambda l: [(c.encode(), pattern(t, s)) for c, s, t in l]
        after = mk(op["after"]) if claim is None else []
        img, off = media.wav(op["rate"], op["ch"], op["bits"], data, op["fmt"], mk(op["before"]), after, claim, riff)
        told = len(data) if claim is None else claim
        end = len(img)
        if "cut" in op:
            end = max(0, min(end, off + int(op["cut"] * len(data)) + op["near"]))
            img = img[:end]
        got = img[off:off + told]
        e = Entry()
        e.kind = "audio"
        e.frame = fs
        e.whole = len(got) // fs
        e.data = got[:e.whole * fs]
        e.all = got
        e.early = len(got) < told or len(got) % fs > 0
        e.refusable = end < off or width not in (2, 3)
        e.count = told // fs if op["k"] == "offline" else e.whole
        ed = Fraction(op["edit"]) if op["edit"] else Fraction(op["rate"])
        e.edit = ed
        e.slot_length = op["length"] or int(e.count * ed / op["rate"])
        e.meta = {"Channels": op["ch"], "BlockAlign": fs, "SampleRate": Fraction(op["rate"]), "AudioSamplingRate": Fraction(op["rate"]),
                  "QuantizationBits": width * 8, "Length": e.count, "AverageBPS": op["rate"] * fs}
        e.wav = (op["rate"], op["ch"], width * 8)
        e.cls = "PCMDescriptor"
        e.media = "Sound"
        return e, img

    def dnx(self, op):
        w, h = op["size"]
        frames = []
        for i in range(op["n"]):
            cid = op["cid"]
            if op["mixed"] and i and cid in media.HR:
                cid = 1270 + (op["seed"] + i) % 5
            frames.append(media.dnx_frame(cid, w, h, op["depth"], op["inter"], op["seed"] + i))
        e = Entry()
        img = b"".join(frames)
        if "cut" in op:
            at = int(op["cut"] * len(img))
            if op["near"] and frames:
                # around a frame boundary
                ends = [0]
                for x in frames:
                    ends.append(ends[-1] + len(x))
                at = min(ends, key=lambda x: abs(x - at)) + op["near"]
            img = img[:max(0, at)]
        n = pos = 0
        while n < len(frames) and pos + len(frames[n]) <= len(img):
            pos += len(frames[n])
            n += 1
        e.kind = "dnx"
        e.whole = n
        e.data = img[:pos]
        e.all = img
        e.early = pos < len(img)
        e.refusable = n == 0
        e.count = n
        e.edit = Fraction(op["edit"])
        e.slot_length = op["length"] or n
        e.meta = {"StoredWidth": w, "StoredHeight": h, "ComponentWidth": op["depth"], "FrameLayout": "SeparateFields" if op["inter"] else "FullFrame",
                  "ImageAspectRatio": "%d/%d" % (w, h), "FrameSampleSize": media.dnx_size(op["cid"], w, h), "Compression": media.compression(op["cid"]),
                  "HorizontalSubsampling": 2, "SampleRate": e.edit, "Length": n, "CodecDefinition": media.CODEC_DNX}
        e.cls = "CDCIDescriptor"
        e.media = "Picture"
        return e, img

    def raw(self, op):
        w, h = op["size"]
        bits = sum(s for _, s in op["layout"])
        raw = (bits * w * h + 7) // 8
        frame = (raw + 8191) // 8192 * 8192
        img = b"".join(pattern(op["seed"] + i, raw) for i in range(op["n"]))
        if "cut" in op:
            img = img[:max(0, int(op["cut"] * op["n"]) * raw + op["near"])] if op["near"] else img[:int(op["cut"] * len(img))]
        e = Entry()
        e.kind = "raw"
        e.whole = e.count = len(img) // raw
        e.data = b"".join(img[i * raw:i * raw + raw] + bytes(frame - raw) for i in range(e.whole))
        e.all = e.data
        e.early = len(img) % raw > 0
        e.refusable = False
        e.edit = Fraction(op["edit"])
        e.slot_length = e.count
        e.meta = {"StoredWidth": w, "StoredHeight": h, "FrameSampleSize": frame, "ImageSize": frame * e.count, "Length": e.count, "SampleRate": e.edit,
                  "ImageAlignmentFactor": 8192, "FrameLayout": "FullFrame", "ImageAspectRatio": "%d/%d" % (w, h),
                  "PixelLayout": [{"Code": c, "Size": s} for c, s in op["layout"]]}
        e.cls = "RGBADescriptor"
        e.media = "Picture"
        return e, img

    # -------------------------------------------------------------- imports
    def do_import(self, op, mob=None, online=True):
        what = op.get("what", op["k"])
        e, img = getattr(self, what)(op)
        f, d = self.f, self.w.disk
        name = "src%d" % self.nsrc
        self.nsrc += 1
        d.put(name, img)
        via = op.get("via", "path")
        tape = None
        master = op["master"] and mob is None
        if op["tape"]:
            t = lib("tape mob", f.create.SourceMob, "tape%d" % self.nsrc)
            lib("tape slots", t.create_tape_slots, "tape", 25, 25, media_kind="picture" if what != "wav" else "sound")
            lib("append", f.content.mobs.append, t)
            tape = lib("clip", t.create_source_clip, 1, start=5, length=10)
            e.tape = t.mob_id
        else:
            e.tape = None
        if mob is None:
            mob = lib("mob", f.create.MasterMob if master else f.create.SourceMob, "m%d" % self.nsrc)
            if op["attached"] or master:
                lib("append", f.content.mobs.append, mob)
        before = set(m.mob_id for m in f.content.mobs) if master else None
        edit = op["edit"]
        if edit is not None:
            edit = core.aaf2.rational.AAFRational(edit) if op["seed"] % 2 or what == "wav" else edit
            if op["edit"].isdigit() and op["seed"] % 3 == 0:
                edit = int(op["edit"])
        d.fault_scope = name
        if op["cap"] and len(img) // op["cap"] < 20000:
            d.max_read = op["cap"]
        for x in op.get("faults", ()):
            d.arm(*x)
        fired0 = d.fired.get("r_eio", 0)
        fp = None
        try:
            if via == "bytesio":
                fp = src = io.BytesIO(img)
            elif via in ("file", "raw"):
                fp = src = d.open(simpath(name), "rb", 0 if via == "raw" else -1)
            else:
                src = simpath(name)
            if what == "wav":
                slot = mob.import_audio_essence(src, edit, tape, op["length"], not online)
            elif what == "dnx":
                slot = mob.import_dnxhd_essence(src, edit, tape, op["length"], not online)
            else:
                slot = mob.import_rawvideo_essence(src, edit, op["size"][0], op["size"][1], [{"Code": c, "Size": s} for c, s in op["layout"]], tape)
            raised = None
        except Exception as x:
            # an exception of the source comes through the library or the interpreter's wave module
            raised = x
        finally:
            d.disarm()
            d.fault_scope = "-"
        failed = d.fired.get("r_eio", 0) - fired0
        if fp is not None and via != "bytesio":
            fp.close()
        del d.files[name]
        self.w.log("import", what, via, None if raised is None else type(raised).__name__, failed)
        layout = (what, via, op.get("fmt"), len(op.get("before", ())), master, bool(op["tape"]), op["cap"])
        if raised is not None:
            if not (failed or e.early or e.refusable or via == "raw" and (op["cap"] or op.get("faults"))):
                raise Violation("import-refused", "%s of %d bytes (%s), no fault: %s: %s in %s" % (what, len(img), {k: v for k, v in op.items() if k not in ("seed", "pick")},
                                type(raised).__name__, raised, core.where(raised)))
            self.w.probe("imports that raised: %s" % ("failed source" if failed else "early end" if e.early else "refused"))
            self.states.add(layout + ("raised",))
            # what a program does with the remains
            for m in ([mob] if not master else [mob] + [m for m in list(f.content.mobs) if m.mob_id not in before and m.mob_id != mob.mob_id]):
                if m.mob_id in f.content.essencedata:
                    lib("remove essence", f.content.essencedata.pop, m.mob_id)
                if m.mob_id in f.content.mobs:
                    lib("remove mob", f.content.mobs.pop, m.mob_id)
            return None
        self.imports += 1
        self.w.probe("imports %s%s" % (what, " early end" if e.early else ""))
        if failed:
            self.w.probe("imports complete despite a failed read")
        self.states.add(layout + ("stored", e.early))
        if master:
            e.master = mob.mob_id
            e.master_slot = slot.slot_id
            ids = [c for c in (m.mob_id for m in f.content.mobs) if c not in before]
            if len(ids) != 1 or slot.segment.mob_id != ids[0]:
                raise Violation("wrong-import", "the master mob's clip does not refer to the new source mob")
            e.mob_id = ids[0]
        else:
            e.master = None
            e.mob_id = mob.mob_id
            if not op["attached"]:
                lib("append", f.content.mobs.append, mob)
        e.online = online
        if not online:
            e.data = e.all = None
        self.entries.append(e)
        self.check(e, "after the import")
        return e

    def op_wav(self, op):
        self.do_import(op)

    op_dnx = op_raw = op_wav

    def op_offline(self, op):
        self.do_import(op, online=False)

    def op_again(self, op):
        """a source mob has one essence: a second import is refused and changes nothing"""
        es = [e for e in self.entries if e.meta is not None]
        if not es:
            return
        e = es[op["pick"] % len(es)]
        mob = self.f.content.mobs.get(e.mob_id)
        what = op["what"]
        _, img = getattr(self, what)(op)
        self.w.disk.put("again", img)
        a = simpath("again")
        if what == "raw":
            lib_raises("second import", mob.import_rawvideo_essence, a, "25", op["size"][0], op["size"][1], [{"Code": c, "Size": s} for c, s in op["layout"]])
        else:
            lib_raises("second import", mob.import_audio_essence if what == "wav" else mob.import_dnxhd_essence, a, 25)
        del self.w.disk.files["again"]
        self.w.probe("second imports refused")

    def op_chunks(self, op):
        f = self.f
        mob = lib("mob", f.create.SourceMob, "c")
        lib("append", f.content.mobs.append, mob)
        ed, slot = lib("create essence", mob.create_essence, 25, "sound")
        d = f.create.PCMDescriptor()
        for k, v in (("Channels", 1), ("BlockAlign", 2), ("SampleRate", 48000), ("AverageBPS", 96000), ("QuantizationBits", 16), ("AudioSamplingRate", 48000),
                     ("Length", 1)):
            d[k].value = v
        mob.descriptor = d
        slot.segment.length = 1
        s = lib("open essence", ed.open, "w")
        data = b""
        for i, n in enumerate(op["chunks"]):
            x = pattern(op["seed"] + i, n)
            lib("write", s.write, x)
            data += x
        e = Entry()
        e.kind, e.data, e.all, e.early, e.meta, e.mob_id, e.online, e.master, e.tape = "chunks", data, data, False, None, mob.mob_id, True, None, None
        e.edit, e.slot_length, e.media, e.whole = Fraction(25), None, "Sound", None
        self.entries.append(e)
        self.w.probe("essence written in chunks")

    # -------------------------------------------------------------- reading back
    def check(self, e, where, chunk=None):
        f = self.f
        mob = lib("find mob", f.content.mobs.get, e.mob_id)
        if mob is None:
            raise Violation("wrong-import", "%s: the source mob is gone" % where)
        slot = lib("slot", mob.slot_at, 1)
        if Fraction(slot.edit_rate) != e.edit:
            raise Violation("wrong-rate", "%s: edit rate %s, is %s" % (where, slot.edit_rate, e.edit))
        if slot.segment.media_kind != e.media:
            raise Violation("wrong-import", "%s: media kind %s, is %s" % (where, slot.segment.media_kind, e.media))
        if e.slot_length is not None and slot.segment.length != e.slot_length:
            raise Violation("wrong-length", "%s: %s import of %s frames at rate %s: slot length %s, is %s" % (
                where, e.kind, e.count, e.edit, slot.segment.length, e.slot_length))
        if e.tape is not None and slot.segment.mob_id != e.tape:
            raise Violation("wrong-import", "%s: the slot does not refer to the tape" % where)
        if e.master is not None:
            m = lib("find master", f.content.mobs.get, e.master)
            s = lib("slot", m.slot_at, e.master_slot)
            c = s.segment
            if (c.mob_id, c.slot_id, c.length, c.start, Fraction(s.edit_rate)) != (e.mob_id, 1, e.slot_length, 0, e.edit):
                raise Violation("wrong-import", "%s: master clip %s" % (where, (str(c.mob_id), c.slot_id, c.length, c.start, s.edit_rate)))
        if e.meta is not None:
            d = lib("descriptor", lambda: mob.descriptor)
            if type(d).__name__ != e.cls:
                raise Violation("wrong-import", "%s: descriptor %s" % (where, d))
            for k, v in e.meta.items():
                x = lib("read %s" % k, lambda: d[k].value)
                if k == "CodecDefinition":
                    x = str(x.auid)
                elif k == "Compression":
                    x = str(x)
                elif k == "ImageAspectRatio":
                    x = "%d/%d" % (x.numerator, x.denominator)
                elif k == "PixelLayout":
                    x = [y for y in x if y["Size"] or y["Code"] != "CompNull"]
                if x != v:
                    raise Violation("wrong-metadata" if k not in ("Length", "ImageSize") else "wrong-length",
                                    "%s: %s of %s is %r, source has %r" % (where, k, e.kind, x, v))
        ess = lib("essence", lambda: mob.essence)
        if not e.online:
            if ess is not None:
                raise Violation("wrong-import", "%s: an offline import has essence" % where)
            return
        s = lib("open essence", ess.open, "r")
        if chunk is None:
            b = bytes(lib("read essence", s.read))
        else:
            out = []
            while True:
                x = lib("read essence", s.read, chunk)
                if not x:
                    break
                out.append(bytes(x))
            b = b"".join(out)
        self.same(e, b, where)

    def same(self, e, b, where):
        if b != e.data:
            i = next((i for i, (x, y) in enumerate(zip(b, e.data)) if x != y), min(len(b), len(e.data)))
            raise Violation("wrong-essence", "%s: %s essence has %d bytes, source delivered %d complete frames in %d bytes, first difference at %d" % (
                where, e.kind, len(b), e.whole if e.whole is not None else -1, len(e.data), i))

    def op_read(self, op):
        for e in self.entries:
            if not e.online or len(e.data) // op["chunk"] < 20000:
                self.check(e, "read in pieces", op["chunk"])

    def op_export(self, op):
        es = [e for e in self.entries if e.kind == "audio" and e.online]
        if not es:
            return
        e = es[op["pick"] % len(es)]
        mob = self.f.content.mobs.get(e.mob_id)
        d = self.w.disk
        name = "out%d" % self.nsrc
        fault = op["fault"] if op["via"] != "bytesio" else None
        fired0 = sum(d.fired.values())
        if op["via"] == "bytesio":
            fp = dst = io.BytesIO()
        elif op["via"] == "file":
            fp = dst = d.open(simpath(name), "wb+")
        else:
            fp, dst = None, simpath(name)
        d.fault_scope = name
        if fault:
            d.arm(fault, op["after"], 1 if fault == "w_short" else 1000, op["seed"])
        try:
            mob.export_audio(dst)
            if op["via"] == "file":
                fp.close()
            raised = None
        except Exception as x:
            raised = x
        finally:
            d.disarm()
            d.fault_scope = "-"
        if raised is not None:
            if sum(d.fired.values()) == fired0:
                raise Violation("export-failed", "export of %d frames: %s: %s in %s" % (e.whole, type(raised).__name__, raised, core.where(raised)))
            self.w.probe("exports that raised")
            try:
                if fp is not None:
                    fp.close()
            except Exception:
                pass
            return
        b = dst.getvalue() if op["via"] == "bytesio" else d.get(name)
        try:
            got = media.parse_wav(b)
        except Exception as x:
            raise Violation("bad-export", "export of %d frames: %s" % (e.whole, x))
        if got[:3] != e.wav:
            raise Violation("wrong-metadata", "exported rate, channels, bits %s, source has %s" % (got[:3], e.wav))
        self.same(e, got[3], "exported")
        self.w.probe("exports")

    def op_save(self, op):
        lib("save", self.f.save)

    def op_reopen(self, op):
        self.close()
        self.open("rw")

    def op_gc(self, op):
        self.w.gc()

    def all(self, where):
        for e in self.entries:
            self.check(e, where)


def execute(plan, keep_log=False):
    with core.world(plan["seed"], cache_size=plan["cache"], keep_log=keep_log, gc_mean=plan["gc_mean"]) as w:
        r = Run(w, plan)
        if plan["fresh"]:
            r.open("w")
        else:
            w.disk.put(FILE, aafsim.image(plan["ext"], plan["ss"]).data)
            r.open("rw")
        n = 0
        for op in plan["ops"]:
            w.log("op", op["k"])
            w.ops += 1
            w.advance(1)
            n += 1
            getattr(r, "op_" + op["k"])(op)
            r.all("after %s" % op["k"])
        r.close()
        a = aafsim.read_image(w.disk.get(FILE), True, None, plan["ext"])
        m = aafsim.from_reader(a)
        content = m.props["Header"][1].props["Content"][1]
        stored = {k: o.props["Data"] for k, o in content.props.get("EssenceData", (None, {}))[1].items()}
        for e in r.entries:
            if e.online:
                got = stored.get("M:" + bytes(e.mob_id.bytes_le).hex())
                if got is None:
                    raise Violation("wrong-essence", "closed file: no essence for an import")
                r.same(e, bytes(got[1]), "closed file")
        r.open("r")
        r.all("after reopen")
        r.close()
        st = {"probes": w.probes, "faults": w.disk.fired, "operations": n, "raw_io": dict(w.disk.counts), "gc_points": w.gc_points,
              "steps_in_code_under_test": core.STEPS.n, "simulated_seconds": w.sim_seconds, "raw_bytes_written": w.disk.bytes_written,
              "raw_bytes_read": w.disk.bytes_read}
        return {"digest": w.log.digest(), "stats": st, "states": sorted(repr(s) for s in r.states), "nontrivial": r.imports > 0,
                "sample": {"seed": plan["seed"], "ops": plan["ops"][:3]}, "log": w.log.lines if keep_log else None}
