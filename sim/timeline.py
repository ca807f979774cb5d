"""Timelines: compositions, clips, chains of source references, keyframes; what the query and editing calls of the API
say about them, computed a second time from the model of the object graph."""
import random
import uuid

from . import aafsim, aaftypes, core, faulty
from .aafsim import MO, DAY12
from .aaftypes import akey, gen_mobid
from .core import Violation, lib, lib_raises

NULL = "M:" + "00" * 32
TOP = "Usage_TopLevel"
PARAM = "8d56813d-847e-11d5-935a-50f857c1c%03x"
INTERP = {"5b6c85a5-0ede-11d3-80a9-006008143e6f": "constant", "5b6c85a4-0ede-11d3-80a9-006008143e6f": "linear"}
RATES = [(25, ["R", 25, 1]), (24, ["R", 24, 1]), ("30000/1001", ["R", 30000, 1001]), (48000, ["R", 48000, 1])]
LOOKUPS = {"DataDefinitions": "lookup_datadef", "ContainerDefinitions": "lookup_containerdef", "CodecDefinitions": "lookup_codecdef",
           "ParameterDefinitions": "lookup_parameterdef", "OperationDefinitions": "lookup_operationdef",
           "InterpolationDefinitions": "lookup_interperlationdef", "TaggedValueDefinitions": "lookup_taggedvaluedef"}
MAX_OBJ = 380


class Unknown(Exception):
    """the document says nothing definite here (a length is missing, a class is only defined in the file)"""


class TimelineSession(aafsim.Session):
    segment = None
    children = None

    # ------------------------------------------------------------ the model
    def val(self, mo, n, default=None):
        return mo.props[n][1] if n in mo.props else default

    def pycls(self, mo):
        return self.T.classes[mo.cls]["py"]

    def mobs(self):
        return self.content().props.get("Mobs", [0, {}])[1]

    def slots(self, mo):
        return self.val(mo, "Slots", [])

    def media(self, mo):
        """media kind of a component"""
        if "DataDefinition" not in mo.props:
            return None
        d = self.dictionary().props["DataDefinitions"][1].get(mo.props["DataDefinition"][1])
        if d is None:
            raise Unknown()
        n = self.val(d, "Name")
        return self.short(n) if n else None

    def length(self, mo):
        n = self.val(mo, "Length")
        if n is None or self.pycls(mo) == "AAFObject":
            raise Unknown()
        return n

    def slot_length(self, slot):
        p = self.pycls(slot)
        if p == "AAFObject":
            raise Unknown()
        if p != "TimelineMobSlot":
            return 0
        seg = self.val(slot, "Segment")
        if seg is None:
            raise Unknown()
        if seg.cls == "Sequence":
            return sum(-self.length(c) if c.cls == "Transition" else self.length(c) for c in self.val(seg, "Components", []))
        if seg.cls == "NestedScope":
            return max([0] + [self.length(c) for c in self.val(seg, "Slots", [])])
        return self.length(seg)

    def positions(self, seq):
        """[(position, component)]: a transition overlaps what is before and after it"""
        out = []
        at = 0
        for c in self.val(seq, "Components", []):
            n = self.length(c)
            if c.cls == "Transition":
                at -= n
                out.append((at, c))
            else:
                out.append((at, c))
                at += n
        return out

    def index_at(self, seq, t):
        """the transition covering t if there is one, else the component that is playing at t (the first before the
        beginning, the last after the end)"""
        pos = self.positions(seq)
        comps = [c for _, c in pos]
        if not comps:
            raise Unknown()
        for i, c in enumerate(comps):
            if c.cls == "Transition":
                # the meaning is clear when no transition is longer than its neighbours allow
                before = sum(self.length(x) for x in comps[max(i - 1, 0):i])
                after = sum(self.length(x) for x in comps[i + 1:i + 2])
                for j in (i - 2, i + 2):
                    if 0 <= j < len(comps) and comps[j].cls == "Transition":
                        k = i - 1 if j < i else i + 1
                        if self.length(comps[k]) < self.length(c) + self.length(comps[j]):
                            raise Unknown()
                n = self.length(c)
                if i == 0 or i == len(comps) - 1 or comps[i - 1].cls == "Transition" or comps[i + 1].cls == "Transition" or \
                        n > before or n > after or n < 0:
                    raise Unknown()
            elif self.length(c) < 0:
                raise Unknown()
        if t <= 0 and (self.length(comps[0]) == 0 or any(c.cls == "Transition" and at <= 0 for at, c in pos)):
            raise Unknown()
        for i, (at, c) in enumerate(pos):
            if c.cls == "Transition" and at <= t < at + self.length(c):
                return i
        for i, (at, c) in enumerate(pos):
            if c.cls != "Transition" and at <= t < at + self.length(c):
                return i
        if t <= 0:
            return 0
        return len(comps) - 1

    def ref_mob(self, clip):
        return self.mobs().get(self.val(clip, "SourceID"))

    def slot_at(self, mob, i):
        for s in self.slots(mob):
            if self.val(s, "SlotID") == i:
                return s
        return None

    def ref_slot(self, clip):
        """the slot a clip refers to; None when it refers to no mob of the file; "raise" when the mob lacks the slot"""
        m = self.ref_mob(clip)
        n = self.val(clip, "SourceMobSlotID")
        if m is None or n is None or self.val(clip, "SourceID") == NULL:
            return None
        return self.slot_at(m, n) or "raise"

    def walk_model(self, clip):
        """([segments], ends with an exception)"""
        out = []
        seen = []
        while clip is not None and not any(clip is x for x in seen):
            seen.append(clip)
            slot = self.ref_slot(clip)
            if slot is None:
                return out, False
            if slot == "raise":
                return out, True
            seg = self.val(slot, "Segment")
            if seg is None:
                return out, True
            nxt = None
            p = self.pycls(seg)
            if p == "SourceClip":
                out.append(seg)
                nxt = seg
            elif p == "Sequence":
                st = self.val(clip, "StartTime")
                if st is None:
                    raise Unknown()
                c = self.val(seg, "Components")[self.index_at(seg, st)]
                if self.pycls(c) != "SourceClip":
                    return out, True
                out.append(c)
                nxt = c
            elif p in ("EssenceGroup", "Filler", "OperationGroup", "Pulldown"):
                out.append(seg)
            elif p == "AAFObject":
                raise Unknown()
            else:
                return out, True
            clip = nxt
        return out, False

    def direct(self, mob):
        """keys of the mobs a mob refers to"""
        out = []
        for m in mob.walk():
            if self.pycls(m) == "SourceClip":
                k = self.val(m, "SourceID")
                if k in self.mobs() and k != NULL and k not in out:
                    out.append(k)
            elif "SourceReference" in self.T.chain(m.cls):
                raise Unknown()
        return out

    def closure(self, mob):
        """what a mob depends on -> ({key: [keys]}, cyclic)"""
        me = mob.props["MobID"][1]
        edges = {}
        todo = [me]
        while todo:
            k = todo.pop()
            if k not in edges:
                edges[k] = self.direct(self.mobs()[k])
                todo.extend(edges[k])
        left = dict(edges)
        while True:
            free = [k for k, v in left.items() if not any(x in left for x in v)]
            if not free:
                break
            for k in free:
                del left[k]
        return edges, bool(left)

    # ------------------------------------------------------------ making objects
    def fill(self, mo, p, rng, depth):
        if p["name"] == "Segment" and self.segment is not None:
            k, self.segment = self.segment, None
            self.assign(mo.py, mo, "Segment", "s", [k], rng)
        elif self.children is not None and p["name"] in ("Components", "Slots", "Choices", "InputSegments", "Alternates"):
            k, self.children = self.children, None
            self.assign(mo.py, mo, p["name"], "V", k, rng)
        else:
            super(TimelineSession, self).fill(mo, p, rng, depth)

    def mk(self, cls, rng, **vals):
        mo = self.build(cls, rng, 3, 0)
        self.children = None
        for n, v in vals.items():
            self.put_data(mo.py, mo, n, self.ptype(cls, n), v, rng)
        return mo

    def holder(self, cls, n, kids, rng):
        """a segment with the given segments in it"""
        self.children = kids
        mo = self.mk(cls, rng)
        if self.val(mo, n, []) != kids:
            self.assign(mo.py, mo, n, "V", kids, rng)
        return mo

    def pick_slot(self, rng):
        c = [(k, s) for k, m in sorted(self.mobs().items()) for s in self.slots(m) if isinstance(self.val(s, "SlotID"), int)]
        return rng.choice(c) if c else None

    def clip(self, rng, length=None):
        """a source clip that refers to something (or to nothing)"""
        r = rng.random()
        t = self.pick_slot(rng)
        if r < .08 or t is None:
            key, sid = NULL, 0
        elif r < .14:
            key, sid = gen_mobid(rng), 1
        elif r < .18:
            key, sid = t[0], 77
        else:
            key, sid = t[0], t[1].props["SlotID"][1]
        start = self.start_in(t and t[1], rng)
        return self.mk("SourceClip", rng, SourceID=key, SourceMobSlotID=sid, StartTime=start,
                       Length=rng.choice([0, 1, 5, 10, 10, 30]) if length is None else length)

    def start_in(self, slot, rng):
        marks = [0]
        seg = slot is not None and self.val(slot, "Segment")
        if seg and seg.cls == "Sequence":
            try:
                for at, c in self.positions(seg):
                    marks += [at, at + self.length(c)]
            except Unknown:
                pass
        v = rng.choice(marks) + rng.choice([0, 0, 0, -1, 1, rng.randrange(20)])
        return min(max(v, 0), 1 << 40)

    def leaf(self, rng, length=None):
        k = rng.choice(["clip", "clip", "clip", "Filler", "Filler", "Timecode"])
        if k == "clip":
            return self.clip(rng, length)
        return self.mk(k, rng, Length=rng.choice([0, 1, 7, 20]) if length is None else length)

    def sequence(self, rng):
        kids = []
        for i in range(rng.choice([1, 2, 2, 3, 4, 6])):
            # long enough for a transition at both ends
            kids.append(self.leaf(rng, rng.choice([10, 12, 20, 0] if i else [10, 12, 20])))
            if rng.random() < .25:
                kids.append(self.mk("Transition", rng, Length=rng.choice([1, 4, 5]), CutPoint=2))
        if kids[-1].cls == "Transition":
            kids.append(self.leaf(rng, 20))
        return self.holder("Sequence", "Components", kids, rng)

    def seg(self, rng):
        r = rng.random()
        if r < .4:
            return self.sequence(rng)
        if r < .7:
            return self.leaf(rng)
        if r < .8:
            return self.holder("NestedScope", "Slots", [self.leaf(rng) for _ in range(rng.randrange(4))], rng)
        if r < .9:
            return self.holder("EssenceGroup", "Choices", [self.clip(rng) for _ in range(rng.randrange(1, 3))], rng)
        g = self.mk("OperationGroup", rng)
        if rng.random() < .7:
            self.assign(g.py, g, "InputSegments", "V", [self.leaf(rng)], rng)
        return g

    def new_slot(self, rng, sid):
        self.segment = self.seg(rng)
        cls = rng.choice(["TimelineMobSlot"] * 5 + ["EventMobSlot", "StaticMobSlot"])
        return self.mk(cls, rng, SlotID=sid)

    def roomy(self):
        self.pool = self.pool[-12:]
        return len(self.user()) < min(self.limit, MAX_OBJ)

    def op_chain(self, k1, k2, rng):
        """a new mob whose slots refer to what is there"""
        if not self.roomy():
            return False
        mo = self.mk(rng.choice(["MasterMob", "CompositionMob", "CompositionMob", "SourceMob"]), rng)
        ids = [i for i in (1, 2, 3, 9) if rng.random() < .6] or [1]
        if rng.random() < .1:
            ids.append(ids[0])
        self.assign(mo.py, mo, "Slots", "V", [self.new_slot(rng, i) for i in ids], rng)
        if rng.random() < .4:
            self.put_data(mo.py, mo, "UsageCode", self.ptype(mo.cls, "UsageCode"), rng.choice([TOP, TOP, "Usage_LowerLevel", "Usage_SubClip"]), rng)
        lib("append mob", self.f.content.mobs.append, mo.py)
        c = self.content()
        c.props.setdefault("Mobs", ["S", {}])[1][mo.props["MobID"][1]] = mo
        mo.owner = (c, "Mobs")
        self.settle(mo, rng)
        self.w.probe("mobs made")

    def op_dropmob(self, k1, k2, rng):
        m = self.mobs()
        if len(m) < 3:
            return False
        key = sorted(m)[k1 % len(m)]
        mo = m[key]
        self.grab([mo])
        pr = self.f.content.mobs
        if k2 % 2:
            lib("mobs.pop", pr.pop, self.lib.key(key))
        else:
            rest = [self.py(x) for x in m.values() if x is not mo]
            lib("mobs.value =", setattr, pr, "value", rest)
        del m[key]
        self.release([mo])

    def clips(self):
        return [m for m in self.user() if self.pycls(m) == "SourceClip" and self.attached(m)]

    def op_aim(self, k1, k2, rng):
        """point a clip somewhere else, or start it elsewhere"""
        c = self.clips()
        t = self.pick_slot(rng)
        if not c or t is None:
            return False
        mo = c[k1 % len(c)]
        o = self.py(mo)
        key, slot = t
        if k2 % 3 == 0:
            v = self.start_in(slot, rng)
            lib("clip.start =", setattr, o, "start", v)
            mo.props["StartTime"] = ["data", v]
            return
        if k2 % 5 == 0:
            lib("clip.mob_id =", setattr, o, "mob_id", self.lib.key(NULL))
            mo.props["SourceID"] = ["data", NULL]
            return
        lib("clip.mob =", setattr, o, "mob", self.py(self.mobs()[key]))
        mo.props["SourceID"] = ["data", key]
        lib("clip.slot =", setattr, o, "slot", self.py(slot))
        mo.props["SourceMobSlotID"] = ["data", slot.props["SlotID"][1]]

    def op_usage(self, k1, k2, rng):
        m = self.mobs()
        if not m:
            return False
        mo = m[sorted(m)[k1 % len(m)]]
        v = rng.choice([TOP, TOP, "Usage_LowerLevel", "Usage_Template", None])
        if v is None and "UsageCode" not in mo.props:
            return False
        lib("usage =", setattr, self.py(mo), "usage", v)
        if v is None:
            mo.props.pop("UsageCode")
        else:
            mo.props["UsageCode"] = ["data", v]

    def op_cut(self, k1, k2, rng):
        """edit a sequence"""
        c = [m for m in self.user() if m.cls == "Sequence" and self.attached(m) and "Components" in m.props]
        if not c or not self.roomy():
            return False
        mo = c[k1 % len(c)]
        comps = mo.props["Components"][1]
        p = lib("components", lambda: self.py(mo).components)
        kind = ["append", "insert", "replace", "del", "trim", "trim"][k2 % 6]
        if kind in ("append", "insert", "replace") or not comps:
            k = self.leaf(rng, rng.choice([10, 12, 20]))
            i = rng.randrange(len(comps) + 1)
            if kind == "insert":
                lib("components.insert", p.insert, i, k.py)
                comps.insert(i, k)
            elif kind == "replace" and comps:
                i = min(i, len(comps) - 1)
                self.grab([comps[i]])
                lib("components[i] =", p.__setitem__, i, k.py)
                old, comps[i] = comps[i], k
                self.release([old])
            else:
                lib("components.append", p.append, k.py)
                comps.append(k)
            k.owner = (mo, "Components")
            self.settle(k, rng)
        elif kind == "del":
            i = rng.randrange(len(comps))
            self.grab([comps[i]])
            lib("components.pop", p.pop, i)
            self.release([comps.pop(i)])
        else:
            k = rng.choice(comps)
            if self.pycls(k) == "AAFObject":
                return False
            v = rng.choice([5, 10, 11, 20, 33])
            lib("length =", setattr, self.py(k), "length", v)
            k.props["Length"] = ["data", v]

    def op_create(self, k1, k2, rng):
        """the create_ calls of mobs"""
        if not self.roomy():
            return False
        kind = ["timecode", "tape", "essence", "empty", "clip", "clip", "clip"][k2 % 7]
        m = self.mobs()
        c = [m[k] for k in sorted(m) if kind == "clip" or m[k].cls == "SourceMob"]
        if not c:
            return False
        mo = c[k1 % len(c)]
        o = self.py(mo)
        slots = self.slots(mo)
        ids = [self.val(s, "SlotID") for s in slots]
        rate, rnorm = rng.choice(RATES)
        self.w.probe("create " + kind)
        if kind == "clip":
            if not slots:
                lib_raises("create_source_clip of a slot that is not there", o.create_source_clip, 5)
                return
            s = rng.choice(slots)
            sid = self.val(s, "SlotID")
            s = self.slot_at(mo, sid)
            start = rng.choice([None, 0, 3, rng.randrange(60)])
            length = rng.choice([None, None, None, 9])
            try:
                want = length or max(self.slot_length(s) - (start or 0), 0)
                seg = self.val(s, "Segment")
                if seg is None or self.pycls(seg) == "AAFObject" or sid is None or not isinstance(self.media(seg), str) or want > 1 << 60:
                    return False
                media = self.media(seg)
            except Unknown:
                return False
            r = lib("create_source_clip", o.create_source_clip, sid, start, length)
            k = MO("SourceClip")
            k.new = True
            k.py = r
            self.defaults(k, {"start": start, "length": want, "mob_id": mo.props["MobID"][1], "slot_id": sid})
            self.take_media(k, media)
            self.pool.append(k)
            self.check(k, "new source clip")
            return
        if kind in ("tape", "essence") and 1 in ids:
            return False
        free = 1
        while free in ids:
            free += 1
        kids = []

        def slot(r, sid, seg, edit=rnorm):
            k = MO("TimelineMobSlot", (mo, "Slots"))
            k.new = True
            k.py = r
            self.defaults(k, {"slot_id": sid})
            k.props["EditRate"] = ["data", edit]
            k.props["Segment"] = ["s", seg]
            seg.owner = (k, "Segment")
            seg.new = True
            slots.append(k)
            kids.append(k)

        def new(cls, media, **kw):
            q = MO(cls)
            self.defaults(q, kw)
            q.py = None
            q.props["DataDefinition"] = ["w", media]
            return q

        fps = rng.choice([24, 25, 30])
        drop = rng.random() < .5
        ln = rng.choice([None, 500])
        media = rng.choice(["picture", "sound"])
        if kind == "timecode":
            r = lib("create_timecode_slot", o.create_timecode_slot, rate, fps, drop, ln)
            slot(r, free, new("Timecode", "timecode", fps=fps, drop=drop, length=ln))
        elif kind == "tape":
            name = "tape %x" % rng.getrandbits(16)
            old = [k for n, k in mo.kids() if n == "EssenceDescription"]
            self.grab(old)
            a, b = lib("create_tape_slots", o.create_tape_slots, name, rate, fps, drop, media, ln)
            mo.props["Name"] = ["data", name]
            self.release(old)
            d = MO("TapeDescriptor", (mo, "EssenceDescription"))
            d.new = True
            mo.props["EssenceDescription"] = ["s", d]
            slot(a, 1, new("SourceClip", media, length=int(rnorm[1] / rnorm[2] * 60 * 60 * 12)))
            free = 1
            while free in ids + [1]:
                free += 1
            slot(b, free, new("Timecode", "timecode", fps=fps, drop=drop, length=ln))
        elif kind == "essence":
            key = mo.props["MobID"][1]
            ed = self.content().props.get("EssenceData", [0, {}])[1]
            off = key in ed or rng.random() < .5
            e, r = lib("create_essence", o.create_essence, rate, media, None, off)
            if (e is None) != off:
                raise Violation("wrong-value", "create_essence(offline=%r) returned %r" % (off, e))
            slot(r, 1, new("SourceClip", media))
            if not off:
                k = MO("EssenceData", (self.content(), "EssenceData"))
                k.new = True
                k.props["MobID"] = ["data", key]
                self.content().props.setdefault("EssenceData", ["S", {}])[1][key] = k
                s = lib("open essence", e.open, "w")
                data = core.pattern(rng.getrandbits(24), rng.choice([0, 100, 5000]))
                lib("write essence", s.write, data)
                k.props["Data"] = ["stream", data]
        else:
            sid = rng.choice([None, 40 + rng.randrange(9)])
            if sid in ids:
                lib_raises("create_empty_slot with a taken id", o.create_empty_slot, rate, media, sid)
                self.check(mo, "after refused slot id")
                return
            r = lib("create_empty_slot", o.create_empty_slot, rate, media, sid)
            slot(r, free if sid is None else sid, new("SourceClip", media))
        mo.props.setdefault("Slots", ["V", slots])
        for k in kids:
            seg = k.props["Segment"][1]
            self.take_media(seg, seg.props["DataDefinition"][1])
            self.settle(k, rng)
            self.check(k, "after " + kind)
            self.check(seg, "after " + kind)
        self.check(mo, "after " + kind)

    def take_media(self, mo, media):
        """the definition a media kind stands for (any of those with that name)"""
        o = self.py(mo)
        key = self.knorm(lib("read DataDefinition", lambda: o["DataDefinition"].value).unique_key)
        if key not in self.datadefs().get(media.lower(), []):
            raise Violation("wrong-reference", "media kind %s set %s" % (media, key))
        mo.props["DataDefinition"] = ["w", key]

    # ------------------------------------------------------------ keyframes
    def register(self, cls, prop, o, **props):
        lib("register_def", self.f.dictionary.register_def, o)
        d = self.dictionary()
        k = MO(cls, (d, prop))
        k.new = True
        k.props = {n: [f, v] for n, (f, v) in props.items()}
        d.props.setdefault(prop, ["S", {}])[1][props["Identification"][1]] = k
        return k

    def interp(self, rng):
        a = rng.choice(sorted(INTERP))
        have = self.dictionary().props.get("InterpolationDefinitions", [0, {}])[1]
        if akey(a) not in have:
            o = lib("create.InterpolationDef", self.f.create.InterpolationDef, a, "Interp " + INTERP[a], "")
            self.register("InterpolationDefinition", "InterpolationDefinitions", o, Identification=("data", akey(a)),
                          Name=("data", "Interp " + INTERP[a]), Description=("data", ""))
        return a

    def op_param(self, k1, k2, rng):
        """a varying parameter with keyframes added in any order"""
        if not self.roomy():
            return False
        c = [m for m in self.user() if m.cls == "OperationGroup" and self.attached(m)]
        if not c:
            return False
        g = c[k1 % len(c)]
        pauid = PARAM % (k2 % 3)
        have = self.dictionary().props.get("ParameterDefinitions", [0, {}])[1]
        if akey(pauid) not in have:
            o = lib("create.ParameterDef", self.f.create.ParameterDef, pauid, "Level %d" % (k2 % 3), "", "Rational")
            self.register("ParameterDefinition", "ParameterDefinitions", o, Identification=("data", akey(pauid)),
                          Name=("data", "Level %d" % (k2 % 3)), Description=("data", ""), Type=("w", akey(aaftypes.T_RAT)))
        elif self.val(have[akey(pauid)], "Type") != akey(aaftypes.T_RAT):
            return False
        if akey(pauid) in self.val(g, "Parameters", {}):
            return False
        a = self.interp(rng)
        if rng.random() < .5:
            o = lib("create.VaryingValue", lambda: self.f.create.VaryingValue(
                self.f.dictionary.lookup_parameterdef(self.lib.key(akey(pauid))),
                self.f.dictionary.lookup_interperlationdef(self.lib.key(akey(a)))))
        else:
            o = lib("create.VaryingValue", self.f.create.VaryingValue, self.lib.AUID(pauid), self.lib.AUID(a))
        k = MO("VaryingValue", None)
        k.new = True
        k.py = o
        k.props = {"Definition": ["data", akey(pauid)], "Interpolation": ["w", akey(a)]}
        early = rng.random() < .5
        if early:
            self.keys(k, rng, rng.choice([1, 2, 3, 6]))
        lib("parameters.append", self.py(g).parameters.append, o)
        k.owner = (g, "Parameters")
        g.props.setdefault("Parameters", ["S", {}])[1][akey(pauid)] = k
        if not early:
            self.keys(k, rng, rng.choice([1, 2, 5]))
        self.settle(k, rng)
        self.check(k, "new parameter")
        self.w.probe("parameters made")

    def keys(self, k, rng, n):
        o = self.py(k)
        for _ in range(n):
            t = rng.choice([0, 1, 2, 3, 5, 8, 10, rng.randrange(-4, 30)])
            den = rng.choice([1, 1, 1, 2, 4])
            v = rng.randrange(-50, 100)
            x = rng.choice([self.lib.AAFRational(t, den), t / den])
            cp = lib("add_keyframe", o.add_keyframe, x, rng.choice([v, self.lib.AAFRational(v, 1)]))
            q = MO("ControlPoint", (k, "PointList"))
            q.new = True
            got = self.T.fromlib(aaftypes.T_RAT, lib("time", lambda: cp["Time"].value))
            # how a time is written as a rational is up to the library as long as it is the same time
            if got is None or not got[2] or got[1] * den != t * got[2]:
                raise Violation("wrong-value", "add_keyframe(%r): time stored as %r" % (x, got))
            q.props = {"Value": ["data", ["I", aaftypes.T_RAT, ["R", v, 1]]], "Time": ["data", got]}
            pts = k.props.setdefault("PointList", ["V", []])[1]
            for i, old in enumerate(pts):
                if self.time(old) == t / den:
                    pts[i] = q
                    old.owner = None
                    break
            else:
                i = len([x for x in pts if self.time(x) < t / den])
                pts.insert(i, q)
        times = lib("pointlist", lambda: [float(p.time) for p in o.pointlist])
        if times != [self.time(x) for x in k.props["PointList"][1]]:
            raise Violation("wrong-order", "keyframes are at %s, expected %s" % (times, [self.time(x) for x in k.props["PointList"][1]]))

    def params(self):
        out = []
        for m in self.user():
            if m.cls == "VaryingValue" and self.attached(m) and self.val(m, "Definition") in [akey(PARAM % i) for i in range(3)]:
                pts = self.val(m, "PointList", [])
                if pts and all(self.val(p, "Value", [0])[:2] == ["I", aaftypes.T_RAT] and "Time" in p.props for p in pts):
                    out.append(m)
        return out

    def op_key(self, k1, k2, rng):
        c = self.params()
        if not c or not self.roomy():
            return False
        self.keys(c[k1 % len(c)], rng, rng.choice([1, 2, 4]))

    def time(self, cp):
        r = cp.props["Time"][1]
        return r[1] / r[2]

    def level(self, cp):
        r = cp.props["Value"][1][2]
        return r[1] / r[2]

    # ------------------------------------------------------------ queries
    def op_q(self, k1, k2, rng, faults=()):
        """ask, compare with the model; a question that fails on a read error is asked again"""
        names = ["content", "mob", "mob", "seq", "seq", "ref", "ref", "walk", "dep", "refs", "lookup", "keys", "comments", "param"]
        name = names[k2 % len(names)]
        todo = getattr(self, "q_" + name)(k1, rng)
        if todo is None:
            return False
        self.w.probe("query " + name)
        if faults:
            self.w.disk.fault_scope = self.name
            try:
                faulty.retry(self.w, faults, todo, "query " + name)
            finally:
                self.w.disk.fault_scope = None
        else:
            todo()
            # related questions, asked of whatever is in memory now
            for i in (1, 2):
                more = getattr(self, "q_" + names[(k2 + k1 * i) % len(names)])(k1 + i, rng)
                if more is not None:
                    more()
                    self.w.probe("queries asked in passing")

    def same(self, got, want, what):
        """the library's objects are the objects of the model, in this order"""
        mine = [self.py(m) for m in want]
        if len(got) != len(mine) or any(a is not b for a, b in zip(got, mine)):
            raise Violation("wrong-answer", "%s returned %s, expected %s" % (
                what, [self.clsname(x) for x in got], [m.path()[-60:] for m in want]))

    def q_content(self, k1, rng):
        mobs = self.mobs()
        calls = {"mastermobs": [k for k, m in mobs.items() if m.cls == "MasterMob"],
                 "compositionmobs": [k for k, m in mobs.items() if m.cls == "CompositionMob"],
                 "sourcemobs": [k for k, m in mobs.items() if m.cls == "SourceMob"],
                 "toplevel": [k for k, m in mobs.items() if m.cls == "CompositionMob" and self.val(m, "UsageCode") == TOP]}

        def go():
            c = self.f.content
            for call, want in calls.items():
                got = lib(call, lambda: [self.knorm(m.mob_id) for m in getattr(c, call)()])
                if sorted(got) != sorted(want):
                    raise Violation("wrong-answer", "%s yields %d mobs, expected %d" % (call, len(got), len(want)))
            if lib("len(mobs)", len, c.mobs) != len(mobs):
                raise Violation("wrong-answer", "%d mobs, expected %d" % (len(c.mobs), len(mobs)))
            ghost = self.lib.key(gen_mobid(rng))
            if lib("mobs.get", c.mobs.get, ghost) is not None or ghost in c.mobs:
                raise Violation("wrong-answer", "a mob that is not there was found")
            for k in sorted(mobs)[:6]:
                if self.lib.key(k) not in c.mobs:
                    raise Violation("wrong-answer", "mob %s is not found" % k)
        return go

    def some_mob(self, k1):
        m = self.mobs()
        return m[sorted(m)[k1 % len(m)]] if m else None

    def q_mob(self, k1, rng):
        mo = self.some_mob(k1)
        if mo is None:
            return None
        slots = self.slots(mo)

        def go():
            o = self.py(mo)
            self.same(lib("slots", lambda: list(o.slots)), slots, "slots")
            if lib("mob.name", lambda: o.name) != self.val(mo, "Name") or lib("mob.usage", lambda: o.usage) != self.val(mo, "UsageCode"):
                raise Violation("wrong-answer", "%s: name %r, usage %r" % (mo.path(), o.name, o.usage))
            for s in slots:
                n = self.val(s, "SlotID")
                if n is None or self.pycls(s) == "AAFObject":
                    return
                self.same([lib("slot_at", o.slot_at, n)], [self.slot_at(mo, n)], "slot_at(%d)" % n)
            lib_raises("slot_at(a slot that is not there)", o.slot_at, 123456789)
            if mo.cls == "SourceMob":
                key = mo.props["MobID"][1]
                e = lib("essence", lambda: o.essence)
                want = self.content().props.get("EssenceData", [0, {}])[1].get(key)
                self.same([] if e is None else [e], [] if want is None else [want], "essence")
                d = lib("descriptor", lambda: o.descriptor)
                want = self.val(mo, "EssenceDescription")
                self.same([] if d is None else [d], [] if want is None else [want], "descriptor")
            for s in slots:
                so = self.py(s)
                seg = self.val(s, "Segment")
                if seg is None or self.pycls(seg) == "AAFObject":
                    continue
                self.same([lib("segment", lambda: so.segment)], [seg], "segment")
                try:
                    want = (self.slot_length(s), self.media(seg), self.val(seg, "DataDefinition"))
                except Unknown:
                    continue
                d = lib("slot.datadef", lambda: so.datadef)
                got = (lib("slot.length", lambda: so.length), lib("slot.media_kind", lambda: so.media_kind), d and self.knorm(d.auid))
                if got != want:
                    raise Violation("wrong-answer", "%s with a %s: (length, media kind, definition) are %r, expected %r" % (
                        s.path(), seg.cls, got, want))
        return go

    def q_seq(self, k1, rng):
        c = [m for m in self.user() if m.cls == "Sequence" and self.attached(m) and self.val(m, "Components")]
        if not c:
            return None
        mo = c[k1 % len(c)]
        try:
            want = self.positions(mo)
        except Unknown:
            return None
        times = sorted({max(t + d, -3) for t, _ in want for d in (-1, 0, 1)} | {rng.randrange(100), want[-1][0] + self.length(want[-1][1]), 10 ** 9})
        answers = {}
        for t in times:
            try:
                answers[t] = self.index_at(mo, t)
            except Unknown:
                pass

        def go():
            o = self.py(mo)
            got = lib("positions", lambda: list(o.positions()))
            if [(i, p) for i, p, _ in got] != [(i, p) for i, (p, _) in enumerate(want)]:
                raise Violation("wrong-answer", "positions of %s are %s, expected %s" % (
                    [x.cls for _, x in want], [p for _, p, _ in got], [p for p, _ in want]))
            self.same([x for _, _, x in got], [x for _, x in want], "positions")
            for t, i in answers.items():
                g = lib("index_at_time", o.index_at_time, t)
                if g != i:
                    raise Violation("wrong-answer", "index_at_time(%d) is %r, expected %d: %s" % (
                        t, g, i, [(x.cls, p, self.length(x)) for p, x in want]))
                self.same([lib("component_at_time", o.component_at_time, t)], [want[i][1]], "component_at_time")
        return go

    def q_ref(self, k1, rng):
        c = self.clips()
        if not c:
            return None
        mo = c[k1 % len(c)]
        m = None if self.val(mo, "SourceID") == NULL else self.ref_mob(mo)
        s = self.ref_slot(mo)

        def go():
            o = self.py(mo)
            g = lib("clip.mob", lambda: o.mob)
            self.same([] if g is None else [g], [] if m is None else [m], "clip.mob")
            if s == "raise":
                lib_raises("clip.slot of a slot that is not there", lambda: o.slot)
            else:
                g = lib("clip.slot", lambda: o.slot)
                self.same([] if g is None else [g], [] if s is None else [s], "clip.slot")
            try:
                media = self.media(mo)
            except Unknown:
                return
            got = lib("clip fields", lambda: (o.start, o.length, o.media_kind))
            if got != (self.val(mo, "StartTime"), self.val(mo, "Length"), media):
                raise Violation("wrong-answer", "clip (start, length, media kind) %r" % (got,))
        return go

    def q_walk(self, k1, rng):
        c = self.clips()
        if not c:
            return None
        mo = c[k1 % len(c)]
        try:
            want, raises = self.walk_model(mo)
        except Unknown:
            return None
        self.w.probe("walk of %d" % min(len(want), 4))

        def go():
            o = self.py(mo)
            got = []

            def run():
                for x in o.walk():
                    got.append(x)
                    if len(got) > len(want) + 5:
                        break
            if raises:
                try:
                    lib("walk", run)
                except Violation as v:
                    if v.cls != "unexpected-exception" or self.w.disk.fault_scope and sum(self.w.disk.fired.values()) != f0[0]:
                        raise
                else:
                    raise Violation("wrong-answer", "walk ended without an exception where it cannot go on")
            else:
                lib("walk", run)
            self.same(got, want, "walk")
        f0 = [sum(self.w.disk.fired.values())]

        def counted():
            f0[0] = sum(self.w.disk.fired.values())
            go()
        return counted

    def q_dep(self, k1, rng):
        mo = self.some_mob(k1)
        if mo is None:
            return None
        try:
            edges, cyclic = self.closure(mo)
        except Unknown:
            return None
        me = mo.props["MobID"][1]
        self.w.probe("dependencies %s of %d" % ("with a cycle" if cyclic else "", min(len(edges) - 1, 5)))

        def go():
            o = self.py(mo)
            got = lib("dependant_mobs", lambda: [self.knorm(m.mob_id) for m in o.dependant_mobs()])
            if sorted(got) != sorted(k for k in edges if k != me):
                raise Violation("wrong-answer", "dependant_mobs yields %d mobs (%d different), expected %d" % (len(got), len(set(got)), len(edges) - 1))
            if not cyclic:
                for i, k in enumerate(got):
                    late = [x for x in edges[k] if x in got[i:]]
                    if late:
                        raise Violation("wrong-order", "dependant_mobs yields a mob before %d mobs it depends on" % len(late))
        return go

    def q_refs(self, k1, rng):
        mo = self.some_mob(k1) if k1 % 4 else self.content()
        if mo is None:
            return None
        want = list(mo.walk())
        if len(want) > 250:
            return None
        td = rng.random() < .5

        def go():
            o = self.py(mo)
            got = lib("walk_references", lambda: list(o.walk_references(topdown=td)))
            mine = {id(self.py(m)): m for m in want}
            if len(got) != len(want) or {id(x) for x, _ in got} != set(mine):
                raise Violation("wrong-answer", "walk_references yields %d objects (%d different), expected %d" % (
                    len(got), len({id(x) for x, _ in got}), len(want)))
            order = {id(mine[id(x)]): i for i, (x, _) in enumerate(got)}
            for x, streams in got:
                m = mine[id(x)]
                w = sorted(n for n, (f, v) in m.props.items() if f == "stream")
                if sorted(p.name for p in streams) != w:
                    raise Violation("wrong-answer", "walk_references yields streams %s with %s, expected %s" % ([p.name for p in streams], m.path(), w))
                for _, k in m.kids():
                    if (order[id(k)] > order[id(m)]) == td:
                        raise Violation("wrong-order", "walk_references(topdown=%s): %s and its owner" % (td, k.path()))
        return go

    def q_lookup(self, k1, rng):
        d = self.dictionary()
        kinds = [p for p in sorted(LOOKUPS) if d.props.get(p, [0, {}])[1]]
        prop = rng.choice(kinds)
        defs = d.props[prop][1]
        key = sorted(defs)[k1 % len(defs)]
        mo = defs[key]
        name = self.val(mo, "Name")
        ghost = rng.randbytes(16)

        def go():
            call = getattr(self.f.dictionary, LOOKUPS[prop])
            o = self.py(mo)
            u = uuid.UUID(bytes_le=bytes.fromhex(key[2:]))
            self.same([lib(LOOKUPS[prop], call, self.lib.key(key))], [mo], LOOKUPS[prop] + "(AUID)")
            self.same([lib(LOOKUPS[prop], call, u)], [mo], LOOKUPS[prop] + "(UUID)")
            if self.pycls(mo) != "AAFObject":
                self.same([lib(LOOKUPS[prop], call, o)], [mo], LOOKUPS[prop] + "(definition)")
            if lib(LOOKUPS[prop], call, self.lib.AUID(bytes_le=ghost)) is not None:
                raise Violation("wrong-answer", "%s found an identifier that is not there" % LOOKUPS[prop])
            lib_raises("%s of an unknown name" % LOOKUPS[prop], call, "no such definition %x" % k1)
            if name and self.short(name):
                same = [k for k, m in defs.items() if self.short(self.val(m, "Name") or "").lower() == self.short(name).lower()]
                for v in (name, name.upper() if name.upper().lower() == name.lower() and self.short(name) == name else name, self.short(name)):
                    g = lib("%s(%r)" % (LOOKUPS[prop], v), call, v)
                    if g is None or self.knorm(g.unique_key) not in same:
                        raise Violation("wrong-answer", "%s(%r) found %r" % (LOOKUPS[prop], v, g))
        return go

    def q_keys(self, k1, rng):
        mo = self.pick_obj(k1, lambda m: m is not self.root and self.attached(m))
        every = sorted(p["name"] for p in self.T.props(mo.cls))
        have = sorted(mo.props)

        def go():
            o = self.py(mo)
            if sorted(lib("keys", o.keys)) != have:
                raise Violation("wrong-answer", "keys of %s" % mo.path())
            got = sorted(lib("allkeys", o.allkeys))
            if got != every:
                raise Violation("wrong-answer", "allkeys of a %s: lacks %s, has %s more" % (
                    mo.cls, sorted(set(every) - set(got))[:3], sorted(set(got) - set(every))[:3]))
            for n in every[k1 % 3::3]:
                if (n in o) != (n in have):
                    raise Violation("wrong-answer", "%r in a %s is %r" % (n, mo.cls, n in o))
                p = lib("get(%r, allkeys=False)" % n, o.get, n, 5, False)
                if (n in have) == (p == 5 and type(p) is int):
                    raise Violation("wrong-answer", "get(%r, allkeys=False) of a %s returned %r" % (n, mo.cls, p))
                if n not in have and lib("getvalue", o.getvalue, n, 5) != 5:
                    raise Violation("wrong-answer", "getvalue(%r) of a %s" % (n, mo.cls))
            if lib("get of an unknown key", o.get, "No such property", 5) != 5 or "No such property" in o:
                raise Violation("wrong-answer", "a property that does not exist was found")
            lib_raises("[] of an unknown key", lambda: o["No such property"])
        return go

    def q_comments(self, k1, rng):
        c = [m for m in self.mobs().values() if self.val(m, "UserComments")]
        c = [m for m in c if all("Name" in x.props and "Value" in x.props for x in m.props["UserComments"][1])]
        if not c:
            return None
        mo = sorted(c, key=lambda m: m.props["MobID"][1])[k1 % len(c)]
        tags = mo.props["UserComments"][1]
        names = [x.props["Name"][1] for x in tags]

        def go():
            h = lib("comments", lambda: self.py(mo).comments)
            if lib("items", lambda: [n for n, _ in h.items()]) != names:
                raise Violation("wrong-order", "comments are %s, expected %s" % ([n for n, _ in h.items()], names))
            for n in names:
                i = names.index(n)
                self.same([lib("comments.get", h.get, n)], [tags[i]], "comments.get(%r)" % n)
                want = tags[i].props["Value"][1]
                got = self.norm(self.ptype("TaggedValue", "Value"), lib("comments[]", lambda: h[n]), want)
                if got != want or n not in h:
                    raise Violation("wrong-answer", "comments[%r] is %r, expected %r" % (n, got, want))
            if lib("comments.get", h.get, "no such comment", 5) != 5 or "no such comment" in h:
                raise Violation("wrong-answer", "a comment that is not there was found")
            lib_raises("comments[unknown]", lambda: h["no such comment"])
        return go

    def q_param(self, k1, rng):
        c = self.params()
        if not c:
            return None
        mo = c[k1 % len(c)]
        pts = self.val(mo, "PointList")
        kind = INTERP.get(aaftypes.atext(self.val(mo, "Interpolation", "A:" + "00" * 16)))
        times = [self.time(p) for p in pts]
        if times != sorted(set(times)):
            return None
        levels = [self.level(p) for p in pts]

        def close(a, b):
            return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))

        def go():
            o = self.py(mo)
            self.same(lib("pointlist", lambda: list(o.pointlist)), pts, "pointlist")
            ask = [(t, v) for t, v in zip(times, levels)] + [(times[0] - 5, levels[0]), (times[-1] + 5, levels[-1])]
            if kind is None:
                return
            for i in range(len(pts) - 1):
                m = (times[i] + times[i + 1]) / 2
                ask.append((m, levels[i] if kind == "constant" else (levels[i] + levels[i + 1]) / 2))
            for t, v in ask:
                g = lib("value_at", o.value_at, t)
                if not close(g, v):
                    raise Violation("wrong-answer", "value_at(%r) of a %s parameter is %r, expected %r (keyframes %s)" % (
                        t, kind, g, v, list(zip(times, levels))))
        return go

    # ------------------------------------------------------------ steps with faults
    def step(self, op):
        if op[0] == "q" and len(op) > 4 and op[4]:
            self.rng = random.Random(op[3])
            self.w.advance(1)
            self.w.log("op", "q")
            if op[2] % 3:
                self.op_gc(1, 1, self.rng)
            r = self.op_q(op[1], op[2], self.rng, op[4])
            self.executed += r is not False
            self.counts["q under faults"] = self.counts.get("q under faults", 0) + 1
            self.w.ops += 1
            return
        super(TimelineSession, self).step(op)
