"""Editing documents of the usual kind (tapes, files with essence, clips, timelines with transitions and effects), made
through the documented API."""
import random

from . import core, refcfb, refaaf
from .core import mix, pattern

DISSOLVE = "89d9b67e-5584-302d-9abd-8bd330c46841"
OPACITY = "8d56813d-847e-11d5-935a-50f857c10000"
LEVEL = "8d56813d-847e-11d5-935a-50f857c10001"
BYTEORDER = "c0038672-a8cf-11d3-a05b-006094eb75cb"
EFFECT_ID = "93994bd6-a81d-11d3-a05b-006094eb75cb"
LINEAR = "5b6c85a4-0ede-11d3-80a9-006008143e6f"
CODEC = "8ef593f6-9521-4344-9ede-b84e8cfdc7da"


def definitions(f, rng):
    d = f.dictionary
    op = f.create.OperationDef(DISSOLVE, "VideoDissolve_2", "")
    d.register_def(op)
    op.media_kind = "picture"
    op["IsTimeWarp"].value = False
    op["Bypass"].value = 1
    op["NumberInputs"].value = 2
    op["OperationCategory"].value = "OperationCategory_Effect"
    a = f.create.ParameterDef(BYTEORDER, "AvidParameterByteOrder", "", "aafUInt16")
    d.register_def(a)
    b = f.create.ParameterDef(EFFECT_ID, "EffectID", "an identifier", "aafUInt32")
    d.register_def(b)
    op.parameters.extend([a, b])
    d.register_def(f.create.ParameterDef(OPACITY, "AFX_FG_KEY_OPACITY_U", "", "Rational"))
    d.register_def(f.create.ParameterDef(LEVEL, "Level", "", "Rational"))
    d.register_def(f.create.InterpolationDef(LINEAR, "LinearInterp", ""))
    op2 = f.create.OperationDef("0c3bea41-fc05-11d2-8a29-0050040ef7d2", "Audio Dissolve", "")
    d.register_def(op2)
    op2.media_kind = "sound"
    op2["IsTimeWarp"].value = False
    op2["NumberInputs"].value = 2


def tape(f, rng, n):
    t = f.create.SourceMob()
    f.content.mobs.append(t)
    t.create_tape_slots("tape %d" % n, rng.choice([25, "30000/1001"]), 25, media_kind="picture")
    return t


def audio(f, rng, n, tape_mob, size):
    m = f.create.SourceMob("audio %d" % n)
    f.content.mobs.append(m)
    d = f.create.PCMDescriptor()
    m.descriptor = d
    d["Channels"].value = 1
    d["BlockAlign"].value = 2
    d["SampleRate"].value = 48000
    d["AverageBPS"].value = 96000
    d["QuantizationBits"].value = 16
    d["AudioSamplingRate"].value = 48000
    d.length = size // 2
    loc = f.create.NetworkLocator()
    loc["URLString"].value = "file:///media/audio%d.wav" % n
    d["Locator"].append(loc)
    ed, slot = m.create_essence(48000, "sound")
    if tape_mob is not None:
        slot.segment = tape_mob.create_source_clip(1, start=rng.randrange(1000), media_kind="sound")
    slot.segment.length = size // 2
    s = ed.open("w")
    s.write(pattern(rng.getrandbits(30), size))
    return m, slot


def video(f, rng, n, tape_mob, size):
    m = f.create.SourceMob("video %d" % n)
    f.content.mobs.append(m)
    d = f.create.CDCIDescriptor()
    m.descriptor = d
    for k, v in (("ComponentWidth", 8), ("HorizontalSubsampling", 2), ("FrameLayout", "FullFrame"), ("ImageAspectRatio", "16/9"),
                 ("StoredWidth", 1920), ("StoredHeight", 1080), ("SampleRate", 25), ("VideoLineMap", [42, 0])):
        d[k].value = v
    d["ContainerFormat"].value = f.dictionary.lookup_containerdef("AAF")
    d["CodecDefinition"].value = f.dictionary.lookup_codecdef(core.aaf2.auid.AUID(CODEC))
    d.length = 200
    ed, slot = m.create_essence(25, "picture", offline=not size)
    if tape_mob is not None:
        slot.segment = tape_mob.create_source_clip(1, start=rng.randrange(1000))
    slot.segment.length = 200
    if ed is not None:
        s = ed.open("w")
        s.write(pattern(rng.getrandbits(30), size))
    return m, slot


def master(f, rng, n, sources):
    m = f.create.MasterMob("clip %d" % n)
    f.content.mobs.append(m)
    out = []
    for sm, slot in sources:
        kind = "sound" if sm.name.startswith("audio") else "picture"
        s = m.create_timeline_slot(edit_rate=25)
        clip = sm.create_source_clip(slot.slot_id, media_kind=kind)
        if rng.random() < .4:
            seq = f.create.Sequence(media_kind=kind)
            s.segment = seq
            clip.length = 200
            seq.components.append(clip)
            seq.length = 200
        elif rng.random() < .2:
            g = f.create.EssenceGroup(media_kind=kind)
            s.segment = g
            g["Choices"].append(clip)
            g.length = 200
        else:
            s.segment = clip
        out.append((s, kind))
    m.comments["Scene"] = "scene %d" % n
    m.comments["Camera"] = "A"
    return m, out


def transition(f, rng, kind):
    t = f.create.Transition(kind)
    t.length = 10
    t["CutPoint"].value = 5
    g = f.create.OperationGroup("VideoDissolve_2" if kind == "picture" else "Audio Dissolve")
    g.media_kind = kind
    t["OperationGroup"].value = g
    g.length = 10
    if kind == "picture":
        v = f.create.VaryingValue("AFX_FG_KEY_OPACITY_U", "LinearInterp")
        v.add_keyframe(0.0, 0.0, "Proportional")
        v.add_keyframe(1.0, 100.0, "Proportional")
        g.parameters.append(v)
        g.parameters.append(f.create.ConstantValue("Level", rng.randrange(100)))
    return t


def timeline(f, rng, n, clips, ntracks, ext=True):
    c = f.create.CompositionMob("timeline %d" % n)
    f.content.mobs.append(c)
    c.usage = "Usage_TopLevel"
    # mobs without a slot to take from are left out
    for k in range(ntracks):
        kind = rng.choice(["picture", "picture", "sound"])
        use = [(m, s) for m, slots in clips for s, kd in slots if kd == kind]
        slot = c.create_timeline_slot(25)
        seq = f.create.Sequence(media_kind=kind)
        slot.segment = seq
        total = 0
        for i in range(rng.choice([1, 2, 4])):
            fill = f.create.Filler(kind, rng.randrange(1, 100))
            seq.components.append(fill)
            total += fill.length
            if use:
                if rng.random() < .5:
                    seq.components.append(transition(f, rng, kind))
                m, s = rng.choice(use)
                clip = m.create_source_clip(s.slot_id, start=rng.randrange(50), length=rng.randrange(11, 100), media_kind=kind)
                if rng.random() < .25:
                    g = f.create.OperationGroup("VideoDissolve_2" if kind == "picture" else "Audio Dissolve", clip.length, kind)
                    g.segments.append(clip)
                    clip = g
                elif rng.random() < .15:
                    ns = f.create.NestedScope(kind, clip.length)
                    ns["Slots"].value = [f.create.Filler(kind, clip.length), clip]
                    clip = ns
                elif rng.random() < .15:
                    sel = f.create.Selector(kind, clip.length)
                    sel["Selected"].value = clip
                    sel["Alternates"].value = [f.create.Filler(kind, clip.length)]
                    clip = sel
                seq.components.append(clip)
                total += clip.length
        seq.length = total
        slot.name = "V%d" % k
    if rng.random() < .5:
        slot = c.create_timeline_slot(25)
        slot.segment = f.create.Timecode(25, length=5000)
    if rng.random() < .6:
        es = f.create.EventMobSlot()
        es["EditRate"].value = 25
        es["SlotID"].value = 99
        es["PhysicalTrackNumber"].value = 1
        seq = f.create.Sequence("DescriptiveMetadata")
        es.segment = seq
        for i in range(rng.choice([1, 3])):
            mk = f.create.DescriptiveMarker()
            mk["Comment"].value = "marker %d" % i
            mk["Position"].value = i * 10
            mk["DescribedSlots"].value = {1}
            seq.components.append(mk)
        c.slots.append(es)
    if ext:
        c["MobAttributeList"].value = [f.create.TaggedValue("_NAME", "value %d" % n)]
        c["AppCode"].value = 1
    if rng.random() < .3 and n:
        # a timeline that is cut into another one
        slot = c.create_timeline_slot(25)
        prev = [m for m in f.content.compositionmobs() if m.name == "timeline %d" % (n - 1)]
        if prev:
            slot.segment = prev[0].create_source_clip(1, length=10, media_kind="picture")
    return c


def build(f, rng, scale=1, ext=True):
    definitions(f, rng)
    tapes = [tape(f, rng, i) for i in range(rng.choice([1, 1, 2]))] + [None]
    clips = []
    for i in range(rng.choice([1, 2, 3]) * scale):
        t = rng.choice(tapes)
        sources = []
        if rng.random() < .8:
            sources.append(video(f, rng, i, t, rng.choice([0, 1000, 5000, 20000])))
        if rng.random() < .7 or not sources:
            sources.append(audio(f, rng, i, t, rng.choice([200, 3000, 9600])))
        clips.append(master(f, rng, i, sources))
    for i in range(rng.choice([1, 1, 2]) * scale):
        timeline(f, rng, i, clips, rng.choice([1, 2, 3]), ext)


class Doc(object):
    def __init__(self, k):
        from . import aafsim
        self.third = None
        self.ext = k != 1
        rng = random.Random(mix("doc", k))
        with core.world(mix("docworld", k)) as w:
            f = core.aaf2.open("/simfs/doc", "w", extensions=self.ext, sector_size=512 if k == 2 else 4096)
            build(f, rng, ext=self.ext)
            f.close()
            self.data = w.disk.get("doc")
        r = refcfb.Reader(self.data)
        self.aaf = refaaf.AAF(r)
        self.model = aafsim.from_reader(self.aaf)
