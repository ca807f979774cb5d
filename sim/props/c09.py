"""C09: leaving a file closes it, keeps saved work and never hides an exception."""
import random

from .. import aafsim, cfbsim, core, refaaf, refcfb
from ..core import InjectedError, Violation, mix

RUNS = {"quick": 900, "thorough": 30000}
WALL_CAP = {"quick": 90, "thorough": 3000}
BATCH = 8
RULE = ("one run = one with-block around a new or existing file, running a seeded history of additions, modifications, saves and reads and left "
        "at a seeded point: by an exception of the program, of an iterator handed to the library, of a refused call, of a failing read, by an "
        "asynchronous interrupt at a seeded step inside the code under test, or cleanly, with or without write faults during the exit; "
        "checked: what propagates, raw handles, is_open, later save and close, and the graph the file holds; distinct by event-log digest; "
        "non-trivial = the block was left by an exception or a fault fired")
STATE_MEASURE = "distinct class censuses at the point of exit"
ASSUMPTIONS = ["when the exit itself fails, or an interrupt hits the middle of a library call, only handles, is_open and the exception are judged",
               "a with-block left normally whose close fails is judged by C08 only"]
SHRINK = ("ops",)
W = {"set": 10, "unset": 1, "ref": 5, "vec": 10, "setp": 5, "weak": 4, "mob": 6, "mobid": 2, "stream": 4, "helper": 7, "bad": 2, "peek": 2,
     "find": 1, "save": 4, "gc": 3, "reopen": .7}
CAUSES = ["program", "program", "program", "base", "stop", "iterator", "refused", "interrupt", "interrupt", "read", "clean", "constructor", "constructor"]


def setup():
    aafsim.rich_images()


def generate(rng, tier, index):
    cfg = aafsim.gen_cfg(rng, .2, 0)
    cfg.update(additive=True, rich=None, buffering=rng.choice([-1, -1, 0, 64, 65536]), mode="rw")
    if rng.random() < .4:
        cfg.update(rich=rng.randrange(aafsim.NRICH), fresh=False)
    elif rng.random() < .2:
        cfg.update(fresh=True, third=None)
    elif rng.random() < .12:
        cfg.update(fresh=False, mode="r")
    cause = rng.choice(CAUSES)
    if cfg["mode"] == "r":
        ops = aafsim.gen_ops(rng, rng.choice([0, 3, 8]), {"peek": 3, "find": 1, "gc": 1, "verify": .2})
        ops = [o for o in ops if o[0] != "mob"]
        if cause in ("iterator", "refused"):
            cause = "program"
    else:
        ops = aafsim.gen_ops(rng, rng.choice([0, 1, 3, 8, 16, 30]), W)
    p = {"cfg": cfg, "ops": ops, "cause": cause, "arg": rng.getrandbits(16), "far": int(rng.random() ** 3 * (40000 if cause == "interrupt" else 40)),
         "exit_faults": []}
    if cause == "constructor":
        p["how"] = rng.choice(["missing", "garbage", "empty", "torn", "damaged", "fault", "fault", "wfault", "notaaf"])
    elif rng.random() < .35:
        p["exit_faults"] = [[rng.choice(["w_eio", "w_enospc", "t_eio", "c_eio"]), int(rng.random() ** 2 * 60), rng.choice([1, 1, 3, 10000]), 0]
                            for _ in range(rng.choice([1, 1, 2]))]
    return p


class Interrupt(BaseException):
    pass


def execute(plan, keep_log=False):
    cfg = plan["cfg"]
    with core.world(plan["seed"], cache_size=None if plan["cause"] == "read" else cfg.get("cache"), keep_log=keep_log) as w:
        s = Sess(w, cfg)
        s.rng = random.Random(plan["seed"])
        s.nav = random.Random(mix("nav", plan["seed"]))
        w.disk.fault_scope = s.name
        if plan["cause"] == "constructor":
            constructor(plan, w, s)
        else:
            block(plan, w, s)
        return {"digest": w.log.digest(), "stats": aafsim.stats(w, s), "states": list(s.states),
                "nontrivial": plan["cause"] != "clean" or sum(w.disk.fired.values()) > 0,
                "sample": {"seed": plan["seed"], "cfg": cfg, "ops": plan["ops"][:8], "cause": plan["cause"], "exit_faults": plan["exit_faults"]},
                "log": w.log.lines if keep_log else None}


class Sess(aafsim.Session):
    """remembers the model at the last save"""
    saved = None
    saved_ext = False

    def mark(self):
        self.saved = aafsim.clone(self.root)
        self.saved_ext = self.have_ext
        self.saves = getattr(self, "saves", 0) + 1

    def op_save(self, *a):
        aafsim.Session.op_save(self, *a)
        self.mark()

    def open(self, mode, ext=True):
        aafsim.Session.open(self, mode, ext)


def handles(w, name):
    return [h for h in w.disk.open_handles() if h._name == name]


def open_it(s):
    cfg = s.cfg
    if cfg.get("fresh") and not cfg.get("third"):
        s.start()
    else:
        s.load()
        s.mark()
        s.open(cfg["mode"], cfg.get("ext", True))
    return s.f


def raising(items, n):
    for i, x in enumerate(items):
        if i >= n:
            raise InjectedError("iterator")
        yield x
    raise InjectedError("iterator")


def leave(plan, w, s):
    """leave the block in the planned way"""
    cause, arg = plan["cause"], plan["arg"]
    s.note_state()
    if cause == "program":
        raise InjectedError("program")
    if cause == "base":
        raise [KeyboardInterrupt, SystemExit, GeneratorExit][arg % 3]("program")
    if cause == "stop":
        raise [StopIteration, AssertionError, OSError, MemoryError][arg % 4]("program")
    if cause == "iterator":
        rng = random.Random(arg)
        mo, p, f = s.pick_ref(arg, arg >> 4, ("V", "S"))
        if mo is None or s.full(mo):
            raise InjectedError("program")
        base = s.T.ref_class(p["type"])
        kids = [k for k in s.supply(mo, base, rng, rng.choice([1, 2])) if f == "V" or s.set_key(k, base)]
        items = raising([k.py for k in kids], rng.randrange(3))
        pr = s.prop(s.py(mo), mo, p["name"])
        pr.extend(items)
        raise Violation("forbidden-op-accepted", "an iterator raised inside extend and the call returned")
    if cause == "refused":
        x = [lambda: s.f.content.mobs[s.lib.MobID()], lambda: s.f.content["NoSuchProperty"], lambda: s.f.create.NoSuchClass(),
             lambda: s.f.content.mobs.append(s.f.header)][arg % 4]
        x()
        raise Violation("forbidden-op-accepted", "a call that must be refused returned")
    if cause == "read":
        w.disk.arm("r_eio", plan["far"], 1000)
        try:
            for mo in s.user():
                mo.py = None
            s.props = {}
            s.verify("with a failing disk", True)
            if s.cfg["mode"] != "r":
                s.op_mob(1, 2, s.rng)
                s.op_vec(arg, 2, s.rng)
        except Violation as v:
            if v.cls != "unexpected-exception" or not w.disk.fired.get("r_eio"):
                raise
            w.disk.armed = []
            raise InjectedError("read fault")
        w.disk.armed = []
        raise InjectedError("program")


def block(plan, w, s):
    cfg = plan["cfg"]
    cause = plan["cause"]
    caught = None
    fired0 = 0
    st = {}
    ro = cfg["mode"] == "r"
    cut = None
    try:
        with open_it(s) as f:
            st["f"] = f
            if cause == "interrupt":
                core.STEPS.interrupt = (core.STEPS.n + 1 + plan["far"], Interrupt("asynchronous"))
            for op in plan["ops"]:
                if op[0] == "reopen":
                    if ro:
                        continue
                    # closing and opening again inside the block: the block then holds a closed file
                    core.lib("save", f.save)
                    s.mark()
                    continue
                s.step(op)
            if cause != "clean" and cause != "interrupt":
                st["leaving"] = True
                try:
                    leave(plan, w, s)
                finally:
                    arm_exit(plan, w, st)
            arm_exit(plan, w, st)
            st["done"] = True
            w.log("left", cause)
    except Violation as v:
        # the engine's report of an exception of the code under test
        if cause == "interrupt" and "Interrupt" in v.detail:
            caught = v
        elif v.cls == "unexpected-exception" and w.disk.fired and st.get("armed"):
            caught = v
        else:
            raise
    except BaseException as e:
        if isinstance(e, core.StepLimit):
            raise
        caught = e
    finally:
        core.STEPS.interrupt = None
        w.disk.disarm()
    errors = sum(w.disk.fired.get(k, 0) for k in ("w_eio", "w_enospc", "t_eio", "c_eio"))
    f = st.get("f")
    w.log("caught", type(caught).__name__, errors)
    if f is None:
        if cause == "interrupt":
            return
        raise Violation("unexpected-exception", "opening failed: %r" % caught)
    interrupted = cause == "interrupt" and isinstance(caught, Interrupt)
    if cause == "interrupt" and st.get("done"):
        cause = "clean"         # the interrupt came too late, or hit the exit itself
    if cause == "clean":
        if caught is not None and not errors and not interrupted:
            raise Violation("unexpected-exception", "a clean exit raised %r" % caught)
        if caught is not None:
            w.probe("clean_exit_failed")
            return
        w.probe("clean_exits")
    else:
        if caught is None:
            raise Violation("exception-hidden", "the block was left by %s and nothing propagated" % cause)
        expect_cause(cause, plan, caught, errors)
        w.probe("left_by_" + cause)
        if errors:
            w.probe("exit_failed_too")
    # closed, and says so
    n = handles(w, s.name)
    if n:
        raise Violation("handle-open", "left by %s (exit faults fired: %d): the underlying file is still open" % (cause, errors))
    if f.is_open is not False:
        raise Violation("still-open", "is_open is %r after the block was left by %s" % (f.is_open, cause))
    before = w.disk.get(s.name)
    if not ro:
        for what, fn in (("save", f.save), ("close", f.close)):
            try:
                fn()
            except Exception:
                pass
            else:
                raise Violation("use-after-close", "%s on a file that was closed (left by %s) returned" % (what, cause))
    if w.disk.get(s.name) != before:
        raise Violation("use-after-close", "the file changed after it was closed")
    s.f = None
    s.drop_all()
    if errors or interrupted:
        return
    if ro:
        s.mark()
    if cause == "clean":
        s.mark()
    if s.saved is None:
        return
    judge(w, s, cause)


def judge(w, s, cause):
    """the file holds what was saved last"""
    try:
        r = refcfb.Reader(w.disk.files[s.name])
        if not s.cfg.get("third"):
            r.audit(own_layout=True)
        a = refaaf.AAF(r, aafsim.aaftypes.frozen(False) if s.cfg.get("third") else None)
    except refcfb.Bad as e:
        raise Violation("saved-work-lost", "left by %s after %d saves: %s: %s" % (cause, s.saves, e.cls, e.detail))
    d = aafsim.diff(s.saved, aafsim.from_reader(a), "")
    if d:
        raise Violation("saved-work-differs", "left by %s after %d saves: %s" % (cause, s.saves, d))
    t = aafsim.Session(w, dict(s.cfg, hold=.5), s.name)
    t.root = s.saved
    t.have_ext = s.saved_ext
    t.open("r", False)
    t.verify("reopened after an exit by %s" % cause, False)
    t.close()


def arm_exit(plan, w, st):
    if st.get("armed"):
        return
    st["armed"] = True
    for k, after, times, arg in plan["exit_faults"]:
        w.disk.arm(k, after, times, arg)


def expect_cause(cause, plan, e, errors):
    """the exception of the block, or one of the exit itself, propagates"""
    want = {"program": InjectedError, "base": (KeyboardInterrupt, SystemExit, GeneratorExit), "iterator": InjectedError,
            "stop": (StopIteration, AssertionError, OSError, MemoryError), "read": InjectedError, "interrupt": (Interrupt, Violation),
            "refused": Exception}[cause]
    if isinstance(e, want):
        return
    if errors:
        return
    raise Violation("other-exception", "left by %s, but %r propagated" % (cause, e))


def constructor(plan, w, s):
    how, arg = plan["how"], plan["arg"]
    rng = random.Random(arg)
    mode = plan["cfg"]["mode"]
    s.load()
    data = w.disk.get(s.name)
    if how == "missing":
        del w.disk.files[s.name]
    elif how == "garbage":
        w.disk.put(s.name, rng.randbytes(rng.choice([0, 1, 100, 5000])))
    elif how == "empty":
        w.disk.put(s.name, b"")
    elif how == "torn":
        w.disk.put(s.name, data[:rng.randrange(len(data))])
    elif how == "damaged":
        b = bytearray(data)
        for _ in range(rng.choice([1, 10, 200])):
            b[rng.randrange(min(len(b), rng.choice([512, 8192, 1 << 30])))] = rng.randrange(256)
        w.disk.put(s.name, bytes(b))
    elif how == "notaaf":
        f = open(core.simdisk.simpath(s.name), "wb+")
        c = core.aaf2.cfb.CompoundFileBinary(f, "wb+")
        if arg % 2:
            c.open("/properties", "w").write(b"L\x20\0\0")
        c.close()
        f.close()
    elif how == "fault":
        w.disk.arm("r_eio", plan["far"] * 3, 1000)
    elif how == "wfault":
        mode = "w"
        w.disk.arm(rng.choice(["w_eio", "w_enospc"]), rng.randrange(6), rng.choice([1, 1000]))
    f = caught = None
    try:
        f = core.aaf2.open(s.path(), mode, extensions=plan["cfg"].get("ext", True), **s.opts)
    except Exception as e:
        caught = e
    w.log("constructor", how, mode, type(caught).__name__)
    w.probe("constructor_%s_%s" % (how, "raised" if caught is not None else "returned"))
    if caught is not None and handles(w, s.name):
        raise Violation("handle-open", "opening %s (%s) raised %s: %s, the underlying file is still open" % (
            how, mode, type(caught).__name__, caught))
    w.disk.disarm()
    if f is not None and how in ("missing", "empty"):
        raise Violation("exception-hidden", "opening a file that is %s returned" % how)
    if f is not None:
        try:
            with f:
                raise InjectedError("program")
        except InjectedError:
            pass
        except Exception:
            # a damaged file may not be writable again
            if how not in ("damaged", "torn"):
                raise
        if handles(w, s.name):
            raise Violation("handle-open", "file opened despite being %s stays open" % how)
