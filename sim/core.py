"""Simulator core: seeds, log, seams, step limits."""
import builtins
import contextlib
import datetime as _dt
import gc
import hashlib
import io
import logging
import os
import random
import struct
import sys
import time as _time
import traceback

from . import disk as simdisk

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Violation(Exception):
    """A property violation observed by an oracle."""

    def __init__(self, cls, detail=""):
        Exception.__init__(self, "%s: %s" % (cls, detail))
        self.cls = cls
        self.detail = detail


class StepLimit(BaseException):
    """The code under test exceeded its deterministic step budget."""


class InjectedError(Exception):
    """Exception raised by the simulated user program (C09, C13)."""


def mix(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "little")


class Log(object):
    """Event log. Only a digest and a bounded tail are kept."""

    def __init__(self, keep=False):
        self.h = hashlib.sha256()
        self.logic = hashlib.sha256()       # without raw I/O
        self.n = 0
        self.buf = []
        self.keep = keep
        self.lines = []
        self.ion = 0

    def __call__(self, *items):
        s = repr(items)
        self.logic.update(s.encode("utf-8", "surrogatepass"))
        self.n += 1
        self.buf.append(s)
        if self.keep:
            self.lines.append(s)
        if len(self.buf) > 512:
            self._flush()

    def io(self, what, name, a, b):
        self.ion += 1
        if not IO_IN_DIGEST:
            return
        self.buf.append("%s %s %d %d" % (what, name, a, b))
        if self.keep:
            self.lines.append(self.buf[-1])
        if len(self.buf) > 512:
            self._flush()

    def _flush(self):
        self.h.update("\n".join(self.buf).encode("utf-8", "surrogatepass"))
        self.buf = []

    def digest(self):
        self._flush()
        return self.h.hexdigest()[:24]


def dig(data):
    """short digest of bytes, for the log"""
    return hashlib.md5(bytes(data)).hexdigest()[:8]


_pattern_cache = {}


def pattern(tag, n):
    """n deterministic, position- and tag-dependent bytes."""
    if n <= 0:
        return b""
    key = tag & 0xFFFFFF
    blk = _pattern_cache.get(key)
    need = min(n, 4096)
    if blk is None or len(blk) < need:
        if len(_pattern_cache) > 256:
            _pattern_cache.clear()
        size = 256 if need <= 256 else 4096
        blk = random.Random(key).randbytes(size)
        _pattern_cache[key] = blk
    if n <= len(blk):
        return blk[:n]
    # 4096-byte blocks, each prefixed with its number so that displaced blocks differ
    out = bytearray()
    i = 0
    while len(out) < n:
        out += struct.pack("<II", key, i)
        out += blk[8:]
        i += 1
    return bytes(out[:n])


# --------------------------------------------------------------------------
# seams
# --------------------------------------------------------------------------

class World(object):
    """One simulated process environment (disk, entropy, clock, caches)."""

    def __init__(self, seed, keep_log=False):
        self.seed = seed
        self.log = Log(keep_log)
        self.disk = simdisk.Disk(self.log)
        self.entropy = random.Random(mix("entropy", seed))
        self.now = _dt.datetime(2020, 1, 1) + _dt.timedelta(seconds=mix("clock", seed) % 10 ** 8)
        self.sim_seconds = 0
        self.probes = {}
        self.cache_size = None
        self.ops = 0
        self.gc_points = 0
        self.gc_every = None

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def advance(self, secs):
        self.now += _dt.timedelta(seconds=secs)
        self.sim_seconds += secs

    def gc(self):
        if GC_ALLOWED:
            self.gc_points += 1
            gc.collect()

    def urandom(self, n):
        return self.entropy.randbytes(n)


CURRENT = None      # the active World
GC_ALLOWED = True   # off: nothing is collected, so the raw I/O of a session depends on nothing but the session
IO_IN_DIGEST = True

_real_open = builtins.open
_real_io_open = io.open
_real_urandom = os.urandom
_real_datetime = _dt.datetime
_real_time = _time.time


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if CURRENT is not None:
        p = file
        if hasattr(p, "__fspath__"):
            p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        if isinstance(p, str) and p.startswith(simdisk.PREFIX):
            return CURRENT.disk.open(p, mode, buffering, encoding, errors, newline)
    return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _sim_urandom(n):
    if CURRENT is not None:
        return CURRENT.urandom(n)
    return _real_urandom(n)


class SimDateTime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        if CURRENT is None:
            return _real_datetime.now(tz)
        n = CURRENT.now
        return cls(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond, tz)

    @classmethod
    def utcnow(cls):
        return cls.now()


def _sim_time():
    if CURRENT is None:
        return _real_time()
    return (CURRENT.now - _real_datetime(1970, 1, 1)).total_seconds()


_real_getsize = os.path.getsize
_real_exists = os.path.exists
_real_isfile = os.path.isfile


def _simname(p):
    if CURRENT is None:
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode()
    if p.startswith(simdisk.PREFIX):
        return simdisk.simname(p)
    return None


def _sim_getsize(p):
    n = _simname(p)
    if n is not None:
        if n not in CURRENT.disk.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return CURRENT.disk.files[n].size
    return _real_getsize(p)


def _sim_exists(p):
    n = _simname(p)
    if n is not None:
        return n in CURRENT.disk.files
    return _real_exists(p)


def _sim_isfile(p):
    n = _simname(p)
    if n is not None:
        return n in CURRENT.disk.files
    return _real_isfile(p)


aaf2 = None
_installed = False


def install():
    """Install the seams and import the code under test (once per process)."""
    global aaf2, _installed
    if _installed:
        return aaf2
    _installed = True
    sys.dont_write_bytecode = True
    builtins.open = _sim_open
    io.open = _sim_open
    os.urandom = _sim_urandom
    os.path.getsize = _sim_getsize
    os.path.exists = _sim_exists
    os.path.isfile = _sim_isfile
    _dt.datetime = SimDateTime
    _time.time = _sim_time
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, REPO_SRC)
    import aaf2 as m
    import aaf2.cfb, aaf2.cache, aaf2.mxf, aaf2.ama, aaf2.mobs, aaf2.essence  # noqa
    aaf2 = m
    where = os.path.realpath(m.__file__)
    if not where.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise RuntimeError("aaf2 imported from %s, not %s" % (where, REPO_SRC))
    _patch_caches()
    _install_monitor()
    gc.collect()
    gc.freeze()
    gc.disable()
    return aaf2


def _patch_caches():
    """Cache capacity is a tuning knob the simulator owns (guarded: if the code no longer
    has such a knob the shipped capacity is used)."""
    try:
        cls = aaf2.cache.LRUCacheDict
        orig = cls.__init__

        def __init__(self, *a, **k):
            if CURRENT is not None and CURRENT.cache_size and not a and not k:
                try:
                    return orig(self, CURRENT.cache_size)
                except TypeError:
                    pass
            return orig(self, *a, **k)
        cls.__init__ = __init__
    except AttributeError:
        pass


# ---- deterministic step counter ------------------------------------------

class _Steps(object):
    n = 0
    limit = None
    total = 0
    gc_next = None      # step at which the next injected collection happens
    gc_plan = None
    gc_done = 0
    interrupt = None    # (step, exception): an asynchronous exception in the code under test
    switch_next = None  # step at which another session takes over (sim/threads.py)
    switch = None


STEPS = _Steps
_TOOL = 3


def _install_monitor():
    """Count every jump (so every loop iteration) executed in the code under test.  Unbounded
    work either loops, and is caught here, or recurses, and is caught by the recursion limit."""
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "verifsim")
    root = os.path.realpath(REPO_SRC)
    D = mon.DISABLE
    S = STEPS

    def on_jump(code, off, dst):
        if not code.co_filename.startswith(root):
            return D
        S.n += 1
        if S.n == S.gc_next:
            _inject_gc()
        if S.n == S.switch_next:
            S.switch(code)
        if S.interrupt is not None and S.n >= S.interrupt[0]:
            e, S.interrupt = S.interrupt[1], None
            raise e
        if S.limit is not None and S.n > S.limit:
            lim = S.limit
            S.limit = S.n + lim
            raise StepLimit("more than %d steps in the code under test" % lim)

    mon.register_callback(_TOOL, mon.events.JUMP, on_jump)
    mon.set_events(_TOOL, mon.events.JUMP)


def _inject_gc():
    """A garbage collection in the middle of the code under test, at a seeded step."""
    rng, mean, left = STEPS.gc_plan
    if left <= 0:
        STEPS.gc_next = None
        return
    STEPS.gc_plan = (rng, mean, left - 1)
    STEPS.gc_next = None
    gc.collect()
    STEPS.gc_done += 1
    STEPS.gc_next = STEPS.n + 1 + int(rng.expovariate(1.0 / mean))


@contextlib.contextmanager
def world(seed, step_limit=30000000, cache_size=None, keep_log=False, io_limit=5000000, gc_mean=None, gc_max=80):
    """Enter a fresh simulated world."""
    global CURRENT
    w = World(seed, keep_log)
    w.cache_size = cache_size
    w.disk.op_limit = io_limit
    prev = CURRENT
    CURRENT = w
    rstate = random.getstate()
    random.seed(mix("random", seed))
    stdout, sys.stdout = sys.stdout, _NullOut()
    STEPS.n = 0
    STEPS.limit = step_limit
    STEPS.gc_done = 0
    STEPS.gc_next = None
    if gc_mean and GC_ALLOWED:
        rng = random.Random(mix("gc", seed))
        STEPS.gc_plan = (rng, gc_mean, gc_max)
        STEPS.gc_next = 1 + int(rng.expovariate(1.0 / gc_mean))
    try:
        yield w
    finally:
        STEPS.limit = None
        STEPS.gc_next = None
        w.gc_points += STEPS.gc_done
        w.steps = STEPS.n
        random.setstate(rstate)
        sys.stdout = stdout
        CURRENT = prev


class _NullOut(io.TextIOBase):
    """what the code under test prints goes nowhere"""

    def writable(self):
        return True

    def write(self, s):
        return len(s)


@contextlib.contextmanager
def enter(w):
    """Temporarily make another world current (twin runs)."""
    global CURRENT
    prev = CURRENT
    CURRENT = w
    try:
        yield w
    finally:
        CURRENT = prev


def from_code_under_test(exc):
    """True if the innermost frames of exc are in aaf2 (or below it)."""
    root = os.path.realpath(REPO_SRC)
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def where(exc):
    root = os.path.realpath(REPO_SRC)
    tb = exc.__traceback__
    last = ""
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(root):
            last = "%s:%s" % (os.path.basename(c.co_filename), c.co_name)
        tb = tb.tb_next
    return last


def lib(what, fn, *a, **k):
    """Call into the code under test where no exception is allowed."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except (Exception,) as e:
        raise Violation("unexpected-exception", "%s raised %s: %s (in %s)" % (what, type(e).__name__, str(e)[:200], where(e)))
    except StepLimit as e:
        raise Violation("unbounded-work", "%s: %s" % (what, e))


def lib_raises(what, fn, *a, **k):
    """Call into the code under test where an exception is required."""
    try:
        r = fn(*a, **k)
    except StepLimit as e:
        raise Violation("unbounded-work", "%s: %s" % (what, e))
    except Exception as e:
        return e
    raise Violation("forbidden-op-accepted", "%s succeeded, must raise (returned %.80r)" % (what, r))
