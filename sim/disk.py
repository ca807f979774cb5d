"""Simulated disk: an in-memory, sparse, fault-injecting file store.

A SimRaw is an io.RawIOBase over a Blob; the *real* io.BufferedReader/BufferedRandom/
BufferedWriter classes are put on top of it exactly as io.open would.  Every raw
operation is counted, logged and offered to the fault injector.
"""
import errno
import io
import zlib

PREFIX = "/simfs/"
PAGE = 1 << 16
SWITCH = None       # called at every raw operation while sessions run interleaved (sim/threads.py)
TAG = ""            # distinguishes the paths of sessions that run interleaved


def simpath(name):
    return PREFIX + TAG + name


def simname(path):
    return path[len(PREFIX):].rpartition("/")[2]


class Blob(object):
    """Sparse byte container (pages of 64 KiB)."""

    def __init__(self, data=b""):
        self.pages = {}
        self.size = 0
        if data:
            self.write(0, data)

    def read(self, pos, n):
        n = max(0, min(n, self.size - pos))
        if n == 0:
            return b""
        pi, off = divmod(pos, PAGE)
        if off + n <= PAGE:
            page = self.pages.get(pi)
            return bytes(n) if page is None else bytes(page[off:off + n])
        out = []
        while n > 0:
            k = min(n, PAGE - off)
            page = self.pages.get(pi)
            out.append(bytes(k) if page is None else bytes(page[off:off + k]))
            n -= k
            pi += 1
            off = 0
        return b"".join(out)

    def write(self, pos, data):
        mv = memoryview(data).cast("B")
        n = len(mv)
        end = pos + n
        pi, off = divmod(pos, PAGE)
        i = 0
        while i < n:
            k = min(n - i, PAGE - off)
            page = self.pages.get(pi)
            if page is None:
                page = self.pages[pi] = bytearray(PAGE)
            page[off:off + k] = mv[i:i + k]
            i += k
            pi += 1
            off = 0
        if n and end > self.size:
            self.size = end

    def truncate(self, size):
        if size < self.size:
            pi, off = divmod(size, PAGE)
            for k in [k for k in self.pages if k > pi or (k == pi and off == 0)]:
                del self.pages[k]
            if off and pi in self.pages:
                self.pages[pi][off:] = bytes(PAGE - off)
        self.size = size

    def bytes(self):
        return self.read(0, self.size)

    def copy(self):
        b = Blob()
        b.pages = {k: bytearray(v) for k, v in self.pages.items()}
        b.size = self.size
        return b


class SimFaultError(OSError):
    """An injected I/O error (an OSError with a marker type)."""


READ_KINDS = ("r_eio", "r_short")
WRITE_KINDS = ("w_eio", "w_enospc", "w_short", "t_eio", "c_eio")


class Disk(object):
    def __init__(self, log):
        self.log = log
        self.files = {}
        self.handles = []          # every SimRaw ever opened
        self.armed = []            # armed faults
        self.fired = {}            # kind -> count
        self.nops = 0
        self.counts = {"read": 0, "write": 0, "seek": 0, "truncate": 0, "open": 0, "close": 0}
        self.bytes_read = 0
        self.bytes_written = 0
        self.record = None         # list collecting (name, op, pos, data) writes
        self.full_at = None        # ENOSPC when a write extends a file past this size
        self.on_op = None          # callback before every raw op (C13 scheduler)
        self.max_read = None       # cap of bytes a raw read returns (legal short reads)
        self.max_read_names = None      # to which files that applies (None: all)
        self.max_write = None      # cap of bytes a raw write accepts (legal short writes)
        self.write_attempts = {}   # name -> raw write/truncate calls
        self.fault_scope = None    # only this file name sees faults
        self.op_limit = None

    # -- faults -----------------------------------------------------------
    def arm(self, kind, after=0, times=1, arg=0):
        self.armed.append({"kind": kind, "after": after, "times": times, "arg": arg})

    def disarm(self):
        self.armed = []
        self.full_at = None
        self.max_read = None
        self.max_read_names = None      # to which files that applies
        self.max_write = None

    def note(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def fault(self, prefix, name):
        """Return the fault (dict) to apply to this raw op, or None."""
        if not self.armed:
            return None
        if self.fault_scope is not None and name != self.fault_scope:
            return None
        hit = None
        for f in self.armed:
            if not f["kind"].startswith(prefix):
                continue
            if f["after"] > 0:
                f["after"] -= 1
                continue
            if f["times"] > 0 and hit is None:
                f["times"] -= 1
                hit = f
        if hit is not None:
            self.armed = [f for f in self.armed if f["times"] > 0]
            self.note(hit["kind"])
        return hit

    def tick(self, what, name, a=0, b=0):
        self.nops += 1
        self.counts[what] += 1
        self.log.io(what, name, a, b)
        if self.op_limit is not None and self.nops > self.op_limit:
            from .core import StepLimit
            raise StepLimit("raw I/O operations exceed %d" % self.op_limit)
        if self.on_op is not None:
            self.on_op(what, name)
        if SWITCH is not None:
            SWITCH("io")

    # -- files ------------------------------------------------------------
    def put(self, name, data):
        self.files[name] = data if isinstance(data, Blob) else Blob(data)

    def get(self, name):
        return self.files[name].bytes()

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        name = simname(path)
        text = "b" not in mode
        m = mode.replace("b", "").replace("t", "")
        self.tick("open", name)
        f = self.fault("o_", name)
        if f:
            raise SimFaultError(errno.EIO, "simulated open failure", path)
        plus = "+" in m
        base = m.replace("+", "")
        if base == "r":
            if name not in self.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            r, w = True, plus
        elif base == "w":
            self.files[name] = Blob()
            r, w = plus, True
        elif base == "x":
            if name in self.files:
                raise FileExistsError(errno.EEXIST, "File exists", path)
            self.files[name] = Blob()
            r, w = plus, True
        elif base == "a":
            self.files.setdefault(name, Blob())
            r, w = plus, True
        else:
            raise ValueError("invalid mode: %r" % mode)
        raw = SimRaw(self, name, r, w, mode)
        if base == "a":
            raw.pos = raw.blob.size
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if r and w:
            buf = io.BufferedRandom(raw, size)
        elif w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if text:
            return io.TextIOWrapper(buf, encoding, errors, newline)
        return buf

    def open_handles(self):
        return [h for h in self.handles if not h.closed]


class SimRaw(io.RawIOBase):
    def __init__(self, disk, name, r, w, mode):
        io.RawIOBase.__init__(self)
        self.disk = disk
        self._name = name
        self.blob = disk.files[name]
        self._r = r
        self._w = w
        self.mode = mode
        self.pos = 0
        disk.handles.append(self)

    @property
    def name(self):
        return simpath(self._name)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        d = self.disk
        mv = memoryview(b).cast("B")
        n = min(len(mv), max(0, self.blob.size - self.pos))
        d.tick("read", self._name, self.pos, len(mv))
        f = d.fault("r_", self._name)
        if f:
            if f["kind"] == "r_eio":
                raise SimFaultError(errno.EIO, "simulated read error")
            if f["kind"] == "r_short" and n > 1:
                n = 1 + (f["arg"] % (n - 1))
        elif d.max_read and n > d.max_read and (d.max_read_names is None or self._name in d.max_read_names):
            n = d.max_read
            d.note("r_capped")
        data = self.blob.read(self.pos, n)
        mv[:n] = data
        self.pos += n
        d.bytes_read += n
        return n

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        d = self.disk
        mv = memoryview(b).cast("B")
        n = len(mv)
        d.write_attempts[self._name] = d.write_attempts.get(self._name, 0) + 1
        d.log.io("data", self._name, n, zlib.crc32(mv))
        d.tick("write", self._name, self.pos, n)
        f = d.fault("w_", self._name)
        if f:
            if f["kind"] == "w_eio":
                raise SimFaultError(errno.EIO, "simulated write error")
            if f["kind"] == "w_enospc":
                raise SimFaultError(errno.ENOSPC, "simulated: no space left on device")
            if f["kind"] == "w_short" and n > 1:
                n = 1 + (f["arg"] % (n - 1))
        elif d.max_write and n > d.max_write:
            n = d.max_write
            d.note("w_capped")
        if d.full_at is not None and (d.fault_scope is None or d.fault_scope == self._name):
            end = self.pos + n
            if end > d.full_at and end > self.blob.size:
                room = max(self.blob.size, d.full_at) - self.pos
                d.note("disk_full")
                if room <= 0:
                    raise SimFaultError(errno.ENOSPC, "simulated: no space left on device")
                n = min(n, room)
        data = bytes(mv[:n])
        if d.record is not None:
            d.record.append((self._name, "w", self.pos, data))
        self.blob.write(self.pos, data)
        self.pos += n
        d.bytes_written += n
        return n

    def seek(self, offset, whence=0):
        self._check()
        if whence == 0:
            p = offset
        elif whence == 1:
            p = self.pos + offset
        else:
            p = self.blob.size + offset
        if p < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.disk.counts["seek"] += 1
        self.pos = p
        return p

    def tell(self):
        self._check()
        return self.pos

    def truncate(self, size=None):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("truncate")
        d = self.disk
        if size is None:
            size = self.pos
        d.write_attempts[self._name] = d.write_attempts.get(self._name, 0) + 1
        d.tick("truncate", self._name, size)
        if d.fault("t_", self._name):
            raise SimFaultError(errno.EIO, "simulated truncate error")
        if d.record is not None:
            d.record.append((self._name, "t", size, b""))
        self.blob.truncate(size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            self.disk.counts["close"] += 1
            self.disk.log.io("close", self._name, 0, 0)
        if self.disk.fault("c_", self._name):
            raise SimFaultError(errno.EIO, "simulated close error")

    def __del__(self):
        # a handle that is only closed by the garbage collector counts as leaked:
        # remember it, quietly
        if not self.closed:
            self.disk.note_gc_close = getattr(self.disk, "note_gc_close", 0) + 1
            try:
                io.RawIOBase.close(self)
            except Exception:
                pass
