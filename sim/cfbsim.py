"""Compound-file workload engine: operations against the real CompoundFileBinary and a tree model."""
import io
import random

from . import core, refcfb
from .core import Violation, lib, lib_raises, pattern, dig

NAMES = (["a", "b", "B2", "c", "dd", "eE", "Ff1", "properties", "index", "Mobs-1901", "x" * 31, "Y" * 30,
          "\u00e9t\u00e9", "\u4e2d\u6587", "{0}", "name with space", "Data-2702", "!ctl", "zz", "q.r", "Root Entry"]
         + ["n%d" % i for i in range(12)] + ["node_%03d" % i for i in range(0, 60, 7)]
         + ["L" + "o" * i + "ng" for i in range(3, 24, 5)]
         + ["k_1", "kA1", "kz1", "k[1", "k`1", "K^1", "straum", "stra\u00dfe", "strasz", "\U0001f3ac", "\U0001f3ac1", "\u00ff", "\uff41",
            "p_x", "pax", "pZx", "pAX_", "p_ab", "\U0001f3acx"])


def name_of(k):
    return NAMES[k % len(NAMES)]


class M(object):
    """Model node."""
    __slots__ = ("name", "kind", "children", "data", "mask", "clsid", "flags", "ctime", "mtime", "parent")

    def __init__(self, name, kind, parent=None):
        self.name = name
        self.kind = kind            # 'd' or 's'
        self.children = {} if kind == "d" else None
        self.data = bytearray() if kind == "s" else None
        self.mask = None            # bytearray, 1 = unspecified byte
        self.clsid = None
        self.flags = 0
        self.ctime = 0
        self.mtime = 0
        self.parent = parent

    def path(self):
        p = []
        n = self
        while n.parent is not None:
            p.append(n.name)
            n = n.parent
        return "/" + "/".join(reversed(p))

    def nodes(self):
        out = []
        todo = [self]
        while todo:
            n = todo.pop()
            out.append(n)
            if n.children:
                for k in sorted(n.children, reverse=True):
                    todo.append(n.children[k])
        return out

    # byte-array semantics
    def put(self, pos, data):
        end = pos + len(data)
        if pos > len(self.data):
            self.grow(pos, False)
        if end > len(self.data):
            if self.mask is not None:
                self.mask.extend(bytes(end - len(self.data)))
            self.data.extend(bytes(end - len(self.data)))
        self.data[pos:end] = data
        if self.mask is not None:
            self.mask[pos:end] = bytes(len(data))

    def grow(self, size, unknown):
        n = size - len(self.data)
        if n <= 0:
            return
        if unknown and self.mask is None:
            self.mask = bytearray(len(self.data))
        if self.mask is not None:
            self.mask.extend((b"\1" if unknown else b"\0") * n)
        self.data.extend(bytes(n))

    def cut(self, size):
        del self.data[size:]
        if self.mask is not None:
            del self.mask[size:]
            if not any(self.mask):
                self.mask = None

    def differs(self, pos, got):
        """None if got equals data[pos:pos+len(got)] on specified bytes, else the first bad offset."""
        want = self.data[pos:pos + len(got)]
        if want == got:
            return None
        for i in range(len(got)):
            if i >= len(want) or (got[i] != want[i] and not (self.mask is not None and self.mask[pos + i])):
                return pos + i
        return None


class Handle(object):
    __slots__ = ("node", "s", "mode", "pos")

    def __init__(self, node, s, mode):
        self.node = node
        self.s = s
        self.mode = mode
        self.pos = 0


def make_model():
    r = M("Root Entry", "d")
    return r


class Session(object):
    """Drives one compound file. cfg: dict(ss, back, bufsize, cache)."""

    FILE = "t.cfb"

    def __init__(self, world, cfg, fname=None, model=None):
        self.w = world
        self.cfg = cfg
        self.FILE = fname or self.FILE
        self.ss = cfg.get("ss", 4096)
        self.back = cfg.get("back", "buf")
        self.model = model or make_model()
        self.handles = []
        self.pins = []
        self.cfb = None
        self.f = None
        self.states = set()
        self.nops = 0
        self.check_rb = cfg.get("rb", False)
        self.foreign = False
        self.readonly = False

    # ------------------------------------------------------------ sessions
    def buffering(self):
        if self.back == "raw":
            return 0
        return self.cfg.get("bufsize", -1)

    def create(self):
        if self.back == "bytesio":
            self.f = io.BytesIO()
        else:
            self.f = io.open(core.simdisk.simpath(self.FILE), "wb+", buffering=self.buffering())
        self.cfb = lib("create", core.aaf2.cfb.CompoundFileBinary, self.f, "wb+", sector_size=self.ss)
        self.model.clsid = None
        e = lib("find /", self.cfb.find, "/")
        self.model.clsid = e.class_id
        self.model.flags = e.flags

    def open_existing(self, mode="rb+"):
        self.f = io.open(core.simdisk.simpath(self.FILE), mode, buffering=self.buffering())
        self.readonly = mode == "rb"
        self.cfb = lib("open %s" % mode, core.aaf2.cfb.CompoundFileBinary, self.f, mode)

    def close(self):
        self.handles = []
        self.pins = []
        lib("close", self.cfb.close)
        if isinstance(self.f, io.BytesIO):
            self.w.disk.put(self.FILE, self.f.getvalue())
            self.back = "buf"           # an in-memory file is reopened from what it contained
        lib("close file", self.f.close)
        self.cfb = None
        self.f = None

    # ------------------------------------------------------------ selectors
    def streams(self):
        return [n for n in self.model.nodes() if n.kind == "s"]

    def dirs(self):
        return [n for n in self.model.nodes() if n.kind == "d"]

    def pick(self, lst, k):
        return lst[k % len(lst)] if lst else None

    def drop_handles(self, pred):
        self.handles = [h for h in self.handles if not pred(h)]

    # ------------------------------------------------------------ comparing
    def attr_check(self, n, e, where):
        want_type = "root storage" if n.parent is None else ("storage" if n.kind == "d" else "stream")
        if e.type != want_type:
            raise Violation("wrong-kind", "%s: %s is %s, model says %s" % (where, n.path(), e.type, want_type))
        if e.name != n.name and n.parent is not None:
            raise Violation("wrong-name", "%s: %s is named %r" % (where, n.path(), e.name))
        if e.class_id != n.clsid:
            raise Violation("wrong-attributes", "%s: %s class id %s, model %s" % (where, n.path(), e.class_id, n.clsid))
        if e.flags != n.flags or e.create_time != n.ctime or e.modify_time != n.mtime:
            raise Violation("wrong-attributes", "%s: %s flags/times %r, model %r" % (
                where, n.path(), (e.flags, e.create_time, e.modify_time), (n.flags, n.ctime, n.mtime)))
        if n.kind == "s" and e.byte_size != len(n.data):
            raise Violation("wrong-size", "%s: %s has size %d, model %d" % (where, n.path(), e.byte_size, len(n.data)))

    def verify(self, where, data=True, attrs=True):
        """Compare everything visible through the API with the model."""
        def go():
            todo = [(self.model, self.cfb.find("/"))]
            while todo:
                n, e = todo.pop()
                if attrs:
                    self.attr_check(n, e, where)
                if n.kind == "d":
                    got = sorted(c.name for c in self.cfb.listdir(e))
                    want = sorted(n.children)
                    if got != want:
                        raise Violation("wrong-listing", "%s: %s lists %s, model %s" % (
                            where, n.path(), _diff(got, want), _diff(want, got)))
                    for k in want:
                        c = n.children[k]
                        ce = self.cfb.find(c.path())
                        if ce is None:
                            raise Violation("lost-entry", "%s: %s not found" % (where, c.path()))
                        todo.append((c, ce))
                elif data:
                    s = e.open("r")
                    b = s.read()
                    if len(b) != len(n.data):
                        raise Violation("wrong-content", "%s: %s reads %d bytes, model %d" % (where, n.path(), len(b), len(n.data)))
                    bad = n.differs(0, b)
                    if bad is not None:
                        raise Violation("wrong-content", "%s: %s (%d bytes) differs at offset %d" % (where, n.path(), len(n.data), bad))
        lib("verify %s" % where, go)
        self.note_state()

    def note_state(self):
        def sz(n):
            n = len(n)
            for i, lim in enumerate((1, 64, 65, 512, 513, 4095, 4096, 4097, 8192, 8193, 65536)):
                if n < lim:
                    return i
            return 99
        k = []
        for n in self.model.nodes():
            k.append((n.kind, sz(n.data) if n.kind == "s" else len(n.children)))
        self.states.add(core.mix(self.ss, self.back, k))

    def audit_file(self, where, content=True, strict=True):
        """Independent reader over the closed file."""
        try:
            if not strict:
                return None
            r = refcfb.Reader(self.w.disk.files[self.FILE])
            if strict:
                r.audit(own_layout=not self.foreign)
            if content:
                self.compare_reader(r, where)
            if r.ndifat:
                self.w.probe("closed_files_with_%d_extended_tables" % min(r.ndifat, 3))
            if self.check_rb and not self.foreign:
                p = r.rb_problem()
                if p:
                    raise Violation("invalid-structure:rb", "%s: %s" % (where, p))
        except refcfb.Bad as b:
            raise Violation("invalid-structure:" + b.cls, "%s: %s" % (where, b.detail))
        return r

    def compare_reader(self, r, where):
        tree = r.tree()
        want = {n.path(): n for n in self.model.nodes() if n.parent is not None}
        if set(tree) != set(want):
            raise Violation("file-tree", "%s: file has extra %s, lacks %s" % (
                where, sorted(set(tree) - set(want))[:3], sorted(set(want) - set(tree))[:3]))
        for p, n in want.items():
            e = tree[p]
            if (e.type == 1) != (n.kind == "d"):
                raise Violation("file-tree", "%s: %s has type %d" % (where, p, e.type))
            cid = bytes(16) if n.clsid is None else n.clsid.bytes_le
            if bytes(e.clsid) != bytes(cid) or e.flags != n.flags or e.ctime != n.ctime or e.mtime != n.mtime:
                raise Violation("file-attributes", "%s: %s class id/flags/times differ in the file" % (where, p))
            if n.kind == "s":
                if e.size != len(n.data):
                    raise Violation("file-content", "%s: %s has %d bytes in the file, model %d" % (where, p, e.size, len(n.data)))
                bad = n.differs(0, r.content(e))
                if bad is not None:
                    raise Violation("file-content", "%s: %s (%d bytes) differs in the file at offset %d" % (where, p, len(n.data), bad))

    # ------------------------------------------------------------ operations
    def run(self, ops):
        log = self.w.log
        for i, op in enumerate(ops):
            fn = getattr(self, "op_" + op[0])
            log("op", i, op)
            self.i = i
            r = fn(*op[1:])
            log("->", r)
            self.nops += 1
            ge = self.cfg.get("gc_every")
            if ge and self.nops % ge == 0:
                self.w.gc()

    def tag(self, what):
        return "op %d %s" % (self.i, what)

    # --- streams
    def op_new(self, d, nm, mode, via=0):
        parent = self.pick(self.dirs(), d)
        name = name_of(nm)
        if _fold(name) in [_fold(c) for c in parent.children]:
            return "dup"
        n = M(name, "s", parent)
        path = n.path()
        if via % 3 == 1:
            pe = lib("find", self.cfb.find, parent.path())
            e = lib(self.tag("touch %s" % path), pe.touch, name)
            s = lib("open", e.open, mode if mode != "r" else "rw")
        else:
            s = lib(self.tag("create stream %s" % path), self.cfb.open, path, "w" if mode == "r" else mode)
        parent.children[name] = n
        self.handles.append(Handle(n, s, "rw"))
        if len(self.handles) > 12:
            self.handles.pop(0)
        return path

    def op_touch(self, d, nm):
        parent = self.pick(self.dirs(), d)
        name = name_of(nm)
        pe = lib("find", self.cfb.find, parent.path())
        if name in parent.children:
            e = lib(self.tag("touch existing"), pe.touch, name)
            if e.name != name:
                raise Violation("wrong-entry", "touch returned %r for %r" % (e.name, name))
            return "exists"
        if _fold(name) in [_fold(c) for c in parent.children]:
            return "dup"
        e = lib(self.tag("touch %s in %s" % (name, parent.path())), pe.touch, name)
        parent.children[name] = M(name, "s", parent)
        return name

    def op_open(self, k, mode, via=0):
        n = self.pick(self.streams(), k)
        if n is None:
            return None
        if mode == "r":
            if any(h.node is n and h.mode != "r" for h in self.handles):
                self.drop_handles(lambda h: h.node is n)
        else:
            self.drop_handles(lambda h: h.node is n)
        p = n.path()
        if via % 2 and mode != "w":
            e = lib("find", self.cfb.find, p)
            s = lib(self.tag("open %s %s" % (p, mode)), e.open, mode)
        else:
            s = lib(self.tag("open %s %s" % (p, mode)), self.cfb.open, p, mode)
        if mode == "w":
            n.cut(0)
            n.mask = None
            n.clsid = None
        self.handles.append(Handle(n, s, mode if mode == "r" else "rw"))
        if len(self.handles) > 12:
            self.handles.pop(0)
        return p

    def _h(self, k, write=False):
        hs = [h for h in self.handles if not write or h.mode != "r"]
        return self.pick(hs, k)

    def op_write(self, k, n, tag):
        h = self._h(k, True)
        if h is None:
            return None
        data = pattern(tag, n)
        if tag & 1:
            data = bytearray(data)
        lib(self.tag("write %d at %d to %s (%d bytes)" % (n, h.pos, h.node.path(), len(h.node.data))), h.s.write, data)
        if n:
            h.node.put(h.pos, data)
        h.pos += n
        self._tell(h)
        if h.node.mask is not None and not any(h.node.mask):
            h.node.mask = None
        return (h.node.path(), h.pos, len(h.node.data))

    def _tell(self, h):
        t = lib("tell", h.s.tell)
        if t != h.pos:
            raise Violation("wrong-position", "%s: position %d, model %d" % (self.tag(h.node.path()), t, h.pos))

    def op_read(self, k, n):
        h = self._h(k)
        if h is None:
            return None
        if n < 0:
            b = lib(self.tag("read all of %s" % h.node.path()), h.s.read)
            want = max(0, len(h.node.data) - h.pos)
        else:
            b = lib(self.tag("read %d of %s" % (n, h.node.path())), h.s.read, n)
            want = max(0, min(n, len(h.node.data) - h.pos))
        if len(b) != want:
            raise Violation("wrong-read", "%s: read %d bytes at %d of %d, model %d" % (self.tag(h.node.path()), len(b), h.pos, len(h.node.data), want))
        bad = h.node.differs(h.pos, b)
        if bad is not None:
            raise Violation("wrong-read", "%s: read at %d (%d bytes) differs at offset %d" % (self.tag(h.node.path()), h.pos, want, bad))
        h.pos += want
        self._tell(h)
        return dig(b) if h.node.mask is None else len(b)

    def op_seek(self, k, pos, whence=0):
        """Seek within the stream; past-the-end only through writable handles (it pads with zeros)."""
        h = self._h(k)
        if h is None:
            return None
        size = len(h.node.data)
        over = 0
        if h.mode != "r" and pos % 7 == 0 and size < 400000:
            over = pos % 9000
        target = pos % (size + 1) if not over else size + over
        if whence == 1:
            r = lib(self.tag("seek cur"), h.s.seek, target - h.pos, 1)
        elif whence == 2:
            r = lib(self.tag("seek end"), h.s.seek, target - size, 2)
        else:
            r = lib(self.tag("seek"), h.s.seek, target)
        if target > size:
            h.node.grow(target, False)
            self.w.probe("seek_past_end")
        h.pos = target
        if r != target:
            raise Violation("wrong-position", "%s: seek to %d returned %r" % (self.tag(""), target, r))
        self._tell(h)
        return target

    def op_end(self, k):
        h = self._h(k)
        if h is None:
            return None
        h.pos = len(h.node.data)
        lib(self.tag("seek end"), h.s.seek, 0, 2)
        self._tell(h)
        return h.pos

    def op_rseek(self, k, pos):
        """Seek past the end on a reading handle: reads nothing, changes nothing."""
        h = self.pick([h for h in self.handles if h.mode == "r"], k)
        if h is None:
            return None
        size = len(h.node.data)
        lib(self.tag("seek past end on reading handle"), h.s.seek, size + pos)
        b = lib("read", h.s.read, 10)
        if len(b):
            raise Violation("wrong-read", "read past the end returned %d bytes" % len(b))
        h.s.seek(0)
        h.pos = 0
        return size

    def op_trunc(self, k, size, usepos=0):
        h = self._h(k, True)
        if h is None:
            return None
        n = h.node
        old = len(n.data)
        if usepos:
            size = h.pos
            lib(self.tag("truncate() at %d" % size), h.s.truncate)
        else:
            lib(self.tag("truncate %d -> %d" % (old, size)), h.s.truncate, size)
        if size < old:
            n.cut(size)
        else:
            n.grow(size, True)
        h.pos = min(h.pos, len(n.data))
        lib("seek", h.s.seek, h.pos)
        if old >= 4096 > size:
            self.w.probe("regular_to_mini")
        return (old, size)

    def op_closeh(self, k):
        if self.handles:
            h = self.handles.pop(k % len(self.handles))
            lib("close handle", h.s.close)
            return h.node.path()

    # --- namespace
    def _cid(self, k):
        if k % 3 == 0:
            return None
        return core.aaf2.auid.AUID(bytes_le=random.Random(k).randbytes(16))

    def op_mkdir(self, d, nm, cid=0, via=0):
        parent = self.pick(self.dirs(), d)
        name = name_of(nm)
        if _fold(name) in [_fold(c) for c in parent.children]:
            return "dup"
        n = M(name, "d", parent)
        c = self._cid(cid)
        if via % 3 == 1:
            pe = lib("find", self.cfb.find, parent.path())
            e = lib(self.tag("makedir %s" % n.path()), pe.makedir, name, c)
        elif via % 3 == 2:
            e = lib(self.tag("makedirs %s" % n.path()), self.cfb.makedirs, n.path())
            c = None
        else:
            e = lib(self.tag("makedir %s" % n.path()), self.cfb.makedir, n.path(), c)
        n.clsid = c
        parent.children[name] = n
        self.attr_check(n, e, self.tag("makedir"))
        return n.path()

    def op_makedirs(self, d, names):
        parent = self.pick(self.dirs(), d)
        path = parent.path().rstrip("/") + "/" + "/".join(name_of(k) for k in names)
        cur = parent
        bad = False
        add = []
        for k in names:
            nm = name_of(k)
            if cur is not None and nm in cur.children:
                cur = cur.children[nm]
                if cur.kind == "s":
                    bad = True
                    break
            elif cur is not None and _fold(nm) in [_fold(c) for c in cur.children]:
                return "dup"
            else:
                if cur is None:
                    cur = None
                add.append(nm)
                n = M(nm, "d", cur)
                # hang it on a side list until the call succeeded
                add[-1] = (cur, n)
                cur = n
        if bad:
            last = cur
            if names and name_of(names[-1]) == last.name and last.path() == path:
                return "stream"        # makedirs on an existing stream: unspecified
            # a stream in the middle of the path
            e = lib_raises(self.tag("makedirs %s through a stream" % path), self.cfb.makedirs, path)
            return type(e).__name__
        e = lib(self.tag("makedirs %s" % path), self.cfb.makedirs, path)
        for par, n in add:
            par.children[n.name] = n
        if e is None or e.path() != path:
            raise Violation("wrong-entry", "%s: makedirs returned %r" % (self.tag(path), e))
        return path

    def op_attrs(self, k, cid, flags, ct, mt):
        n = self.pick([x for x in self.model.nodes()], k)
        e = lib("find", self.cfb.find, n.path())

        def go():
            if cid >= 0:
                e.class_id = self._cid(cid)
            if flags >= 0:
                e.flags = flags
            if ct >= 0:
                e.create_time = ct
            if mt >= 0:
                e.modify_time = mt
        lib(self.tag("set attributes of %s" % n.path()), go)
        if cid >= 0:
            n.clsid = self._cid(cid)
        if flags >= 0:
            n.flags = flags
        if ct >= 0:
            n.ctime = ct
        if mt >= 0:
            n.mtime = mt
        return n.path()

    def _forget(self, top):
        gone = set(id(x) for x in top.nodes())
        self.drop_handles(lambda h: id(h.node) in gone)

    def op_remove(self, k):
        cand = [n for n in self.model.nodes() if n.parent is not None and (n.kind == "s" or not n.children)]
        n = self.pick(cand, k)
        if n is None:
            return None
        self._forget(n)
        lib(self.tag("remove %s" % n.path()), self.cfb.remove, n.path())
        del n.parent.children[n.name]
        return n.path()

    def op_rmtree(self, k):
        cand = [n for n in self.model.nodes() if n.parent is not None and n.kind == "d"]
        n = self.pick(cand, k)
        if n is None:
            return None
        self._forget(n)
        lib(self.tag("rmtree %s" % n.path()), self.cfb.rmtree, n.path())
        del n.parent.children[n.name]
        self.w.probe("rmtree_entries", len(n.nodes()))
        return n.path()

    def op_move(self, k, d, nm, slash=0):
        cand = [n for n in self.model.nodes() if n.parent is not None]
        n = self.pick(cand, k)
        if n is None:
            return None
        dst = self.pick(self.dirs(), d)
        x = dst
        inside = False
        while x is not None:
            if x is n:
                inside = True
            x = x.parent
        name = n.name if slash else name_of(nm)
        path = dst.path().rstrip("/") + "/" + name
        src = n.path()
        if not (dst is n.parent and _fold(name) == _fold(n.name)) and \
                name not in dst.children and _fold(name) in [_fold(c) for c in dst.children]:
            return "dup"
        if dst is n.parent and name != n.name and _fold(name) == _fold(n.name):
            return "case"
        arg = dst.path().rstrip("/") + "/" if slash else path
        if inside or name in dst.children:
            e = lib_raises(self.tag("move %s to %s" % (src, arg)), self.cfb.move, src, arg)
            self.w.probe("forbidden_move")
            self.still(n)
            return type(e).__name__
        e = lib(self.tag("move %s to %s" % (src, arg)), self.cfb.move, src, arg)
        del n.parent.children[n.name]
        n.name = name
        n.parent = dst
        dst.children[name] = n
        if e is None or e.path() != path:
            raise Violation("wrong-entry", "%s: move returned %r" % (self.tag(path), e))
        return (src, path)

    def still(self, n):
        """n is still where the model has it"""
        e = lib("find", self.cfb.find, n.path())
        if e is None:
            raise Violation("failed-op-changed-state", "%s: %s is gone after a refused operation" % (self.tag(""), n.path()))

    def op_bad(self, kind, k, nm):
        """An operation the model forbids: it must raise and change nothing."""
        cfb = self.cfb
        nodes = self.model.nodes()
        streams = self.streams()
        dirs = self.dirs()
        name = name_of(nm)
        s = self.pick(streams, k)
        d = self.pick(dirs, k)
        missing = d.path().rstrip("/") + "/no such entry"
        full = [x for x in dirs if x.children and x.parent is not None]
        t = None
        if kind == 0:
            t = ("remove missing", cfb.remove, missing)
        elif kind == 1:
            t = ("remove root", cfb.remove, "/")
        elif kind == 2 and full:
            t = ("remove non-empty", cfb.remove, self.pick(full, k).path())
        elif kind == 3:
            t = ("makedir over existing", cfb.makedir, self.pick(nodes, k).path())
        elif kind == 4:
            t = ("makedir without parent", cfb.makedir, missing + "/x")
        elif kind == 5 and s is not None:
            t = ("makedir inside a stream", cfb.makedir, s.path() + "/x")
        elif kind == 6:
            t = ("open missing for reading", cfb.open, missing, "r")
        elif kind == 7:
            t = ("open a storage", cfb.open, d.path(), "r")
        elif kind == 8 and s is not None:
            t = ("listdir of a stream", cfb.listdir, s.path())
        elif kind == 9:
            t = ("listdir of a missing path", cfb.listdir, missing)
        elif kind == 10 and s is not None:
            t = ("move over existing", cfb.move, s.path(), self.pick(nodes[1:], nm).path())
        elif kind == 11:
            t = ("move missing", cfb.move, missing, "/zzz9")
        elif kind == 12 and s is not None:
            t = ("move to missing parent", cfb.move, s.path(), missing + "/x")
        elif kind == 13 and s is not None:
            o = self.pick(streams, nm)
            t = ("move below a stream", cfb.move, s.path(), o.path() + "/x")
        elif kind == 14:
            t = ("makedir with a name that is too long", cfb.makedir, d.path().rstrip("/") + "/" + "T" * (33 + nm % 40))
        elif kind == 15 and s is not None:
            t = ("create a stream below a stream", cfb.open, s.path() + "/x", "w")
        elif kind == 16:
            t = ("rmtree missing", cfb.rmtree, missing)
        elif kind == 17:
            t = ("open a missing parent for writing", cfb.open, missing + "/x", "w")
        elif kind == 18 and s is not None:
            t = ("move to a name that is too long", cfb.move, s.path(), "/" + "T" * (33 + nm % 40))
        elif kind == 19 and s is not None:
            e = lib("find", cfb.find, s.path())
            t = ("makedir on a stream entry", e.makedir, "x")
        elif kind == 20 and s is not None:
            t = ("walk a stream", lambda p: list(cfb.walk(p)), s.path())
        if t is None:
            return None
        e = lib_raises(self.tag(t[0] + " %s" % (t[2:],)), t[1], *t[2:])
        self.w.probe("forbidden_ops")
        if s is not None:
            self.still(s)
        return type(e).__name__

    def op_find(self, k, nm, mode=0):
        """find/exists of present, absent and below-a-stream paths"""
        cfb = self.cfb
        nodes = self.model.nodes()
        n = self.pick(nodes, k)
        if mode % 3 == 0:
            e = lib(self.tag("find"), cfb.find, n.path())
            if e is None or not lib("exists", cfb.exists, n.path()):
                raise Violation("lost-entry", "%s: %s not found" % (self.tag(""), n.path()))
            self.attr_check(n, e, self.tag("find"))
            if n.parent is not None and e.path() != n.path():
                raise Violation("wrong-path", "%s: entry at %s says its path is %s" % (self.tag(""), n.path(), e.path()))
            return n.path()
        if mode % 3 == 1:
            d = self.pick(self.dirs(), k)
            name = name_of(nm)
            if name in d.children:
                return "present"
            if _fold(name) in [_fold(c) for c in d.children]:
                return "case"
            p = d.path().rstrip("/") + "/" + name
            if lib("exists", cfb.exists, p) or lib("find", cfb.find, p) is not None:
                raise Violation("ghost-entry", "%s: %s should not exist" % (self.tag(""), p))
            pe = lib("find", cfb.find, d.path())
            if lib("get", pe.get, name) is not None:
                raise Violation("ghost-entry", "%s: get(%s) should be None" % (self.tag(""), name))
            return p
        s = self.pick(self.streams(), k)
        if s is None:
            return None
        p = s.path() + "/" + name_of(nm)
        if lib(self.tag("exists %s" % p), cfb.exists, p):
            raise Violation("ghost-entry", "%s: %s should not exist" % (self.tag(""), p))
        return p

    def op_list(self, d):
        n = self.pick(self.dirs(), d)
        e = lib("find", self.cfb.find, n.path())
        how = d % 3
        if how == 0:
            got = lib(self.tag("listdir"), lambda: list(self.cfb.listdir(n.path())))
        elif how == 1:
            got = lib(self.tag("listdir"), lambda: list(e.listdir()))
        else:
            got = lib(self.tag("listdir"), lambda: list(self.cfb.listdir_dict(e).values()))
        names = sorted(x.name for x in got)
        if names != sorted(n.children):
            raise Violation("wrong-listing", "%s: %s lists +%s -%s" % (
                self.tag(""), n.path(), _diff(names, n.children), _diff(n.children, names)))
        for x in got:
            self.attr_check(n.children[x.name], x, self.tag("listdir"))
            c = n.children[x.name]
            if lib("isdir", x.isdir) != (c.kind == "d") or lib("isfile", x.isfile) != (c.kind == "s"):
                raise Violation("wrong-kind", "%s: isdir/isfile of %s" % (self.tag(""), c.path()))
        return len(names)

    def op_walk(self, d, topdown):
        n = self.pick(self.dirs(), d)
        got = []

        def go():
            for root, st, fi in self.cfb.walk(n.path(), topdown=bool(topdown)):
                got.append((root.path(), sorted(x.name for x in st), sorted(x.name for x in fi)))
        lib(self.tag("walk"), go)
        want = {}
        for x in n.nodes():
            if x.kind == "d":
                want[x.path()] = (sorted(c.name for c in x.children.values() if c.kind == "d"),
                                  sorted(c.name for c in x.children.values() if c.kind == "s"))
        # a walk may leave out directories that are empty
        seen = {}
        for p, a, b in got:
            if p in seen:
                raise Violation("wrong-walk", "%s: %s visited twice" % (self.tag(""), p))
            seen[p] = (a, b)
            if want.get(p) != (a, b):
                raise Violation("wrong-walk", "%s: %s gives %r, model %r" % (self.tag(""), p, (a, b), want.get(p)))
        for p, v in want.items():
            if p not in seen and v != ([], []):
                raise Violation("wrong-walk", "%s: %s not visited" % (self.tag(""), p))
        order = [p for p, a, b in got]
        for i, p in enumerate(order):
            for q in order[i + 1:]:
                if topdown and p.startswith(q.rstrip("/") + "/") and p != q:
                    raise Violation("wrong-walk", "%s: child %s before parent %s" % (self.tag(""), p, q))
                if not topdown and q.startswith(p.rstrip("/") + "/") and p != q:
                    raise Violation("wrong-walk", "%s: parent %s before child %s" % (self.tag(""), p, q))
        return len(got)

    def op_fill(self, d, count, order, seed, kind=0):
        """Many entries in one storage, inserted in a chosen order."""
        n = self.pick(self.dirs(), d)
        rng = random.Random(seed)
        if seed % 3 == 0:
            keys = ["".join(rng.choice("AZ_az[`{^bY") for _ in range(rng.choice([3, 4, 4]))) for i in range(count)]
            keys = list({_fold(k): k for k in keys}.values())
        else:
            keys = [("%0*d" % (1 + (i * 7 + seed) % 5, i)) if order % 4 == 3 else "k%05d" % i for i in range(count)]
        keys = list(dict.fromkeys(keys))
        if order % 4 == 0:
            rng.shuffle(keys)
        elif order % 4 == 1:
            keys.reverse()
        base = n.path().rstrip("/")
        have = set(_fold(c) for c in n.children)
        for k in keys:
            if _fold(k) in have:
                continue
            if (kind + len(k)) % 4 == 0 or kind == 1:
                lib(self.tag("fill makedir"), self.cfb.makedir, base + "/" + k)
                n.children[k] = M(k, "d", n)
            else:
                s = lib(self.tag("fill open"), self.cfb.open, base + "/" + k, "w")
                m = M(k, "s", n)
                n.children[k] = m
                if rng.random() < .2:
                    data = pattern(rng.randrange(1 << 20), rng.choice([1, 20, 64, 100, 700]))
                    lib("write", s.write, data)
                    m.put(0, data)
        self.w.probe("fill_entries", len(keys))
        return len(n.children)

    def op_thin(self, d, frac, order, seed):
        """Remove a fraction of a storage's entries in a chosen order."""
        n = self.pick(sorted(self.dirs(), key=lambda x: -len(x.children))[:2], d)
        rng = random.Random(seed)
        keys = sorted(n.children, key=lambda k: (len(k), k.upper()))
        if order % 3 == 0:
            rng.shuffle(keys)
        elif order % 3 == 1:
            keys.reverse()
        keys = keys[:max(1, len(keys) * frac // 100)]
        c = 0
        for k in keys:
            m = n.children.get(k)
            if m is None:
                continue
            self._forget(m)
            if m.kind == "d" and m.children:
                lib(self.tag("thin rmtree"), self.cfb.rmtree, m.path())
            else:
                lib(self.tag("thin remove %s" % m.path()), self.cfb.remove, m.path())
            del n.children[k]
            c += 1
        return c

    def op_pin(self, k):
        n = self.pick(self.model.nodes(), k)
        self.pins.append(lib("find", self.cfb.find, n.path()))
        if len(self.pins) > 6:
            self.pins.pop(0)
        return n.path()

    def op_unpin(self):
        self.pins = []

    def op_gc(self):
        self.w.gc()

    def op_verify(self):
        self.verify("op %d" % self.i)

    def op_reopen(self, mode="rb+", audit=True):
        self.close()
        if audit:
            self.audit_file("after close at op %d" % self.i, strict=self.cfg.get("strict", True))
        self.w.advance(60)
        self.open_existing("rb+")
        self.verify("after reopen at op %d" % self.i, data=self.nops % 3 != 0)
        self.w.probe("reopens")


def _diff(a, b):
    b = set(b)
    return [x for x in a if x not in b][:4]


_fold_cache = {}


def _fold(s):
    r = _fold_cache.get(s)
    if r is None:
        r = _fold_cache[s] = refcfb.up(s)
    return r


# ------------------------------------------------------------------------
# generators
# ------------------------------------------------------------------------

def gen_cfg(rng, backs=("buf", "buf", "buf", "raw", "bytesio")):
    cfg = {
        "ss": rng.choice([512, 512, 4096]),
        "back": rng.choice(backs),
        "bufsize": rng.choice([-1, -1, -1, 2, 64, 512, 4096, 1 << 16]),
        "cache": rng.choice([None, None, 1, 2, 3, 8, 48, 64, 128]),
        "gc_every": rng.choice([0, 0, 1, 3, 10]),
    }
    if rng.random() < .2:
        cfg["max_read"] = rng.choice([37, 100, 511, 4097])
    if rng.random() < .2:
        cfg["max_write"] = rng.choice([29, 100, 511, 4097])
    if cfg["back"] == "raw":
        cfg["max_read"] = cfg["max_write"] = None
    return cfg


SIZES = [0, 1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1023, 1024, 1025, 2048, 4031, 4032, 4095, 4096, 4097, 4160,
         5000, 8191, 8192, 8193, 12288, 16384, 20000]


def gen_size(rng, big=False):
    r = rng.random()
    if r < .7:
        return rng.choice(SIZES)
    if r < .9:
        return rng.randrange(0, 9000)
    if r < .97 or not big:
        return rng.randrange(0, 40000)
    return rng.randrange(40000, 300000)


class Gen(object):
    """Weighted op generator; weights vary per run (swarm)."""

    def __init__(self, rng, weights, big=False):
        self.rng = rng
        self.big = big
        w = {}
        for k, v in weights.items():
            if v and rng.random() < .85:
                w[k] = v * rng.choice([.3, 1, 1, 2, 4])
        self.keys = sorted(w) or sorted(weights)
        self.w = [w.get(k, 1) for k in self.keys]
        self.tagn = rng.randrange(1 << 16)
        self.small = rng.random() < .3      # only mini-stream sizes

    def size(self):
        if self.small:
            return self.rng.choice([0, 1, 20, 63, 64, 65, 130, 500, 1000, 4095])
        return gen_size(self.rng, self.big)

    def op(self):
        r = self.rng
        k = r.choices(self.keys, self.w)[0]
        R = r.randrange
        self.tagn += 1
        if k == "new":
            return ["new", R(1000), R(1000), r.choice(["w", "rw"]), R(3)]
        if k == "touch":
            return ["touch", R(1000), R(1000)]
        if k == "open":
            return ["open", R(1000), r.choice(["r", "r", "rw", "rw", "w"]), R(2)]
        if k == "write":
            return ["write", R(1000), self.size(), self.tagn]
        if k == "read":
            return ["read", R(1000), r.choice([-1, -1, 1, 10, 63, 64, 65, 511, 512, 4096, self.size()])]
        if k == "seek":
            return ["seek", R(1000), R(1 << 20), R(3)]
        if k == "rseek":
            return ["rseek", R(1000), R(10000) + 1]
        if k == "trunc":
            return ["trunc", R(1000), self.size(), 1 if r.random() < .2 else 0]
        if k == "closeh":
            return ["closeh", R(1000)]
        if k == "mkdir":
            return ["mkdir", R(1000), R(1000), R(1000), R(3)]
        if k == "makedirs":
            return ["makedirs", R(1000), [R(1000) for _ in range(r.randrange(1, 5))]]
        if k == "attrs":
            return ["attrs", R(1000), r.choice([-1, R(1000)]), r.choice([-1, R(1 << 32)]),
                    r.choice([-1, R(1 << 63)]), r.choice([-1, R(1 << 63)])]
        if k in ("remove", "rmtree", "pin"):
            return [k, R(1000)]
        if k == "move":
            return ["move", R(1000), R(1000), R(1000), 1 if r.random() < .2 else 0]
        if k == "bad":
            return ["bad", R(21), R(1000), R(1000)]
        if k == "find":
            return ["find", R(1000), R(1000), R(3)]
        if k == "list":
            return ["list", R(1000)]
        if k == "walk":
            return ["walk", R(1000), R(2)]
        if k == "fill":
            return ["fill", R(1000), r.choice([5, 20, 60, 150]), R(4), R(1 << 30), R(3)]
        if k == "thin":
            return ["thin", R(2), r.choice([10, 30, 50, 80, 100]), R(3), R(1 << 30)]
        return [k]

    def ops(self, n):
        return [self.op() for _ in range(n)]


W_STREAM = dict(new=6, open=5, write=14, read=8, seek=8, trunc=6, closeh=1, remove=2, gc=1, verify=2, reopen=1, rseek=1, mkdir=1)
W_NAME = dict(new=4, touch=3, write=2, mkdir=8, makedirs=3, attrs=3, remove=6, rmtree=2, move=8, bad=4, find=5, list=4, walk=2,
              fill=1, thin=1, pin=2, unpin=1, gc=1, verify=2, reopen=1.2, open=1)
W_ALL = dict(W_NAME, **W_STREAM)


def apply_disk_cfg(w, cfg):
    w.disk.max_read = cfg.get("max_read")
    w.disk.max_write = cfg.get("max_write")


def stats(w, sess):
    return {"probes": w.probes, "faults": w.disk.fired, "operations": sess.nops,
            "raw_io": dict(w.disk.counts), "gc_points": w.gc_points, "steps_in_code_under_test": core.STEPS.n,
            "simulated_seconds": w.sim_seconds, "raw_bytes_written": w.disk.bytes_written, "raw_bytes_read": w.disk.bytes_read}


def run_plan(plan, keep_log=False, before=None):
    cfg = plan["cfg"]
    with core.world(plan["seed"], cache_size=cfg.get("cache"), keep_log=keep_log, gc_mean=cfg.get("gc_mean")) as w:
        apply_disk_cfg(w, cfg)
        s = Session(w, cfg)
        s.i = -1
        if before:
            before(w, s)
        else:
            s.create()
        s.run(plan["ops"])
        s.i = len(plan["ops"])
        s.verify("at the end")
        s.close()
        s.audit_file("final file", strict=cfg.get("strict", True))
        s.open_existing("rb")
        s.verify("final reopen read-only")
        s.close()
        return {"digest": w.log.digest(), "logic": w.log.logic.hexdigest()[:24], "image": w.disk.get(s.FILE), "lines": w.log.lines,
                "stats": stats(w, s), "states": list(s.states), "nontrivial": s.nops >= 5,
                "sample": {"seed": plan["seed"], "cfg": cfg, "ops": plan["ops"][:12], "log_digest": w.log.digest()},
                "log": w.log.lines if keep_log else None}
