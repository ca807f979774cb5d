"""Damage to compound files: crash images, truncation, lost and misdirected sectors, flipped bytes, redirected
pointers, counts and sizes.  Everything is resolved from small integers against an independent parse of the valid
image, so a damage plan is short, repeatable and shrinks."""
import struct

from . import refcfb
from .core import mix
from .disk import Blob

U32 = (0, 1, 2, 3, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC, 0xFFFFFFFA, 0x00FFFFFF, 0x01000000, 0x00FFFF00, 0x10000000,
       0x0FFFFFFF, 0x00010000, 0x0000FFFF, 0x00100000, 0x20000000)
U64 = (0, 1, 63, 64, 4095, 4096, 1 << 16, 1 << 20, 1 << 24, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63,
       (1 << 64) - 1)
U16 = (0, 1, 2, 3, 5, 9, 12, 31, 63, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0x0100)
KINDS = {"trunc": 1.2, "flip": 1.5, "zero": .7, "copy": .7, "swap": .3, "hdr": 2, "difat": 1.2, "fat": 3, "minifat": 2, "dirent": 5, "name": .7,
         "sibling": 1.5, "child": 2, "index": 4, "props": 5, "weak": 1, "text": .7, "dup": .7, "meta": 4, "sdata": 1, "size": 2, "grow": .2,
         "parents": .6, "mobref": 2, "arrays": .7, "tables": .4, "circle": 1.2}
HDR = (("clsid", 8, 4), ("minor", 24, 2), ("major", 26, 2), ("bo", 28, 2), ("shift", 30, 2), ("mshift", 32, 2), ("ndir", 40, 4), ("nfat", 44, 4),
       ("dirstart", 48, 4), ("txn", 52, 4), ("cutoff", 56, 4), ("minifat", 60, 4), ("nminifat", 64, 4), ("difat", 68, 4), ("ndifat", 72, 4))


def gen(rng, n, kinds=KINDS):
    ks = sorted(kinds)
    return [[rng.choices(ks, [kinds[k] for k in ks])[0], rng.getrandbits(24), rng.getrandbits(24), rng.getrandbits(24)] for _ in range(n)]


class Layout(object):
    """where everything is in a valid compound file"""

    def __init__(self, data, focus=False):
        self.size = len(data)
        r = self.r = refcfb.Reader(data, False)
        self.ss = r.ss
        self.streams = []        # (path, entry, kind)
        self.storages = []

        def go(e, path):
            for n in sorted(e.children):
                c = e.children[n]
                p = path + "/" + n
                if c.type == 1:
                    self.storages.append((p, c))
                    go(c, p)
                else:
                    self.streams.append((p, c, "props" if n == "properties" else "index" if n.endswith(" index") else
                                         "weak" if p == "/referenced properties" else "data"))
        go(r.root, "")
        self.used = [e for e in r.entries if e.type]
        self.all_streams = self.streams
        if focus:
            # leave the class and type definitions alone
            self.streams = [x for x in self.streams if not x[0].startswith("/Meta")]
            self.storages = [x for x in self.storages if not x[0].startswith("/Meta")]
            self.used = [e for e in self.used if e is r.root or any(e is x[1] for x in self.streams + self.storages)]

    def objects(self):
        """[(path, storage entry, properties stream entry, {pid: (format, offset, bytes)})] of an AAF file"""
        if self._objects is None:
            self._objects = []
            st = dict(self.storages)
            for p, e, k in self.all_streams:
                if k != "props":
                    continue
                d = self.r.content(e)
                props = {}
                n = struct.unpack_from("<H", d, 2)[0]
                off = 4 + 6 * n
                for i in range(n):
                    if 10 + 6 * i > len(d):
                        break
                    pid, fmt, sz = struct.unpack_from("<HHH", d, 4 + 6 * i)
                    props[pid] = (fmt, off, d[off:off + sz])
                    off += sz
                path = p.rpartition("/")[0]
                self._objects.append((path, st.get(path, self.r.root), e, props))
        return self._objects

    _objects = None

    def dirpos(self, i):
        s, o = divmod(i * 128, self.ss)
        return (self.r.dir_chain[s] + 1) * self.ss + o

    def fatpos(self, i):
        s, o = divmod(i * 4, self.ss)
        return (self.r.fat_sectors[s] + 1) * self.ss + o

    def minipos(self, i):
        s, o = divmod(i * 4, self.ss)
        return (self.r.minifat_chain[s] + 1) * self.ss + o

    def spos(self, e, o):
        """file position of byte o of a stream"""
        r = self.r
        if e.size < r.cutoff:
            m = e.chain[o // 64] * 64 + o % 64
            return (r.mini_chain[m // self.ss] + 1) * self.ss + m % self.ss
        return (e.chain[o // self.ss] + 1) * self.ss + o % self.ss


class Damager(object):
    def __init__(self, data, focus=False):
        self.l = Layout(data, focus)
        self.b = Blob(data)
        self.done = []

    def put(self, pos, data, what):
        old = self.b.read(pos, len(data))
        if old == data:
            return
        self.b.write(pos, data)
        self.done.append(what)

    def sput(self, e, o, data, what):
        for i in range(len(data)):
            if o + i < e.size:
                self.put(self.l.spos(e, o + i), data[i:i + 1], what)

    def u(self, pos, size, v, what):
        self.put(pos, (v & ((1 << (8 * size)) - 1)).to_bytes(size, "little"), what)

    def val32(self, b, c, extra=()):
        """a value for a 32-bit field"""
        k = b % 4
        if k == 0 or not extra:
            return U32[c % len(U32)]
        return extra[c % len(extra)]

    def one(self, kind, a, b, c):
        getattr(self, "do_" + kind)(a, b, c)

    def do_trunc(self, a, b, c):
        n = self.b.size
        if not n:
            return
        to = a % n
        if b % 3 == 0:
            to -= to % self.l.ss
        elif b % 3 == 1:
            to = min(to, (c % 64) * 128)
        self.b.truncate(to)
        self.done.append("truncated")

    def do_grow(self, a, b, c):
        self.b.write(self.b.size, bytes(a % 5000 + 1))
        self.done.append("grown")

    def do_flip(self, a, b, c):
        for i in range(1 + c % 4):
            p = mix(a, i) % max(1, self.l.size)
            self.put(p, bytes([b >> (8 * i % 24) & 255]), "flipped byte")

    def sector(self, a):
        return (a % max(1, self.l.r.nsect) + 1) * self.l.ss

    def do_zero(self, a, b, c):
        self.put(self.sector(a), bytes(self.l.ss), "lost sector")

    def do_copy(self, a, b, c):
        self.put(self.sector(a), self.b.read(self.sector(b), self.l.ss), "misdirected sector")

    def do_swap(self, a, b, c):
        x, y = self.b.read(self.sector(a), self.l.ss), self.b.read(self.sector(b), self.l.ss)
        self.put(self.sector(b), x, "swapped sector")
        self.put(self.sector(a), y, "swapped sector")

    def do_hdr(self, a, b, c):
        n, o, size = HDR[6 + a % 9] if a % 8 else HDR[b % len(HDR)]
        v = U16[c % len(U16)] if size == 2 else self.val32(b, c, range(self.l.r.nsect + 2))
        self.u(o, size, v, "header field")

    def do_difat(self, a, b, c):
        r = self.l.r
        if r.difat_sectors and a % 2:
            s = r.difat_sectors[b % len(r.difat_sectors)]
            o = (s + 1) * self.l.ss + (self.l.ss - 4 if a % 4 == 1 else (c >> 4) % (self.l.ss // 4) * 4)
            self.u(o, 4, self.val32(b >> 4, c, r.difat_sectors + r.fat_sectors + [c % r.nsect]), "difat entry")
            return
        if a % 8 == 0:
            # an extended table where there is none
            self.u(68, 4, c % r.nsect, "difat start")
            self.u(72, 4, self.val32(b, c >> 3), "difat count")
            if b % 3 == 0:
                self.u((c % r.nsect + 2) * self.l.ss - 4, 4, c % r.nsect, "difat cycle")
            return
        i = a % (len(r.fat_sectors) + 3) % 109
        self.u(76 + 4 * i, 4, self.val32(b, c, r.fat_sectors + [c % r.nsect]), "difat entry")

    def do_fat(self, a, b, c):
        r = self.l.r
        used = sorted(r.owner)
        s = used[a % len(used)]
        who = r.owner[s]
        same = [x for x in used if r.owner[x] == who]
        self.u(self.l.fatpos(s), 4, [self.val32(3, c, [s]), self.val32(3, c, same), self.val32(3, c, used), self.val32(0, c)][b % 4], "fat entry")

    def do_minifat(self, a, b, c):
        r = self.l.r
        used = sorted(r.mini_owner)
        if not used:
            return
        s = used[a % len(used)]
        self.u(self.l.minipos(s), 4, [s, used[c % len(used)], self.val32(0, c), r.mini_owner and used[0]][b % 4], "minifat entry")

    def do_dirent(self, a, b, c):
        l = self.l
        e = l.used[a % len(l.used)]
        p = l.dirpos(e.id)
        f, o, size = (("left", 68, 4), ("right", 72, 4), ("child", 76, 4), ("start", 116, 4), ("size", 120, 8), ("type", 66, 1), ("namelen", 64, 2),
                      ("color", 67, 1), ("clsid", 80, 16))[b % 9]
        if f == "clsid":
            o2 = l.used[c % len(l.used)]
            self.put(p + o, o2.clsid, "class of an entry")
        elif size == 1:
            self.u(p + o, 1, c % 7 if c % 5 else c >> 8, "entry " + f)
        elif size == 2:
            self.u(p + o, 2, c % 80 if c % 3 else U16[c % len(U16)], "entry " + f)
        elif size == 8:
            self.do_size(a, b, c)
        else:
            self.u(p + o, size, self.val32(b >> 4, c, range(len(l.r.entries) + 1) if o < 80 else range(l.r.nsect)), "entry " + f)

    def do_size(self, a, b, c):
        l = self.l
        if not l.streams:
            return
        p, e, k = l.streams[a % len(l.streams)]
        v = U64[c % len(U64)]
        if b % 3 == 0:
            v = e.size + [1, -1, 64, l.ss, 4096, 65536][c % 6]
        self.u(l.dirpos(e.id) + 120, 8, v, "stream size")

    def do_name(self, a, b, c):
        l = self.l
        x, y = l.used[a % len(l.used)], l.used[b % len(l.used)]
        self.put(l.dirpos(x.id), self.b.read(l.dirpos(y.id), 66), "entry name")

    def do_sibling(self, a, b, c):
        """a sibling pointer to a sibling, itself, or an entry elsewhere"""
        l = self.l
        st = [l.r.root] + [s for p, s in l.storages if s.children]
        s = st[a % len(st)]
        kids = [s.children[n] for n in sorted(s.children)]
        if not kids:
            return
        e = kids[b % len(kids)]
        t = kids[c % len(kids)] if (c >> 8) % 3 else l.used[c % len(l.used)]
        self.u(l.dirpos(e.id) + (68 if (b >> 8) % 2 else 72), 4, t.id, "sibling pointer")

    def do_child(self, a, b, c):
        """a storage whose children are those of its ancestor, itself or another storage"""
        l = self.l
        if not l.storages:
            return
        p, s = l.storages[a % len(l.storages)]
        up = [(q, t) for q, t in l.storages if p.startswith(q + "/") or q == p]
        k = b % 3
        if k == 0 and up:
            q, t = up[c % len(up)]
            v = t.child if (c >> 8) % 2 else t.id
        elif k == 1:
            v = l.r.root.child
        else:
            q, t = l.storages[c % len(l.storages)]
            v = t.child if (c >> 8) % 2 else t.id
        if (c >> 9) % 3 == 0:
            # a few more storages share it
            for i in range(c % 4):
                q, t = l.storages[(a + 1 + i) % len(l.storages)]
                self.u(l.dirpos(t.id) + 76, 4, v, "child pointer")
        self.u(l.dirpos(s.id) + 76, 4, v, "child pointer")

    def pick(self, kind, a, pred=None):
        c = [(p, e) for p, e, k in self.l.streams if k == kind and e.size and (pred is None or pred(p))]
        return c[a % len(c)] if c else (None, None)

    def do_index(self, a, b, c):
        p, e = self.pick("index", a)
        if e is None:
            return
        k = b % 5
        if k in (0, 1):
            n = struct.unpack("<I", self.l.r.content(e)[:4])[0]
            self.sput(e, 0, struct.pack("<I", [n + 1, max(0, n - 1), n * 2, 0x7FFF, 0x10000][c % 5] if (c >> 8) % 3 == 0 else
                                        U32[c % len(U32)]), "index count")
        elif k == 2:
            o = c % e.size
            self.sput(e, o, bytes([b >> 8 & 255]), "index byte")
        elif k == 3:
            # every reference the same
            d = self.l.r.content(e)
            if len(d) >= 16:
                self.sput(e, 12, d[12:16] * ((len(d) - 12) // 4), "index entries")
        else:
            q, e2 = self.pick("index", c)
            d = self.l.r.content(e2)
            self.sput(e, 0, d[:e.size], "index of another property")

    def do_props(self, a, b, c, pred=None):
        p, e = self.pick("props", a, pred)
        if e is None:
            return
        d = self.l.r.content(e)
        n = struct.unpack_from("<H", d, 2)[0]
        k = b % 8
        if k == 0:
            self.sput(e, 2, struct.pack("<H", U16[c % len(U16)]), "property count")
        elif k == 1:
            self.sput(e, c % 2, bytes([c >> 8 & 255]), "property header")
        elif k in (2, 3, 4) and n:
            i = 4 + 6 * (c % n) + 2 * (k - 2)
            v = [U16[(c >> 8) % len(U16)], (0x82, 0x42, 0x22, 0x32, 0x3A, 0x02, 0x12, 0x1A, 0x03, 0x86, 0x40)[(c >> 8) % 11],
                 U16[(c >> 8) % len(U16)]][k - 2]
            if k == 2 and b >> 8 & 1:
                v = struct.unpack_from("<H", d, 4 + 6 * ((c >> 8) % n))[0]
            if k == 4 and b >> 8 & 1:
                v = struct.unpack_from("<H", d, i)[0] + (1, -1, 2, 4)[(c >> 8) % 4] & 0xFFFF
            self.sput(e, i, struct.pack("<H", v), "property entry")
        else:
            s = 4 + 6 * n
            if s >= len(d):
                return
            o = s + c % (len(d) - s)
            if k == 5:
                self.sput(e, o, bytes([b >> 8 & 255]), "property byte")
            elif k == 6:
                # one whole property: a number, or an identifier that exists elsewhere
                off = s
                j = c % n if n else 0
                for i in range(n):
                    sz = struct.unpack_from("<H", d, 8 + 6 * i)[0]
                    if i == j:
                        if sz in (1, 2, 4, 8):
                            self.sput(e, off, (U64[(c >> 8) % len(U64)]).to_bytes(8, "little")[:sz], "property value")
                        elif sz >= 16:
                            q, e2 = self.pick("props", c >> 6, pred)
                            d2 = self.l.r.content(e2)
                            w = (b >> 3) % max(1, len(d2) - 16)
                            self.sput(e, off + sz - 16, d2[w:w + 16], "property value")
                        break
                    off += sz
            else:
                q, e2 = self.pick("props", c >> 6, pred)
                d2 = self.l.r.content(e2)
                self.sput(e, 0, d2[:e.size], "properties of another object")

    def do_meta(self, a, b, c):
        """the same, inside the definitions of classes and types"""
        if b % 2 == 0:
            return self.do_refs(a, b >> 1, c)
        self.do_props(a, b >> 1, c, lambda p: p.startswith("/MetaDictionary"))

    def do_refs(self, a, b, c):
        """redirect a weak reference (parent class, member type) to another definition"""
        p, e = self.pick("props", a, lambda p: p.startswith("/MetaDictionary"))
        if e is None:
            return
        d = self.l.r.content(e)
        n = struct.unpack_from("<H", d, 2)[0]
        off = 4 + 6 * n
        sites = []
        for i in range(n):
            pid, fmt, sz = struct.unpack_from("<HHH", d, 4 + 6 * i)
            if fmt == 0x02 and sz == 21:
                sites.append(off + 5)
            if fmt == 0x82 and sz in (4, 8) and b % 4 == 3:
                self.sput(e, off, (U64[c % len(U64)]).to_bytes(8, "little")[:sz], "type size")
            off += sz
        if not sites:
            return
        # its own identifier, or that of another definition
        ids = []
        for q, e2 in [(p, e)] if b % 3 == 0 else [(q, x) for q, x, k in self.l.all_streams if k == "props" and q.startswith("/MetaDictionary")]:
            d2 = self.l.r.content(e2)
            n2 = struct.unpack_from("<H", d2, 2)[0]
            off = 4 + 6 * n2
            for i in range(n2):
                pid, fmt, sz = struct.unpack_from("<HHH", d2, 4 + 6 * i)
                if pid == 5 and sz == 16:
                    ids.append(d2[off:off + 16])
                off += sz
        if ids:
            self.sput(e, sites[c % len(sites)], ids[(c >> 4) % len(ids)], "redirected definition")

    def do_weak(self, a, b, c):
        p, e = self.pick("weak", 0)
        if e is None:
            return
        k = b % 3
        if k == 0:
            self.sput(e, 3, struct.pack("<I", U32[c % len(U32)]), "reference table count")
        elif k == 1:
            self.sput(e, 1, struct.pack("<H", U16[c % len(U16)]), "reference table count")
        else:
            self.sput(e, 7 + c % max(1, e.size - 7), bytes([b >> 8 & 255]), "reference table")

    def do_parents(self, a, b, c):
        """a class whose ancestor is one of its descendants"""
        cls = {x[3][5][2]: x for x in self.l.objects() if x[0].startswith("/MetaDictionary") and 8 in x[3] and x[3][8][0] == 2 and 5 in x[3]}
        if not cls:
            return
        start = sorted(cls)[a % len(cls)]
        up = [start]
        while up[-1] in cls:
            n = cls[up[-1]][3][8][2][5:]
            if n in up or n not in cls:
                break
            up.append(n)
        x = cls[up[b % len(up)]]
        self.sput(x[2], x[3][8][1] + 5, up[c % len(up)], "class hierarchy")

    def do_mobref(self, a, b, c):
        """a mob identifier replaced with another one"""
        sites = []
        for path, st, e, props in self.l.objects():
            for pid in sorted(props):
                fmt, off, d = props[pid]
                if fmt == 0x82 and len(d) == 32 and any(d):
                    sites.append((pid, e, off, d))
        refs = [x for x in sites if x[0] != 0x4401] if b % 4 else sites
        if refs:
            x = refs[a % len(refs)]
            self.sput(x[1], x[2], sites[c % len(sites)][3], "mob identifier")

    def do_circle(self, a, b, c):
        """a reference to a mob replaced with one to a mob that depends on the referring mob"""
        objs = self.l.objects()
        mobs = {path: bytes(props[0x4401][2]) for path, st, e, props in objs if 0x4401 in props and "Mobs" in path}
        refs = []
        for path, st, e, props in objs:
            if 0x1101 in props:
                for m in mobs:
                    if path.startswith(m + "/"):
                        refs.append((mobs[m], e, props[0x1101]))
        if not refs:
            return
        up = {}
        for m, e, (fmt, off, d) in refs:
            up.setdefault(bytes(d), set()).add(m)
        for k in range(1 + b % 3):
            m, e, (fmt, off, d) = refs[(a + 7 * k) % len(refs)]
            above = {m}
            todo = [m]
            while todo:
                for x in up.get(todo.pop(), ()):
                    if x not in above:
                        above.add(x)
                        todo.append(x)
            above = sorted(above)
            if len(d) == 32:
                self.sput(e, off, above[c % len(above)], "mobs in a circle")

    def do_arrays(self, a, b, c):
        """fixed arrays with other sizes and elements"""
        fx = [x for x in self.l.objects() if x[0].startswith("/MetaDictionary") and 0x18 in x[3] and 0x17 in x[3]]
        if not fx:
            return
        x = fx[a % len(fx)]
        if b % 4 != 1:
            self.sput(x[2], x[3][0x18][1], struct.pack("<I", U32[c % len(U32)]), "array size")
        if b % 4:
            y = fx[(c >> 6) % len(fx)]
            self.sput(x[2], x[3][0x17][1] + 5, y[3][5][2], "array element")

    def do_tables(self, a, b, c):
        """many table entries that name the same sector"""
        r = self.l.r
        t = r.fat_sectors[c % len(r.fat_sectors)]
        if b % 2:
            # a chain of extended tables made of whatever is there
            n = 2 + a % 20
            secs = [mix(c, i) % r.nsect for i in range(n)]
            self.u(68, 4, secs[0], "extended tables")
            self.u(72, 4, n, "extended tables")
            for x, y in zip(secs, secs[1:] + [refcfb.EOC]):
                self.put((x + 1) * self.l.ss, struct.pack("<I", t) * (self.l.ss // 4 - 1) + struct.pack("<I", y), "extended tables")
        else:
            for i in range(a % 110):
                self.u(76 + 4 * i, 4, t, "table entries")

    def do_text(self, a, b, c):
        """unusual characters in a property"""
        p, e = self.pick("props", a)
        if e is None:
            return
        self.sput(e, c % e.size, [b"\x00\xd8", b"/\0", b"{\0", b"\0\0", b".\0.\0/\0", b"\xff\xff"][b % 6], "characters")

    def do_dup(self, a, b, c):
        """two entries for the same data"""
        l = self.l
        x, y = l.used[a % len(l.used)], l.used[b % len(l.used)]
        self.put(l.dirpos(x.id) + 64, self.b.read(l.dirpos(y.id) + 64, 64), "duplicated entry")

    def do_sdata(self, a, b, c):
        if not self.l.streams:
            return
        p, e, k = self.l.streams[a % len(self.l.streams)]
        if e.size:
            self.sput(e, b % e.size, bytes([c & 255]), "stream byte")

    def bytes(self):
        return self.b.bytes()


def crash(base, record, rng_plan):
    """the image after a crash: writes up to a point, some of the last ones lost, torn or out of order"""
    at, lost, tear, window = rng_plan
    n = at % (len(record) + 1)
    b = Blob(base)
    for i, (name, op, pos, data) in enumerate(record[:n]):
        if n - i <= window and mix(lost, i) % 3 == 0:
            continue            # this one never reached the disk
        if op == "t":
            b.truncate(pos)
            continue
        if i == n - 1 and tear:
            data = data[:mix(tear, i) % (len(data) + 1)]
        b.write(pos, data)
    return b.bytes(), n
