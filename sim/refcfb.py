"""Independent compound-file reader, auditor and writer (from the published MS-CFB layout).

Nothing here imports the code under test.
"""
import struct

from .disk import Blob

FREE = 0xFFFFFFFF
EOC = 0xFFFFFFFE
FATS = 0xFFFFFFFD
DIFS = 0xFFFFFFFC
MAXREG = 0xFFFFFFFA
NOSTREAM = 0xFFFFFFFF
MAGIC = b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"


def up(s):
    """Per-character simple upper-casing, as MS-CFB does."""
    return "".join(c.upper() if len(c.upper()) == 1 else c for c in s)


def order_key(s):
    """Order of sibling names: length in UTF-16 units, then upper-cased UTF-16 code units."""
    return len(s.encode("utf-16le")), up(s).encode("utf-16be")


class Bad(Exception):
    """The file is not a valid compound file."""

    def __init__(self, cls, detail=""):
        Exception.__init__(self, "%s: %s" % (cls, detail))
        self.cls = cls
        self.detail = detail


class Node(object):
    __slots__ = ("id", "name", "type", "color", "left", "right", "child", "clsid", "flags",
                 "ctime", "mtime", "start", "size", "children", "data", "chain")

    def __repr__(self):
        return "<%s %r>" % (self.type, self.name)


class Reader(object):
    """Strict reader: raises Bad at the first structural problem when audit=True."""

    def __init__(self, src, strict_size=True):
        self.src = src if isinstance(src, Blob) else Blob(bytes(src))
        self.strict_size = strict_size
        self._parse()

    def sector(self, sid):
        return self.src.read((sid + 1) * self.ss, self.ss)

    def _parse(self):
        src = self.src
        h = src.read(0, 512)
        if len(h) < 512 or h[:8] != MAGIC:
            raise Bad("header", "bad magic or short header")
        (self.minor, self.major, bo, shift, mshift) = struct.unpack_from("<HHHHH", h, 24)
        if bo != 0xFFFE:
            raise Bad("header", "byte order %x" % bo)
        if shift not in (9, 12) or mshift != 6:
            raise Bad("header", "sector shift %d mini %d" % (shift, mshift))
        if h[34:40] != bytes(6):
            raise Bad("header", "reserved bytes not zero")
        self.clsid = h[8:24]
        self.ss = 1 << shift
        (self.ndir, self.nfat, self.dirstart, self.txn, self.cutoff, self.minifatstart, self.nminifat,
         self.difatstart, self.ndifat) = struct.unpack_from("<9I", h, 40)
        if self.cutoff != 4096:
            raise Bad("header", "mini stream cutoff %d" % self.cutoff)
        if self.ss == 4096:
            rest = src.read(512, 4096 - 512)
            if rest != bytes(len(rest)):
                raise Bad("header", "bytes after the 512-byte header are not zero")
        n = src.size
        if self.strict_size and n % self.ss:
            raise Bad("file-size", "size %d is not a multiple of the sector size" % n)
        self.nsect = n // self.ss - 1
        ents = self.ss // 4
        difat = list(struct.unpack_from("<109I", h, 76))
        self.difat_sectors = []
        sid = self.difatstart
        for i in range(self.ndifat):
            if sid > MAXREG or sid >= self.nsect:
                raise Bad("difat", "extended table %d at sector %x out of range" % (i, sid))
            if sid in self.difat_sectors:
                raise Bad("difat", "cycle")
            self.difat_sectors.append(sid)
            t = struct.unpack("<%dI" % ents, self.sector(sid))
            difat.extend(t[:-1])
            sid = t[-1]
        if sid not in (EOC, FREE):
            raise Bad("difat", "chain does not end after %d sectors (next %x)" % (self.ndifat, sid))
        self.difat_end = sid
        fats = []
        seen_free = False
        for s in difat:
            if s == FREE:
                seen_free = True
                continue
            if seen_free:
                raise Bad("difat", "used entry after a free one")
            if s > MAXREG or s >= self.nsect:
                raise Bad("difat", "table sector %x out of range (file has %d)" % (s, self.nsect))
            fats.append(s)
        if len(set(fats)) != len(fats):
            raise Bad("difat", "duplicate table sector")
        if len(fats) != self.nfat:
            raise Bad("header", "header counts %d tables, found %d" % (self.nfat, len(fats)))
        self.fat_sectors = fats
        import array
        fat = array.array("I")
        for s in fats:
            d = self.sector(s)
            if len(d) != self.ss:
                raise Bad("fat", "table sector %d beyond the end of the file" % s)
            fat.frombytes(d)
        self.fat = fat
        self.owner = {}
        for s in fats:
            self._own(s, "FAT")
            if s >= len(fat) or fat[s] != FATS:
                raise Bad("fat", "table sector %d not marked" % s)
        for s in self.difat_sectors:
            self._own(s, "DIFAT")
            if s >= len(fat) or fat[s] != DIFS:
                raise Bad("fat", "extended table sector %d not marked" % s)
        self.dir_chain = self.chain(self.dirstart, "directory")
        if not self.dir_chain:
            raise Bad("directory", "no directory chain")
        if self.major >= 4 and self.ndir != len(self.dir_chain):
            raise Bad("header", "header counts %d directory sectors, chain has %d" % (self.ndir, len(self.dir_chain)))
        self.minifat_chain = self.chain(self.minifatstart, "minifat")
        if self.nminifat != len(self.minifat_chain):
            raise Bad("header", "header counts %d mini tables, chain has %d" % (self.nminifat, len(self.minifat_chain)))
        minifat = array.array("I")
        for s in self.minifat_chain:
            minifat.frombytes(self.sector(s))
        self.minifat = minifat
        self.entries = []
        for s in self.dir_chain:
            d = self.sector(s)
            for o in range(0, self.ss, 128):
                self.entries.append(self._entry(len(self.entries), d[o:o + 128]))
        root = self.entries[0]
        if root.type != 5:
            raise Bad("directory", "first entry is not a root storage")
        self.root = root
        self.mini_chain = self.chain(root.start, "mini stream") if root.start != 0 or root.size else []
        if len(self.mini_chain) * self.ss < root.size or (len(self.mini_chain) - 1) * self.ss >= max(root.size, 1) and self.mini_chain:
            raise Bad("mini-stream", "chain of %d sectors for %d bytes" % (len(self.mini_chain), root.size))
        self.mini_owner = {}
        self.reached = {0}
        self._tree(root, "", 0)

    def _own(self, s, who):
        if s in self.owner:
            raise Bad("sector-shared", "sector %d used by %s and %s" % (s, self.owner[s], who))
        self.owner[s] = who

    def chain(self, start, who):
        out = []
        s = start
        if s in (EOC, FREE):
            return out
        fat = self.fat
        while s != EOC:
            if s > MAXREG or s >= len(fat):
                raise Bad("chain", "%s: link to %x after %d sectors" % (who, s, len(out)))
            if s >= self.nsect:
                raise Bad("chain", "%s: sector %d beyond the end of the file" % (who, s))
            self._own(s, who)
            out.append(s)
            s = fat[s]
        return out

    def mini(self, start, who):
        out = []
        s = start
        if s in (EOC, FREE):
            return out
        mf = self.minifat
        while s != EOC:
            if s > MAXREG or s >= len(mf):
                raise Bad("chain", "%s: mini link to %x after %d" % (who, s, len(out)))
            if s in self.mini_owner:
                raise Bad("sector-shared", "mini sector %d used by %s and %s" % (s, self.mini_owner[s], who))
            self.mini_owner[s] = who
            out.append(s)
            s = mf[s]
        return out

    def _entry(self, i, d):
        e = Node()
        e.id = i
        nlen = struct.unpack_from("<H", d, 64)[0]
        if nlen > 64 or nlen % 2:
            raise Bad("directory", "entry %d name length %d" % (i, nlen))
        raw = d[:nlen]
        try:
            name = raw.decode("utf-16le")
        except UnicodeDecodeError:
            raise Bad("directory", "entry %d name not UTF-16" % i)
        if name.endswith("\0"):
            name = name[:-1]
        e.name = name
        e.type = d[66]
        e.color = d[67]
        e.left, e.right, e.child = struct.unpack_from("<3I", d, 68)
        e.clsid = d[80:96]
        e.flags = struct.unpack_from("<I", d, 96)[0]
        e.ctime, e.mtime, e.start, e.size = struct.unpack_from("<QQIQ", d, 100)
        e.children = None
        e.data = None
        e.chain = None
        if e.type not in (0, 1, 2, 5):
            raise Bad("directory", "entry %d has type %d" % (i, e.type))
        if e.type in (1, 2, 5):
            if not name and i:
                raise Bad("directory", "entry %d has no name" % i)
            if any(c in name for c in "\0"):
                raise Bad("directory", "entry %d name contains NUL" % i)
        return e

    def _tree(self, node, path, depth):
        """iteratively read the whole tree under node"""
        todo = [(node, path)]
        while todo:
            cur, path = todo.pop()
            cur.children = {}
            # in-order check with bounds, iterative
            stack = [(cur.child, None, None)] if cur.child != NOSTREAM else []
            folded = set()
            while stack:
                eid, lo, hi = stack.pop()
                if eid >= len(self.entries):
                    raise Bad("directory", "%s: link to entry %d of %d" % (path, eid, len(self.entries)))
                if eid in self.reached:
                    raise Bad("directory", "%s: entry %d reached twice" % (path, eid))
                self.reached.add(eid)
                e = self.entries[eid]
                if e.type not in (1, 2):
                    raise Bad("directory", "%s: child entry %d has type %d" % (path, eid, e.type))
                key = order_key(e.name)
                if lo is not None and not lo < key:
                    raise Bad("sibling-order", "%s/%s: not after %r" % (path, e.name, lo[1]))
                if hi is not None and not key < hi:
                    raise Bad("sibling-order", "%s/%s: not before %r" % (path, e.name, hi[1]))
                if key in folded:
                    raise Bad("sibling-order", "%s/%s: duplicate name" % (path, e.name))
                folded.add(key)
                cur.children[e.name] = e
                if e.left != NOSTREAM:
                    stack.append((e.left, lo, key))
                if e.right != NOSTREAM:
                    stack.append((e.right, key, hi))
                p = path + "/" + e.name
                if e.type == 1:
                    todo.append((e, p))
                else:
                    if e.child != NOSTREAM:
                        raise Bad("directory", "%s: stream with children" % p)
                    self._stream(e, p)

    def _stream(self, e, p):
        if e.size == 0:
            if e.start not in (EOC, FREE):
                # an empty stream must own nothing
                raise Bad("stream", "%s: empty stream starts at sector %d" % (p, e.start))
            e.chain = []
            return
        if e.size < self.cutoff:
            e.chain = self.mini(e.start, p)
            need = (e.size + 63) // 64
        else:
            e.chain = self.chain(e.start, p)
            need = (e.size + self.ss - 1) // self.ss
        if len(e.chain) != need:
            raise Bad("stream", "%s: %d bytes need %d sectors, chain has %d" % (p, e.size, need, len(e.chain)))

    def content(self, e):
        """bytes of a stream"""
        if e.size == 0:
            return b""
        if e.size < self.cutoff:
            per = self.ss // 64
            out = []
            for m in e.chain:
                i, o = divmod(m, per)
                if i >= len(self.mini_chain):
                    raise Bad("mini-stream", "%s: mini sector %d outside the mini stream" % (e.name, m))
                out.append(self.src.read((self.mini_chain[i] + 1) * self.ss + o * 64, 64))
            return b"".join(out)[:e.size]
        return b"".join(self.sector(s) for s in e.chain)[:e.size]

    def audit(self, range_lock=True, own_layout=False):
        """whole-file accounting; raises Bad"""
        fat = self.fat
        rl = (0x7FFFFF00 // 4096) - 1
        owner = self.owner
        for s, v in enumerate(fat):
            if s in owner:
                if v == FREE:
                    raise Bad("fat", "sector %d of %s is marked free" % (s, owner[s]))
                if s == rl and self.ss == 4096:
                    raise Bad("range-lock", "range-lock sector used by %s" % owner[s])
                continue
            if v == FREE:
                continue
            if self.ss == 4096 and s == rl:
                continue
            raise Bad("sector-leak", "sector %d is allocated (%x) but belongs to nothing" % (s, v))
        if self.ss == 4096 and len(fat) > rl and fat[rl] != EOC:
            raise Bad("range-lock", "range-lock sector is marked %x" % fat[rl])
        if own_layout:
            used = max(owner) if owner else -1
            if self.ss == 4096 and len(fat) > rl:
                used = max(used, rl) if fat[rl] == EOC else used
            if self.nsect != used + 1:
                raise Bad("file-size", "file has %d sectors, last used is %d" % (self.nsect, used))
        for s, v in enumerate(self.minifat):
            if s in self.mini_owner:
                continue
            if v != FREE:
                raise Bad("sector-leak", "mini sector %d is allocated (%x) but belongs to nothing" % (s, v))
        if self.mini_owner:
            need = (max(self.mini_owner) + 1) * 64
            if self.root.size < need:
                raise Bad("mini-stream", "root size %d but mini sectors reach %d" % (self.root.size, need))
        for e in self.entries:
            if e.id not in self.reached and e.type != 0:
                raise Bad("directory", "entry %d (%r) is unreachable but not marked empty" % (e.id, e.name))

    def rb_problem(self):
        """red-black validity of every sibling tree (MS-CFB 2.6.4), or None"""
        def walk(eid):
            # returns black height
            if eid == NOSTREAM:
                return 1
            e = self.entries[eid]
            l, r = walk(e.left), walk(e.right)
            if e.color == 0:
                for c in (e.left, e.right):
                    if c != NOSTREAM and self.entries[c].color == 0:
                        raise Bad("rb", "red node %r has a red child" % e.name)
            if l != r:
                raise Bad("rb", "black height differs under %r: %d %d" % (e.name, l, r))
            return l + (1 if e.color == 1 else 0)
        for e in self.entries:
            if e.id in self.reached and e.type in (1, 5) and e.child != NOSTREAM:
                if self.entries[e.child].color != 1:
                    return "root of the sibling tree of %r is red" % e.name
                try:
                    walk(e.child)
                except Bad as b:
                    return str(b)
        return None

    def tree(self):
        """{path: (type, clsid, flags, ctime, mtime, data or None)}"""
        out = {}
        todo = [(self.root, "")]
        while todo:
            n, p = todo.pop()
            for name, c in n.children.items():
                q = p + "/" + name
                out[q] = c
                if c.type == 1:
                    todo.append((c, q))
        return out


# --------------------------------------------------------------------------
# foreign writer
# --------------------------------------------------------------------------

class FTree(object):
    """A node for the foreign writer."""

    def __init__(self, name, data=None, clsid=bytes(16), flags=0, ctime=0, mtime=0):
        self.name = name
        self.data = data            # None: storage
        self.clsid = clsid
        self.flags = flags
        self.ctime = ctime
        self.mtime = mtime
        self.children = []


def write_foreign(root, rng, ss=4096, opt=None):
    """Serialise the FTree as a legal compound file, with layout chosen by rng.

    opt: dict of layout choices:
      shuffle    sectors of all chains in random order
      gaps       fraction of free sectors left between
      tree       'balanced' | 'left' | 'right' | 'random'
      empty      'eoc' | 'free' | 'mixed' marker for empty streams
      dirgaps    number of unused directory entries interspersed
      extra_fat  extra (all free) FAT sectors
      minigaps   number of free mini sectors interspersed
      allblack   every entry black
      major      3 or 4
      wholemini  root size rounded up to the whole mini stream sectors
    """
    opt = dict(opt or {})
    per = ss // 4
    nodes = []          # (ftree, parent_index)
    order = []

    def collect(n):
        order.append(n)
        for c in n.children:
            collect(c)
    collect(root)
    # directory ids
    ids = {}
    slots = list(range(1, len(order) + opt.get("dirgaps", 0)))
    if opt.get("shuffle_dirs"):
        rng.shuffle(slots)
        slots = slots[:len(order) - 1]
    else:
        if opt.get("dirgaps"):
            slots = sorted(rng.sample(slots, len(order) - 1))
    ids[id(root)] = 0
    for n, s in zip(order[1:], slots):
        ids[id(n)] = s
    nids = max(ids.values()) + 1
    nids = -(-nids // (ss // 128)) * (ss // 128)
    nids += opt.get("extra_dir_sectors", 0) * (ss // 128)
    ent = {}

    def marker():
        m = opt.get("empty", "eoc")
        if m == "mixed":
            m = rng.choice(["eoc", "free"])
        return EOC if m == "eoc" else FREE

    # mini stream
    minis = []          # list of (node, [mini ids])
    nextmini = 0
    free_minis = []
    small = [n for n in order if n.data is not None and 0 < len(n.data) < 4096]
    pieces = []
    for n in small:
        for k in range((len(n.data) + 63) // 64):
            pieces.append((n, k))
    total = len(pieces) + opt.get("minigaps", 0)
    idxs = list(range(total))
    if opt.get("shuffle"):
        rng.shuffle(idxs)
        idxs = idxs[:len(pieces)]
    elif opt.get("minigaps"):
        idxs = sorted(rng.sample(idxs, len(pieces)))
    minimap = {}
    ministream = bytearray()
    for (n, k), m in zip(pieces, idxs):
        minimap[(id(n), k)] = m
        if len(ministream) < (m + 1) * 64:
            ministream.extend(bytes((m + 1) * 64 - len(ministream)))
        chunk = n.data[k * 64:(k + 1) * 64]
        ministream[m * 64:m * 64 + len(chunk)] = chunk
    nmini = len(ministream) // 64
    if opt.get("wholemini") and ministream:
        ministream.extend(bytes(-len(ministream) % ss))
    minifat_n = -(-nmini // per) if nmini else 0
    if opt.get("extra_minifat") and minifat_n:
        minifat_n += 1
    minifat = [FREE] * (minifat_n * per)
    for n in small:
        k = (len(n.data) + 63) // 64
        ch = [minimap[(id(n), i)] for i in range(k)]
        for a, b in zip(ch, ch[1:]):
            minifat[a] = b
        minifat[ch[-1]] = EOC
    # regular chains: name -> bytes
    chains = []
    for n in order:
        if n.data is not None and len(n.data) >= 4096:
            chains.append((id(n), n.data))
    if ministream:
        chains.append(("mini", bytes(ministream)))
    if minifat_n:
        chains.append(("minifat", b"".join(struct.pack("<I", x) for x in minifat)))
    chains.append(("dir", bytes(nids * 128)))
    need = sum(-(-len(d) // ss) for _, d in chains)
    gaps = int(need * opt.get("gaps", 0))
    # number of FAT sectors
    nfat, ndifat = 1, 0
    while True:
        tot = need + gaps + nfat + ndifat
        nf = -(-tot // per) + opt.get("extra_fat", 0)
        nd = 0 if nf <= 109 else -(-(nf - 109) // (per - 1))
        if nf == nfat and nd == ndifat:
            break
        nfat, ndifat = max(nf, nfat), max(nd, ndifat)
    tot = need + gaps + nfat + ndifat
    sids = list(range(tot))
    if opt.get("shuffle"):
        rng.shuffle(sids)
    fat = [FREE] * (nfat * per)
    if opt.get("tables_last"):
        lst = list(range(tot)) if not opt.get("shuffle") else sids
        tabs = lst[tot - (nfat + ndifat):]
        rest = lst[:tot - (nfat + ndifat)]
    else:
        tabs = sids[:nfat + ndifat]
        rest = sids[nfat + ndifat:]
    if gaps and not opt.get("shuffle"):
        rest = sorted(rng.sample(rest, need))
    take = iter(rest)
    fats, difs = tabs[:nfat], tabs[nfat:]
    for s in fats:
        fat[s] = FATS
    for s in difs:
        fat[s] = DIFS
    image = {}
    start = {}
    for key, data in chains:
        ch = [next(take) for _ in range(-(-len(data) // ss))]
        for a, b in zip(ch, ch[1:]):
            fat[a] = b
        fat[ch[-1]] = EOC
        start[key] = ch
        for i, s in enumerate(ch):
            image[s] = data[i * ss:(i + 1) * ss].ljust(ss, opt.get("pad", b"\0"))
    # sibling trees
    links = {id(n): [NOSTREAM, NOSTREAM, NOSTREAM, 1] for n in order}

    def build(lst, kind, depth, maxd):
        if not lst:
            return NOSTREAM
        if kind == "left":
            m = len(lst) - 1
        elif kind == "right":
            m = 0
        elif kind == "random":
            m = rng.randrange(len(lst))
        else:
            m = len(lst) // 2
        n = lst[m]
        l = links[id(n)]
        l[0] = build(lst[:m], kind, depth + 1, maxd)
        l[1] = build(lst[m + 1:], kind, depth + 1, maxd)
        # balanced trees: the deepest, incomplete level is red
        if kind == "balanced" and not opt.get("allblack"):
            l[3] = 0 if depth == maxd and depth > 0 else 1
        else:
            l[3] = 1
        return ids[id(n)]

    for n in order:
        if n.data is None and n.children:
            lst = sorted(n.children, key=lambda c: order_key(c.name))
            full = 0
            while (1 << (full + 1)) - 1 <= len(lst):
                full += 1
            links[id(n)][2] = build(lst, opt.get("tree", "balanced"), 0, full)
    dirs = bytearray(nids * 128)
    for i in range(nids):
        struct.pack_into("<3I", dirs, i * 128 + 68, NOSTREAM, NOSTREAM, NOSTREAM)
    for n in order:
        i = ids[id(n)]
        nm = n.name.encode("utf-16le") + b"\0\0"
        l = links[id(n)]
        o = i * 128
        dirs[o:o + 64] = nm.ljust(64, b"\0")
        struct.pack_into("<H", dirs, o + 64, len(nm))
        if n is root:
            typ = 5
            st = start["mini"][0] if ministream else marker()
            size = len(ministream)
        elif n.data is None:
            typ, st, size = 1, 0 if opt.get("storage_zero", True) else FREE, 0
        else:
            typ = 2
            size = len(n.data)
            if size == 0:
                st = marker()
            elif size < 4096:
                st = minimap[(id(n), 0)]
            else:
                st = start[id(n)][0]
        dirs[o + 66] = typ
        dirs[o + 67] = l[3]
        struct.pack_into("<3I", dirs, o + 68, l[0], l[1], l[2])
        dirs[o + 80:o + 96] = n.clsid
        struct.pack_into("<I", dirs, o + 96, n.flags)
        struct.pack_into("<QQIQ", dirs, o + 100, n.ctime, n.mtime, st, size)
    for i, s in enumerate(start["dir"]):
        image[s] = bytes(dirs[i * ss:(i + 1) * ss])
    for i, s in enumerate(fats):
        image[s] = struct.pack("<%dI" % per, *fat[i * per:(i + 1) * per])
    dif_entries = fats[109:]
    for i, s in enumerate(difs):
        part = dif_entries[i * (per - 1):(i + 1) * (per - 1)]
        part = part + [FREE] * (per - 1 - len(part))
        nxt = difs[i + 1] if i + 1 < len(difs) else EOC
        image[s] = struct.pack("<%dI" % per, *(part + [nxt]))
    h = bytearray(ss)
    h[:8] = MAGIC
    h[8:24] = opt.get("clsid", bytes(16))
    struct.pack_into("<HHHHH", h, 24, 0x3E, opt.get("major", 4 if ss == 4096 else 3), 0xFFFE, 12 if ss == 4096 else 9, 6)
    ndir = len(start["dir"]) if opt.get("major", 4 if ss == 4096 else 3) >= 4 else 0
    struct.pack_into("<9I", h, 40, ndir, nfat, start["dir"][0], opt.get("txn", 0), 4096,
                     start["minifat"][0] if minifat_n else EOC, minifat_n,
                     difs[0] if difs else EOC, ndifat)
    struct.pack_into("<109I", h, 76, *([s for s in fats[:109]] + [FREE] * max(0, 109 - len(fats))))
    out = Blob(bytes(h))
    for s in sorted(image):
        out.write((s + 1) * ss, image[s])
    if out.size < (tot + 1) * ss:
        out.truncate((tot + 1) * ss)
    return out
