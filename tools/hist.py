"""Generators of histories of calls (which calls to issue; never a verdict)."""
import struct
from world import *

FILLS = {
    "bool": [None, True, False],
    "i": [None, 0, 1, 7, -1, -100, 100],
    "u": [None, 0, 1, 7, 200],
    "f": [None, 0.0, 1.5, -2.0, 3],
}


def fill_hex(t, v):
    w = TYPES.get(t) or RAWS[t]
    if v is None:
        return "00" * w
    if t == "bool":
        return "01" if v else "00"
    if t[0] == "f":
        return struct.pack({2: ">e", 4: ">f", 8: ">d"}[w], float(v)).hex()
    return "%0*x" % (2 * w, v % (1 << (8 * w)))


def rand_fill(r, t):
    if t in RAWS:
        return None
    return r.choice(FILLS["bool" if t == "bool" else t[0]])


def rand_meta(r, t=None, ndim=None, raw_ok=False, fill=None, maxn=24, sep=None, codec=None,
              attrs=None, big_extents=False):
    t = t or r.choice(list(TYPES) + (list(RAWS) if raw_ok else []))
    many = ndim is None and r.random() < 0.08
    ndim = r.choice([0, 1, 1, 2, 2, 3]) if ndim is None else ndim
    while True:
        cs = [r.randint(1, 4) for _ in range(ndim)]
        n = 1
        for c in cs:
            n *= c
        if n <= maxn:
            break
    shape = [r.randint(1, 3 * c) if r.random() < 0.9 else r.randint(1, 12 * c) for c in cs]
    if many:        # of more dimensions than are usual, with few cells
        nd = r.choice([4, 5, 6, 7, 8])
        cs, shape = [1] * nd, [1] * nd
        for i in r.sample(range(nd), 3):
            cs[i] = r.choice([1, 2])
            shape[i] = r.randint(1, 4)
    codec = codec or r.choice(list(CODECS))
    conf = r.choice(CODECS[codec])
    f = rand_fill(r, t) if fill is None else fill
    ext = []
    if r.random() < 0.15:
        ext = [{"extension": "http://example.org/ext/%d" % r.randrange(9), "must_understand": False,
                "configuration": {"a": r.randrange(9)}}]
    return Meta(t, r.random() < 0.5, shape, cs, codec, conf, r.choice("CF"),
                sep or r.choice(["/", ".", "/", "-"]), f, fill_hex(t, f), attrs=attrs, ext=ext)


def rand_json(r, depth=2):
    x = r.random()
    if depth and x < 0.2:
        return {r.choice(KEYS): rand_json(r, depth - 1) for _ in range(r.randrange(3))}
    if depth and x < 0.35:
        return [rand_json(r, depth - 1) for _ in range(r.randrange(3))]
    return r.choice([None, True, False, 0, 1, -7, 2**63 + 5, -2**40, 0.5, -1.25, "", "text",
                     "\u00e9\u4e2d\U0001f600", "quote\"back\\slash\nline", "attributes"])


KEYS = ["a", "b", "c", "attributes", "extensions", "shape", "", "with space", "\u00e9", "a.b", "x/y"]


def rand_attrs(r, n=3):
    return {r.choice(KEYS): rand_json(r) for _ in range(r.randint(0, n))}


SIZES = [63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 768, 1000, 1023, 1024, 1025, 2049,
         4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32769, 65535, 65536, 65537, 100003]


def big_data(r, t, n):
    """Elements of a long chunk: constant, periodic, sparse or random."""
    x = r.random()
    if x < 0.15:
        return [elem(r, t)] * n
    if x < 0.35:
        k = [elem(r, t) for _ in range(r.choice([2, 3, 255, 256, 257]))]
        return (k * (n // len(k) + 1))[:n]
    if x < 0.55:
        a, b = elem(r, t), elem(r, t)
        cut = r.randrange(n)
        return [a] * cut + [b] * (n - cut)
    if t == "bool":
        return [("00", "01")[r.getrandbits(1)] for _ in range(n)]
    w = TYPES.get(t) or RAWS[t]
    b = r.randbytes(w * n).hex()
    return [b[i:i + 2 * w] for i in range(0, len(b), 2 * w)]


def big_chunks(w, r, t=None, codec=None, size=None, calls=8, big=None, conf=0):
    """A history of calls on arrays of long chunks."""
    h = Hist(w, r)
    t = t or r.choice(list(TYPES) + list(RAWS))
    wd = TYPES.get(t) or RAWS[t]
    size = size or r.choice(SIZES)
    if r.random() < 0.3:
        size = max(1, size // wd + r.choice([0, 0, 1, -1]))     # the size in bytes
    codec = codec or r.choice(list(CODECS))
    f = rand_fill(r, t)
    nd = r.choice([1, 1, 2])
    cs = [size] if nd == 1 else [r.choice([k for k in (1, 2, 3, 5, 7) if size % k == 0])]
    if nd == 2:
        cs = r.sample([cs[0], size // cs[0]], 2)
    shape = [c * r.randint(1, 2) for c in cs]
    m = Meta(t, r.random() < 0.5 if big is None else big, shape, cs, codec,
             r.choice(CODECS[codec]) if conf == 0 else conf, r.choice("CF"), r.choice("/.-"), f, fill_hex(t, f))
    p = ("big", r.choice("ab"))
    w.create_array(r, p, m)
    if t not in RAWS:
        w.new_buf(r, "p", t, [1], [elem(r, t) for _ in range(r.choice([0, 3, size // 2]))])
    for i in range(calls):
        pos, x = h.pos(m), r.random()
        if i == 0 or x < 0.4:
            w.write_chunk(r, p, pos, data=big_data(r, t, m.n))
            x = r.random()
            if x < 0.6:
                w.read_chunk(r, p, pos)
        elif x < 0.7:
            w.read_chunk(r, p, pos)
        elif x < 0.95:
            if t not in RAWS:
                w.read_into(r, p, pos, "p")
        else:
            w.delete_chunk(r, p, pos)
    w.dump()


class Hist:
    """One random history.  The generator remembers what it asked for, so that
    most calls are about things that exist."""

    def __init__(self, w, r, meta_fn=None, names=None, depth=3):
        self.w, self.r = w, r
        self.names = names or some_names(r, 5)
        self.kinds = {}     # explicit nodes as the generator expects them
        self.depth = depth
        self.meta_fn = meta_fn or (lambda: rand_meta(r))
        self.bufn = 0
        self.bufs = {}
        self.left = set()       # buffers that region reads have used
        self.all_paths = {()}

    # -- choosing ---------------------------------------------------------------
    def arrays(self):
        return [p for p, k in self.kinds.items() if k == "a"]

    def nodes(self):
        return list(self.kinds)

    def fresh(self, below_ok=True):
        """A path for a new node, not below an array."""
        for _ in range(50):
            n = self.r.randint(1, self.depth)
            p = tuple(self.r.choice(self.names) for _ in range(n))
            if self.r.random() < 0.03:
                p = ()
            if any(self.kinds.get(p[:i]) == "a" for i in range(len(p))):
                continue
            return p
        return None

    def free_for_array(self, p):
        return not any(q[:len(p)] == p and q != p for q in self.kinds) and \
            not any(self.kinds.get(p[:i]) == "a" for i in range(len(p)))

    def some_path(self):
        """A path of something, near something, or of nothing."""
        r = self.r
        x = r.random()
        if self.kinds and x < 0.6:
            return r.choice(self.nodes())
        if self.kinds and x < 0.75:
            p = r.choice(self.nodes())
            return p[:r.randint(0, len(p))]
        if x < 0.8:
            return ()
        return tuple(r.choice(self.names) for _ in range(r.randint(1, self.depth)))

    def pos(self, m):
        return [self.r.randrange(g) for g in m.grid]

    def arr(self):
        a = self.arrays()
        return self.r.choice(a) if a else None

    # -- calls ------------------------------------------------------------------
    def step(self, name):
        return getattr(self, "s_" + name)()

    def s_group(self):
        p = self.fresh() if self.r.random() < 0.7 else self.some_path()
        if p is None or any(self.kinds.get(p[:i]) == "a" for i in range(len(p))):
            return
        self.w.create_group(self.r, p)
        self.kinds.setdefault(p, "g")

    def s_array(self):
        p = self.fresh() if self.r.random() < 0.8 else self.some_path()
        if p is None:
            return
        if p not in self.kinds and not self.free_for_array(p):
            return
        m = self.meta_fn()
        taken = p in self.kinds
        self.w.create_array(self.r, p, m, assume=not taken)
        self.kinds.setdefault(p, "a")

    def s_set(self):
        self.w.set_attributes(self.r, self.some_path(), rand_attrs(self.r))

    def s_attrs(self):
        self.w.list_attributes(self.r, self.some_path())

    def s_exists(self):
        self.w.exists(self.r, self.some_path())

    def s_aexists(self):
        self.w.array_exists(self.r, self.some_path())

    def s_meta(self):
        self.w.get_meta(self.r, self.some_path())

    def s_list(self):
        self.w.list_nodes(self.r, self.some_path())

    def s_remove(self):
        p = self.some_path()
        if p == () and self.r.random() < 0.7:
            return
        if any(self.kinds.get(p[:i]) == "a" and p[i][0] == "c" for i in range(len(p))):
            return      # the name of a part of the array's chunks, not of a node
        self.w.remove(self.r, p)
        for q in list(self.kinds):
            if q[:len(p)] == p:
                del self.kinds[q]

    def s_write(self):
        p = self.arr()
        if p is not None:
            self.w.write_chunk(self.r, p, self.pos(self.w.metas[p]))

    def s_read(self):
        p = self.arr()
        if p is not None:
            self.w.read_chunk(self.r, p, self.pos(self.w.metas[p]))

    def s_delete(self):
        p = self.arr()
        if p is not None:
            self.w.delete_chunk(self.r, p, self.pos(self.w.metas[p]))

    def s_readinto(self):
        p = self.arr()
        if p is None:
            return
        m = self.w.metas[p]
        if m.t in RAWS:
            return
        b = self.r.choice(["p", "q"])
        if (b, m.t) not in self.bufs:
            n = self.r.randint(0, 2 * m.n)
            self.w.new_buf(self.r, b, m.t, [9] * self.r.randint(0, 3),
                           [elem(self.r, m.t) for _ in range(n)])
            self.bufs[(b, m.t)] = True
        x = self.r.random()
        if x < .08:
            self.w.buf_like(self.r, b, m.t, [self.r.randint(0, 9) for _ in m.shape],
                            [elem(self.r, m.t) for _ in range(self.r.randint(0, 2 * m.n))])
        elif x < .12:
            self.w.buf_size(self.r, b, m.t, [self.r.randint(0, 9) for _ in m.shape], self.r.randint(0, min(64, 2 * m.n)))
        self.w.read_into(self.r, p, self.pos(m), b)

    def box(self, m):
        off, sh = [], []
        for s, c in zip(m.shape, m.cshape):
            o = self.r.randint(0, s + (1 if self.r.random() < 0.2 else 0))
            if self.r.random() < 0.3:
                o = o // c * c
            off.append(o)
            x = self.r.random()
            sh.append(self.r.randint(0, 2) if x < 0.3 else
                      self.r.randint(1, c * 2) if x < 0.7 else max(1, s - o))
        return off, sh

    def s_wregion(self):
        p = self.arr()
        if p is None or self.w.metas[p].t in RAWS:
            return
        off, sh = self.box(self.w.metas[p])
        self.w.write_region(self.r, p, off, sh)

    def s_rregion(self):
        p = self.arr()
        if p is None or self.w.metas[p].t in RAWS:
            return
        m = self.w.metas[p]
        off, sh = self.box(m)
        r = self.r
        into = buf = None
        if r.random() < 0.6:
            into = elem(r, m.t)
            if r.random() < 0.6:
                buf = r.choice(["p", "q"])
                if (buf, m.t) in self.left and r.random() < 0.8:
                    pass                    # as the last region read has left it
                elif (buf, m.t) not in self.bufs:
                    if r.random() < 0.7:    # otherwise begins without a chunk
                        self.w.new_buf(r, buf, m.t, [9] * r.randint(0, 3),
                                       [elem(r, m.t) for _ in range(r.randint(0, 2 * m.n))])
                        self.bufs[(buf, m.t)] = True
        self.w.read_region(r, p, off, sh, into=into, buf=buf)
        if buf:
            # its content now is the library's business; do not look at it
            self.bufs.pop((buf, m.t), None)
            if r.random() < 0.75:
                self.left.add((buf, m.t))
            else:
                self.left.discard((buf, m.t))
                self.w.do({"op": "buf_drop", "b": buf, "T": m.t})

    def s_exact(self):
        """Write a region that is exactly some whole chunks."""
        p = self.arr()
        if p is None or self.w.metas[p].t in RAWS:
            return
        m, r = self.w.metas[p], self.r
        off, sh = [], []
        for g, c in zip(m.grid, m.cshape):
            i = r.randrange(g)
            off.append(i * c)
            sh.append(c * (1 if r.random() < 0.7 else r.randint(1, g - i)))
        self.w.write_region(r, p, off, sh)

    def s_badfill(self):
        """Region calls with a fill value that denotes no element."""
        p = self.arr()
        if p is None or self.w.metas[p].t in RAWS:
            return
        m, r = self.w.metas[p], self.r
        fill = r.choice(["seven", [1], {"a": 1}] + {"b": [2], "u": [-1], "i": [1.5], "f": [True]}[m.t[0]])
        bad = Meta(m.t, m.big, m.shape, m.cshape, m.codec, None if m.codec == "raw" else
                   CODECS[m.codec][0], m.order, m.sep, fill, m.fillhex, fillok=False)
        self.w.do(bad.define())
        off, sh = self.box(m)
        if r.random() < 0.7:
            # a whole chunk and part of the next ones
            off = [r.randrange(g) * c for g, c in zip(m.grid, m.cshape)]
            sh = [c + r.randint(0, c) for c in m.cshape]
        x = r.random()
        if x < 0.6:
            self.w.write_region(r, p, off, sh, meta=bad)
        else:
            self.w.read_region(r, p, off, sh, meta=bad, into=elem(r, m.t) if x < 0.75 else None)

    def s_full(self):
        """Read a whole array."""
        p = self.arr()
        if p is None or self.w.metas[p].t in RAWS:
            return
        m = self.w.metas[p]
        self.w.read_region(self.r, p, [0] * len(m.shape), m.shape)

    def s_view(self):
        p = self.arr()
        if p is not None and self.w.metas[p].t not in RAWS:
            self.w.view_chunk(self.r, p, self.pos(self.w.metas[p]))

    def s_leftover(self):
        """A node where there was one above whose name is that of a chunk."""
        r, w = self.r, self.w
        p = self.fresh()
        if not p or p in self.kinds or not self.free_for_array(p) or len(p) > 6:
            return
        q = p + ("c0", "x", "c1")[:r.randint(1, 3)] + (r.choice(["x", "c0", "c0-0"]),)
        if r.random() < .5:
            w.create_group(r, q)
        else:
            w.create_array(r, q, self.meta_fn())
            for _ in range(r.randint(0, 2)):
                w.write_chunk(r, q, self.pos(w.metas[q]))
        for n in range(len(q), len(p), -1):
            if n == len(q) or r.random() < .3:
                w.remove(r, q[:n])
        w.create_array(r, p, self.meta_fn())
        self.kinds[p] = "a"
        m = w.metas[p]
        for _ in range(r.randint(2, 5)):
            pos = self.pos(m) if r.random() < .5 else [0] * len(m.grid)
            x = r.random()
            if x < .5:
                w.write_chunk(r, p, pos)
            elif x < .75:
                w.read_chunk(r, p, pos)
            else:
                w.delete_chunk(r, p, pos)

    def s_keys(self):
        self.w.keys()

    def s_dump(self):
        self.w.dump()

    # refused calls
    def s_badwrite(self):
        p = self.arr()
        if p is None:
            return
        m = self.w.metas[p]
        pos = self.pos(m)
        if self.r.random() < 0.5:
            n = self.r.choice([0, 1, m.n - 1, m.n + 1, 2 * m.n])
            if n == m.n:
                return
            self.w.write_chunk(self.r, p, pos, n=n,
                               data=[elem(self.r, m.t) for _ in range(n)])
        else:
            t = self.r.choice([x for x in list(TYPES) + list(RAWS) if x != m.t])
            self.w.write_chunk(self.r, p, pos, t=t)

    def s_badread(self):
        p = self.arr()
        if p is None:
            return
        m = self.w.metas[p]
        t = self.r.choice([x for x in list(TYPES) + list(RAWS) if x != m.t])
        self.w.read_chunk(self.r, p, self.pos(m), t=t)

    def s_badregion(self):
        p = self.arr()
        if p is None or self.w.metas[p].t in RAWS:
            return
        m = self.w.metas[p]
        r = self.r
        nd = len(m.shape)
        off, sh = [0] * nd, list(m.cshape)
        x = r.random()
        if x < 0.3:
            t = r.choice([x for x in TYPES if x != m.t])
            if r.random() < 0.5:
                self.w.write_region(r, p, off, sh, t=t)
            else:
                self.w.read_region(r, p, off, sh, t=t)
            return
        if x < 0.6 or nd == 0:
            sh = sh + [r.randint(1, 2)]
            if r.random() < 0.7:
                off = off + [0]
        else:
            sh = sh[:-1]
            if r.random() < 0.7:
                off = off[:-1]
        if r.random() < 0.5:
            self.w.write_region(r, p, off, sh)
        elif len(off) == len(sh):
            self.w.read_region(r, p, off, sh)

    def run(self, n, weights):
        names, ws = zip(*weights.items())
        for name in self.r.choices(names, ws, k=n):
            self.step(name)

    def s_reopen(self):
        if self.w.kind == "fs":
            self.w.reopen(self.r)

    def s_listing(self):
        self.w.listing(self.r)

    def s_uri(self):
        p = self.arr()
        if p is not None and self.w.kind == "fs":
            self.w.uri(self.r, p, self.pos(self.w.metas[p]))

    def s_far(self):
        """A box far outside the array, recorded with its offset clipped to
        2^30: no array here reaches that."""
        p = self.arr()
        if p is None or self.w.metas[p].t in RAWS:
            return
        m = self.w.metas[p]
        if not m.shape:
            return
        r = self.r
        off, sh = self.box(m)
        i = r.randrange(len(off))
        far = r.choice([2**30, 2**32, 2**32 + 1, 2**63, 2**63 - 1, 2**64 - 3])
        sh = [min(s, 2) for s in sh]
        true = list(off)
        true[i] = far
        off[i] = 2**30
        before = len(self.w.plan)
        if r.random() < 0.5:
            self.w.write_region(r, p, off, sh)
        else:
            self.w.read_region(r, p, off, sh)
        op, f = self.w.plan[before]
        op["off"] = [str(x) for x in true]

    def s_foreign(self):
        """A group document with members unknown to the library."""
        r = self.r
        p = self.fresh()
        if p is None or p == () or p in self.kinds:
            return
        doc = {"extensions": [], "attributes": rand_attrs(r)}
        for _ in range(r.randint(0, 2)):
            doc[r.choice(["zz", "note", "x"])] = rand_json(r)
        if r.random() < 0.25:
            del doc["attributes"]
        self.w.foreign(r, p, "group", doc)
        self.kinds[p] = "g"

    def s_decoy(self):
        """A file that is no document, left by other software among them."""
        r, w = self.r, self.w
        p = r.choice([()] + self.nodes())
        if w.kind != "fs" or (p and p not in self.kinds) or not self.kinds:
            return
        s = w.suffix if w.suffix[0] == "." else "." + w.suffix
        n = r.choice(self.names)
        f = r.choice(["array" + s, "group" + s, "sub" + n + "array" + s, n + "group" + s, "\u00e9array" + s, ".array" + s,
                      ".group" + s, n + s, n + ".array", n + ".group", n + ".arrays" + s, "README", n + ".txt",
                      n + ".array.x" + s, n + ".array" + s + "~", n + ".array" + s[:-1], "." + n, s, "c0", "array"])
        if len(f.encode()) < 200 and f not in self.names and \
                not re.search(r"..*\.(array|group)" + re.escape(s) + "$", f):
            key = "/".join(("meta/root",) + p + (f,))
            if r.random() < .2:
                # names that are not unicode name no keys
                w.do({"op": "place", "file": w.dir + "/" + key, "notutf8": True, "text": r.choice([None, "text"])})
                return
            w.decoys.add(key)
            w.do({"op": "place", "file": w.dir + "/" + key,
                  "text": r.choice(["", "{}", "text", '{"attributes": {}}'])})

    def s_link(self):
        """Removes a node with a link to another one below its keys."""
        r, w = self.r, self.w
        kept, gone = self.fresh(), self.fresh()
        if w.kind != "fs" or not kept or not gone or kept in self.kinds or gone in self.kinds or \
                not self.free_for_array(kept) or not self.free_for_array(gone):
            return
        i = min(len(kept), len(gone))
        if kept[:i] == gone[:i]:
            return
        for p in (kept, gone):
            w.create_array(r, p, self.meta_fn())
            self.kinds[p] = "a"
            for _ in range(r.randint(1, 3)):
                w.write_chunk(r, p, self.pos(w.metas[p]))
        top = r.choice(["/data/root/", "/data/root/", "/meta/root/"])
        to = top + "/".join(kept)
        if r.random() < .3:
            to = top[:-1] + "".join("/" + x for x in kept[:-1])
        if kept[:len(to.split("/")) - 3] == gone[:len(to.split("/")) - 3]:
            to = top + "/".join(kept)
        w.do({"op": "link", "file": w.dir + "/data/root/" + "/".join(gone) + "/" + r.choice(["lnk", "z/lnk", "c0lnk"]),
              "to": w.dir + to})
        if r.random() < .3:
            w.read_chunk(r, gone, self.pos(w.metas[gone]))
        w.remove(r, gone)
        self.kinds.pop(gone, None)
        w.dump()

    def s_badnode(self):
        """Calls on nodes that are missing or already there."""
        r, w = self.r, self.w
        x = r.random()
        missing = tuple(r.choice(self.names) for _ in range(r.randint(1, 3))) + ("missing",)
        if x < 0.3:
            w.set_attributes(r, missing, rand_attrs(r))
        elif x < 0.4:
            w.list_attributes(r, missing)
        elif x < 0.5:
            w.get_meta(r, missing)
        elif x < 0.55:
            w.array_exists(r, missing)
        elif x < 0.8:
            if self.kinds:
                w.create_array(r, r.choice(self.nodes()), self.meta_fn(), assume=False)
        elif self.arrays():
            w.create_group(r, r.choice(self.arrays()))

    def s_badmeta(self):
        """Chunk calls with metadata whose element type has no meaning."""
        p = self.arr()
        if p is None:
            return
        m = self.w.metas[p]
        bad = Meta(m.t, m.big, m.shape, m.cshape, sep=m.sep,
                   dtype={"extension": "http://example.org/type", "type": "odd"})
        self.w.do(bad.define())
        pos = self.pos(m)
        d = [elem(self.r, m.t) for _ in range(m.n)]
        self.w.call({"op": "write_chunk", "path": self.w.spell(self.r, p), "m": bad.id, "T": m.t,
                     "pos": pos, "data": d},
                    {"op": "write_chunk", "path": list(p), "pos": pos, "data": d, "sep": m.sep,
                     "good": False}, h=self.w.hd(self.r))


def wide(w, r, n):
    """A group of many children of every kind, some removed again."""
    base = r.choice([(), ("g",), ("g", "h")])
    m = rand_meta(r, t="u8", ndim=1, codec="raw")
    kids = ["%s%d" % (r.choice(["n", "c", "x.", "long" * r.randint(1, 40)]), i) for i in range(n)]
    made = []
    for k in kids:
        x = r.random()
        p = base + (k,)
        if x < .4:
            w.create_group(r, p)
        elif x < .7:
            w.create_array(r, p, m)
            if r.random() < .2:
                w.write_chunk(r, p, [0])
        else:       # an implicit group
            w.create_group(r, p + (r.choice(["d", k]),))
        made.append(p)
    for _ in range(2):
        w.list_nodes(r, base)
        w.list_nodes(r, r.choice(made))
        for p in r.sample(made, min(len(made), 10)):
            w.remove(r, p)
            made.remove(p)
        w.exists(r, r.choice(made))
    w.list_nodes(r, base)
    w.list_nodes(r, ())
    if base and r.random() < .5:
        w.remove(r, base)
        w.list_nodes(r, base[:-1])
    w.dump()


def deep(w, r, n):
    """Nodes far below the root, at many depths."""
    names = [r.choice(["d", "a", "c0", "x.y", "group", "n%d" % i]) for i in range(n)]
    path = tuple(names)
    m = rand_meta(r, t="i16")
    cut = sorted(r.sample(range(1, n), 3))
    w.create_array(r, path, m)
    w.write_chunk(r, path, [0] * len(m.grid))
    for k in cut:
        x = r.random()
        if x < .5:
            w.create_group(r, path[:k])
            w.set_attributes(r, path[:k], rand_attrs(r))
        else:
            w.create_group(r, path[:k] + ("side", "b"))
    for k in range(n):
        w.list_nodes(r, path[:k])
        if r.random() < .3:
            w.exists(r, path[:k])
    w.read_chunk(r, path, [0] * len(m.grid))
    w.remove(r, path[:r.choice(cut)] + (("side",) if r.random() < .3 else ()))
    for k in [0, n] + r.sample(range(n), 6):
        w.list_nodes(r, path[:k])
        w.exists(r, path[:k])
    w.read_chunk(r, path, [0] * len(m.grid), meta=m)
    w.dump()
