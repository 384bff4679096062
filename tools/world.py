"""Random histories of calls on hierarchies, recorded for HierarchyTrace.

Nothing here judges a result: the generator only remembers which calls it
issued, so as to issue sensible ones, and the specification decides."""
import json, os, bz2, gzip, hashlib, lzma, zlib
from vlib import *

TYPES = {"bool": 1, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2,
         "i32": 4, "i64": 8, "f16": 2, "f32": 4, "f64": 8}
RAWS = {"r8": 1, "r16": 2, "r24": 3, "r32": 4}
CODECS = {
    "raw": [None],
    "gzip": [{"level": -1}, {"level": 0}, {"level": 1}, {"level": 9}],
    "bzip2": [{"blockSize": 9}, {"blockSize": 1}],
    "lz4": [{"blockSize": 65536}, {"blockSize": 300000}, {"blockSize": 4194304}],
    "xz": [{"preset": 6}, {"preset": 0}, {"preset": 2}],
}
CODEC_URI = {"gzip": "https://purl.org/zarr/spec/codec/gzip/1.0"}


def dtype_str(t, big):
    if t == "bool" or t in RAWS:
        return t
    k, n = t[0], int(t[1:]) // 8
    if n == 1:
        return "%s1" % k
    return ("> " if big else "< ").strip() + "%s%d" % (k, n)


def compressor(codec, conf):
    if codec == "raw":
        return None
    return {"codec": CODEC_URI.get(codec, codec), "configuration": conf}


def array_doc(shape, cshape, dtype, codec="raw", conf=None, order="F", sep="/",
              fill=None, attrs=None, ext=None):
    d = {"shape": list(shape), "data_type": dtype,
         "chunk_grid": {"type": "regular", "chunk_shape": list(cshape), "separator": sep},
         "chunk_memory_layout": order, "fill_value": fill,
         "extensions": ext or [], "attributes": attrs or {}}
    c = compressor(codec, conf)
    if c:
        d["compressor"] = c
    return d


def meta_of(doc):
    """The document without its attributes, as text, and the attributes."""
    rest = {k: v for k, v in doc.items() if k != "attributes"}
    if "shape" not in doc:
        rest = "" if rest == {"extensions": []} else canon(rest)
        return rest, pairs(doc.get("attributes", {}))
    return canon(rest), pairs(doc.get("attributes", {}))


def pairs(attrs):
    if not isinstance(attrs, dict):
        return [["not an object", canon(attrs)]]
    return [[k, canon(v)] for k, v in sorted(attrs.items())]


def squeeze(data):
    """Long element lists are recorded as their digest: the specification only
    asks whether two of them are equal."""
    if len(data) <= 64:
        return data
    return ["%d elements %s" % (len(data), hashlib.sha1("".join(data).encode()).hexdigest())]


def split_hex(hx, width, big):
    out = []
    w = 2 * width
    for i in range(0, len(hx), w):
        e = hx[i:i + w]
        if not big:
            e = "".join(e[j:j + 2] for j in range(len(e) - 2, -1, -2))
        out.append(e)
    return out


def inflate(codec, b, harness=None):
    """Decode a chunk value independently of the library."""
    try:
        if codec == "raw":
            return b
        if codec == "gzip":
            d = zlib.decompressobj(31)
            r = d.decompress(b) + d.flush()
            return r if d.eof and not d.unused_data else None
        if codec == "bzip2":
            d = bz2.BZ2Decompressor()
            r = d.decompress(b)
            return r if d.eof and not d.unused_data else None
        if codec == "xz":
            d = lzma.LZMADecompressor(format=lzma.FORMAT_XZ)
            r = d.decompress(b)
            return r if d.eof and not d.unused_data else None
        if codec == "lz4":
            r = harness("decode", codec="lz4", hex=b.hex())
            return bytes.fromhex(r["v"]["hex"]) if r["t"] == "ok" and r["v"]["ok"] else None
    except Exception:
        return None
    raise ToolError("codec " + codec)


def deflate(codec, b, level, harness):
    if codec == "raw":
        return b
    if codec == "gzip":
        return gzip.compress(b, min(level, 9), mtime=0)
    if codec == "bzip2":
        return bz2.compress(b, max(1, min(level, 9)))
    if codec == "xz":
        return lzma.compress(b, preset=min(level, 6))
    return bytes.fromhex(harness("encode", codec="lz4", level=level, hex=b.hex())["v"])


class Meta:
    """Array metadata as used by calls."""
    count = 0

    def __init__(self, t, big, shape, cshape, codec="raw", conf=None, order="F",
                 sep="/", fill=None, fillhex=None, attrs=None, ext=None, dtype=None, fillok=True):
        Meta.count += 1
        self.id = Meta.count
        self.t, self.codec, self.sep, self.order = t, codec, sep, order
        self.big = big or t in RAWS     # raw elements have no byte order
        self.width = TYPES.get(t) or RAWS[t]
        self.shape, self.cshape = list(shape), list(cshape)
        self.doc = array_doc(shape, cshape, dtype or dtype_str(t, big), codec, conf, order,
                             sep, fill, attrs, ext)
        self.fillhex = fillhex or "00" * self.width
        self.fillok = fillok        # whether the fill value denotes an element
        self.n = 1
        for c in cshape:
            self.n *= c
        self.grid = [-(-s // c) for s, c in zip(shape, cshape)]
        self.g = {"shape": self.shape, "cshape": self.cshape, "order": order,
                  "fill": self.fillhex, "sep": sep}

    def define(self):
        return {"op": "defmeta", "m": self.id, "doc": self.doc}


def elem(r, t):
    """A random element of a type, biased to edge patterns."""
    if t == "bool":
        return r.choice(["00", "01"])
    w = TYPES.get(t) or RAWS[t]
    x = r.random()
    if x < 0.2:
        return r.choice(["00", "ff", "80", "7f", "01"]) + r.choice(["00", "ff", "01", "80"]) * (w - 1)
    return "%0*x" % (2 * w, r.getrandbits(8 * w))


NAMES = ["a", "b", "ab", "a.b", "foo", "x.array", "y.group", "c0", "nested-name",
         "with space", "U\u00e9", "long" * 12, "z.json", "_", "data", "root"]


VARIANTS = [lambda s: "." + s, lambda s: ".." + s, lambda s: "..." + s, lambda s: s + ".", lambda s: s + "..",
            lambda s: s + "b", lambda s: s[:-1] or s, lambda s: s.upper(), lambda s: s.capitalize(),
            lambda s: " " + s, lambda s: s + " ", lambda s: s + ".array", lambda s: s + ".group",
            lambda s: s + "array", lambda s: s + "group", lambda s: s + ".json", lambda s: s + "-",
            lambda s: "-" + s, lambda s: "%2e" + s, lambda s: s + "%2f", lambda s: s + "\\", lambda s: "_" + s,
            lambda s: s + "~", lambda s: "c" + s, lambda s: s + "0", lambda s: s + s, lambda s: s + "." + s,
            lambda s: "~" + s, lambda s: s + "*", lambda s: s + "?", lambda s: s + ":" + s, lambda s: "#" + s,
            lambda s: s + "\u0301", lambda s: s + "\n", lambda s: s + "'", lambda s: s + ".tmp", lambda s: s + ".lock"]


def family(r, k):
    """Names easily taken for one another."""
    out = set(r.sample(["a", "foo", "n1", "array", "group", "root", "c0", "\u00e9", "data", "x.y"], r.randint(1, 2)))
    while len(out) < k:
        s = r.choice(VARIANTS)(r.choice(sorted(out)))
        # "." and ".." are no names; names of documents are a finding of C09
        if len(s) < 60 and s not in (".", "..") and not re.search(r"\.(array|group)\.\w+$", s):
            out.add(s)
    return sorted(out)


def some_names(r, k, pool=NAMES):
    return family(r, k) if r.random() < .5 else r.sample(pool, k)


def layout(r, n):
    """How the caller's array lies in memory."""
    x = r.random()
    p = list(range(n))
    if x < .25:
        return {}
    if x < .45:
        return {"lay": p[::-1], "steps": [1] * n, "owned": r.random() < .5}
    r.shuffle(p)
    if x < .75:
        return {"lay": p, "steps": [1] * n, "owned": r.random() < .5}
    return {"lay": p, "steps": [r.choice([1, -1, 2, -2, 3]) for _ in range(n)]}


class World:
    def __init__(self, name, handles=2, kind="fs", suffix=".json", mem=None, feature=None,
                 harness=None, two=False):
        self.two = two          # odd handles live in another process
        self.h = harness or Harness(feature)
        self.kind, self.suffix = kind, suffix
        self.plan = []          # (operation, event builder)
        self.events = []
        self.oplog = []         # per event, the operations up to and with it
        self.ops = []
        self.handles = handles if kind == "fs" else 1
        self.mem = mem or {}
        self.metas = {}         # path -> Meta of the array last created there
        self.written = set()    # (path, pos) ever written in this history
        self.paths = set()
        self.decoys = set()     # keys that are none of the library's
        self.dir = None
        self.traces = 0
        self.dir_rng = random.Random(5)

    # -- issuing calls --------------------------------------------------------
    def do(self, op, event=None):
        self.plan.append((op, event))

    def call(self, op, ev, conv=lambda v: v, h=None):
        """A call, recorded as event `ev` with result converted by `conv`."""
        op = dict(op)
        op.setdefault("h", h if h is not None else 0)

        def build_event(res, ev=ev, conv=conv):
            e = dict(ev)
            if res["t"] == "ok":
                e["res"] = {"t": "ok", "v": conv(res["v"])}
            else:
                e["res"] = {"t": res["t"], "v": res["v"]}
            return e
        self.plan.append((op, build_event))

    def reset(self, r=None):
        """Begin another history on an empty hierarchy."""
        self.traces += 1
        self.metas, self.written, self.paths, self.decoys = {}, set(), set(), set()
        self.do({"op": "grid_noop"} if False else {"op": "codec_name", "name": "raw"},
                lambda res: {"op": "reset"})
        if self.kind == "fs":
            self.dir = fresh_dir("h")
            if self.suffix != ".json":
                ep = {"zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
                      "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
                      "metadata_key_suffix": self.suffix, "extensions": []}
                with open(os.path.join(self.dir, "zarr.json"), "w") as f:
                    json.dump(ep, f)
            for h in range(self.handles):
                self.do({"op": "open" if h % 2 else "open_or_create", "h": h, "dir": self.spell_dir()},
                        self.must("open"))
        else:
            op = {"op": "mem", "h": 0}
            op.update(self.mem)
            if self.suffix != ".json":
                op["entry"] = {"zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
                               "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
                               "metadata_key_suffix": self.suffix, "extensions": []}
            self.do(op)

    def spell_dir(self):
        """One of the names that the directory of the hierarchy has (the harness
        is in the root directory)."""
        r = self.dir_rng
        x = r.randrange(8)
        if x == 0:
            return self.dir + r.choice(["/", "//", "/."])
        if x == 1:
            return self.dir[1:]
        if x == 2:
            return os.path.join(os.path.dirname(self.dir), ".", os.path.basename(self.dir))
        if x == 3:
            link = os.path.join(os.path.dirname(self.dir), "link")
            if not os.path.islink(link):
                os.symlink(self.dir, link)
            return link
        return self.dir

    @staticmethod
    def plain_file(base, uri):
        """The path that a file URI names, by the plain name of the directory."""
        p = os.path.normpath(os.path.join("/", uri[7:]))
        link = os.path.join(os.path.dirname(base), "link")
        return base + p[len(link):] if (p + "/").startswith(link + "/") else p

    def must(self, what):
        def f(res):
            if res["t"] != "ok":
                raise Rejected(0, None, "%s of the hierarchy: %s" % (what, res))
            return None
        return f

    def flush(self):
        """Run what is planned; the events recorded."""
        if self.two:
            for op, f in self.plan:
                if op.get("h", 0) % 2:
                    if "b" in op:      # buffers are in one process
                        op["h"] = 0
                    else:
                        op["proc"] = 1
        try:
            res = self.h.many([p[0] for p in self.plan])
        except HarnessDied as e:
            e.ops = [p[0] for p in self.plan]
            raise
        for (op, f), r in zip(self.plan, res):
            self.ops.append(op)
            if f:
                e = f(r)
                if e is not None:
                    self.events.append(e)
                    self.oplog.append(len(self.ops))
            elif r["t"] != "ok":
                raise ToolError("harness: %s for %s" % (r, op))
        self.plan = []
        return self.events

    # -- spellings --------------------------------------------------------------
    def spell(self, r, path, plain=False):
        p = "/".join(path)
        if plain or r is None:
            return r.choice(["/", ""]) + p if r else "/" + p
        lead = r.choice(["", "/", "/", "//"])
        tail = r.choice(["", "", "/", "//"])
        if self.kind == "fs" and r.random() < 0.15:
            p = p.replace("/", r.choice(["//", "///"]))
        return lead + p + tail

    # -- calls --------------------------------------------------------------
    def hd(self, r):
        return r.randrange(self.handles)

    def create_group(self, r, path):
        self.paths.add(path)
        self.call({"op": "create_group", "path": self.spell(r, path)},
                  {"op": "create_group", "path": list(path)}, h=self.hd(r))

    def create_array(self, r, path, meta, assume=True):
        self.do(meta.define())
        self.paths.add(path)
        if assume:
            self.metas[path] = meta
        m, a = meta_of(meta.doc)
        self.call({"op": "create_array", "path": self.spell(r, path), "m": meta.id},
                  {"op": "create_array", "path": list(path), "meta": m, "attrs": a}, h=self.hd(r))

    def set_attributes(self, r, path, attrs):
        op = {"op": "set_attributes", "path": self.spell(r, path), "attrs": attrs}
        if len(attrs) == 1 and r.random() < 0.5:
            (k, v), = attrs.items()
            op = {"op": "set_attribute", "path": self.spell(r, path), "key": k, "val": v}
        self.call(op, {"op": "set_attributes", "path": list(path), "attrs": pairs(attrs)},
                  h=self.hd(r))

    def simple(self, r, name, path, conv=lambda v: v):
        self.call({"op": name, "path": self.spell(r, path)}, {"op": name, "path": list(path)},
                  conv, h=self.hd(r))

    def list_attributes(self, r, path):
        self.simple(r, "list_attributes", path, pairs)

    def exists(self, r, path):
        self.simple(r, "exists", path)

    def array_exists(self, r, path):
        self.simple(r, "array_exists", path)

    def list_nodes(self, r, path):
        self.simple(r, "list_nodes", path)

    def get_meta(self, r, path):
        def conv(v):
            m, a = meta_of(v)
            return {"meta": m, "attrs": a}
        self.simple(r, "get_meta", path, conv)

    def remove(self, r, path):
        op = {"op": "remove", "path": self.spell(r, path)}
        if not path and r.random() < 0.5:
            op = {"op": "remove_all"}
        self.call(op, {"op": "remove", "path": list(path)}, h=self.hd(r))
        for p in [p for p in self.metas if p[:len(path)] == path]:
            del self.metas[p]

    def write_chunk(self, r, path, pos, meta=None, t=None, n=None, data=None):
        meta = meta or self.metas[path]
        t = t or meta.t
        n = meta.n if n is None else n
        good = t == meta.t and n == meta.n
        data = data or [elem(r, t) for _ in range(n)]
        if good:
            self.written.add((path, tuple(pos)))
        self.call({"op": "write_chunk", "path": self.spell(r, path), "m": meta.id, "T": t,
                   "pos": list(pos), "data": data, "slice": r.random() < 0.3},
                  {"op": "write_chunk", "path": list(path), "pos": list(pos),
                   "data": squeeze(data), "sep": meta.sep, "good": good}, h=self.hd(r))

    @staticmethod
    def chunk_conv(v):
        if not v["some"] and "n" in v and not v["data"]:
            return {"some": False, "pos": v["pos"], "data": []}
        d = squeeze(v["data"])
        if v["n"] != len(v["data"]):
            d = d + ["length %d" % v["n"]]
        return {"some": v["some"], "pos": v["pos"], "data": d}

    def read_chunk(self, r, path, pos, meta=None, t=None):
        meta = meta or self.metas[path]
        t = t or meta.t
        self.call({"op": "read_chunk", "path": self.spell(r, path), "m": meta.id, "T": t,
                   "pos": list(pos)},
                  {"op": "read_chunk", "path": list(path), "pos": list(pos), "sep": meta.sep,
                   "good": t == meta.t},
                  self.chunk_conv, h=self.hd(r))

    def new_buf(self, r, b, t, pos, data):
        self.call({"op": "buf_new", "b": b, "T": t, "pos": list(pos), "data": data},
                  {"op": "buf_new", "b": "%s:%s" % (b, t), "pos": list(pos), "data": squeeze(data)})

    def buf_like(self, r, b, t, pos, data):
        """A chunk the caller has made equal to another one."""
        self.call({"op": "buf_like", "b": b, "T": t, "pos": list(pos), "data": data, "slice": r.random() < .5},
                  {"op": "buf_like", "b": "%s:%s" % (b, t), "pos": list(pos), "data": squeeze(data)},
                  self.chunk_conv)

    def buf_size(self, r, b, t, pos, n):
        self.call({"op": "buf_size", "b": b, "T": t, "pos": list(pos), "n": n},
                  {"op": "buf_size", "b": "%s:%s" % (b, t), "pos": list(pos), "n": n}, self.chunk_conv)

    def read_into(self, r, path, pos, b, meta=None):
        meta = meta or self.metas[path]
        self.call({"op": "read_chunk_into", "path": self.spell(r, path), "m": meta.id,
                   "T": meta.t, "pos": list(pos), "b": b},
                  {"op": "read_chunk_into", "path": list(path), "pos": list(pos), "sep": meta.sep,
                   "b": "%s:%s" % (b, meta.t)}, self.chunk_conv, h=self.hd(r))

    def delete_chunk(self, r, path, pos, meta=None):
        meta = meta or self.metas[path]
        self.call({"op": "delete_chunk", "path": self.spell(r, path), "m": meta.id,
                   "pos": list(pos)},
                  {"op": "delete_chunk", "path": list(path), "pos": list(pos), "sep": meta.sep}, h=self.hd(r))

    def write_region(self, r, path, off, shape, meta=None, data=None, t=None):
        meta = meta or self.metas[path]
        t = t or meta.t
        n = 1
        for s in shape:
            n *= s
        data = data or [elem(r, t) for _ in range(n)]
        good = len(off) == len(meta.shape) == len(shape)
        self.call({"op": "write_region", "path": self.spell(r, path), "m": meta.id, "T": t,
                   "off": list(off), "shape": list(shape), "data": data, **layout(r, len(shape))},
                  {"op": "write_region", "path": list(path), "g": meta.g, "off": list(off),
                   "shape": list(shape), "data": data, "good": good,
                   "typed": t == meta.t, "fillok": meta.fillok}, h=self.hd(r))

    def view_chunk(self, r, path, pos, meta=None):
        """A chunk as an array of its cells."""
        meta = meta or self.metas[path]

        def conv(v):
            if not v["some"]:
                return {"some": False, "off": [], "shape": [], "nd": [], "data": [], "same": True}
            return v
        self.call({"op": "view_chunk", "path": self.spell(r, path), "m": meta.id, "T": meta.t, "pos": list(pos)},
                  {"op": "view_chunk", "path": list(path), "g": meta.g, "pos": list(pos)}, conv, h=self.hd(r))

    def read_region(self, r, path, off, shape, meta=None, into=None, buf=None, t=None):
        meta = meta or self.metas[path]
        t = t or meta.t
        good = len(off) == len(meta.shape) == len(shape)
        op = {"op": "read_region", "path": self.spell(r, path), "m": meta.id, "T": t,
              "off": list(off), "shape": list(shape), **layout(r, len(shape))}
        if into is not None:
            op["into"] = into
        if buf is not None:
            op["b"] = buf

        def conv(v):
            return v["data"] if v["shape"] == list(shape) else ["shape %s" % v["shape"]]
        self.call(op, {"op": "read_region", "path": list(path), "g": meta.g, "off": list(off),
                       "shape": list(shape), "init": into if into is not None else "",
                       "good": good, "typed": t == meta.t, "fillok": meta.fillok}, conv,
                  h=self.hd(r))

    # -- looking at the store itself ------------------------------------------
    def keys(self):
        def conv(res):
            return {"op": "keys", "keys": [k for k, _ in res["v"]], "entry": self.kind == "fs"}
        self.do({"op": "dump", "h": 0}, conv)

    def listing(self, r):
        """The store's own listings."""
        ps = sorted(self.paths)
        roots = ["", "meta/", "data/", "meta/root/", "data/root/"]
        for p in r.sample(ps, min(2, len(ps))):
            for i in range(1, len(p) + 1):
                roots.append("meta/root/" + "/".join(p[:i]) + "/")
                roots.append("data/root/" + "/".join(p[:i]) + "/")
        pre = r.choice(roots)
        what = r.choice(["list", "list_prefix", "list_dir", "list_dir"])
        if what == "list":
            pre = ""
        lead = r.choice(["", "/"]) if pre else "/"

        def conv(res):
            if res["t"] != "ok":
                return {"op": "listing", "what": what, "prefix": pre, "keys": ["failed %s" % res["v"]],
                        "prefixes": [], "entry": self.kind == "fs"}
            v = res["v"]
            ks, pf = (v["keys"], v["prefixes"]) if what == "list_dir" else (v, [])
            return {"op": "listing", "what": what, "prefix": pre, "entry": self.kind == "fs",
                    "keys": [k[1:] if k[:1] == "/" else k for k in ks],
                    "prefixes": [k.strip("/") for k in pf]}
        self.do({"op": what, "h": self.hd(r), "prefix": lead + pre}, conv)

    def uri(self, r, path, pos, meta=None):
        meta = meta or self.metas[path]
        base = "file://" + (self.dir or "") + "/"

        def conv(res):
            u = res["v"] if res["t"] == "ok" else "failed %s" % res["v"]
            # the hierarchy may have been removed since: the key tells
            if self.kind == "fs" and u.startswith("file://"):
                u = "file://" + self.plain_file(d, u)
            return {"op": "uri", "uri": u, "base": base, "path": list(path), "pos": list(pos),
                    "sep": meta.sep, "isfile": self.seen_file}
        spelled = self.spell(r, path)
        d = self.dir

        def look(res):
            u = res["v"] if res["t"] == "ok" else ""
            self.pending_uri = u
            return None
        # whether the file is there is asked of the same process, in order
        self.do({"op": "uri", "h": self.hd(r), "path": spelled, "m": meta.id, "pos": list(pos)}, look)

        def isfile(res):
            self.seen_file = d is not None and any(d + "/" + k == self.plain_file(d, self.pending_uri)
                                                   for k, _ in res["v"])
            return conv({"t": "ok", "v": self.pending_uri})
        self.do({"op": "dump", "h": 0}, isfile)

    def reopen(self, r):
        """Replace a handle by a new one on the same directory."""
        h = r.randrange(self.handles)
        how = r.choice(["open", "open_or_create"])
        self.do({"op": how, "h": h, "dir": self.spell_dir()},
                lambda res: {"op": "opened", "ok": res["t"] == "ok"})

    def foreign(self, r, path, kind, doc):
        """A document written by other software."""
        self.paths.add(path)
        m, a = meta_of(doc)
        key = "meta/root" + "".join("/" + p for p in path) + "." + kind + self.suffix
        indent = r.choice([None, 1, 4])
        self.do({"op": "put_raw", "h": 0, "key": key,
                 "text": json.dumps(doc, indent=indent, ensure_ascii=r.random() < 0.5)},
                lambda res: {"op": "foreign", "path": list(path), "kind": kind, "meta": m, "attrs": a})

    def dump(self, decode=True):
        metas = {}
        for p, m in list(self.metas.items()):
            metas["data/root/" + "/".join(p) + "/c" if p else "data/root/c"] = m
        known = dict(metas)
        decoys = set(self.decoys)

        def conv(res):
            docs, vals = [], []
            for k, hx in res["v"]:
                if self.kind == "fs" and k == "zarr.json" or k in decoys:
                    continue
                b = bytes.fromhex(hx)
                if k.startswith("meta/"):
                    try:
                        doc = json.loads(b)
                        m, a = meta_of(doc)
                        kind = "array" if "shape" in doc else "group"
                    except Exception:
                        m, a, kind = "unreadable", [], "unreadable"
                    docs.append({"key": k, "kind": kind, "meta": m, "attrs": a})
                else:
                    data = ["undecodable"]
                    ms = [m for pre, m in known.items() if k.startswith(pre)
                          and "/" not in k[:len(pre)][len(pre):]]
                    best = [pre for pre in known if k.startswith(pre)]
                    if best:
                        m = known[max(best, key=len)]
                        d = inflate(m.codec, b, self.h)
                        if d is not None:
                            data = squeeze(split_hex(d.hex(), m.width, m.big))
                    vals.append({"key": k, "data": data})
            return {"op": "dump", "docs": docs, "vals": vals}
        self.do({"op": "dump", "h": 0}, conv)
