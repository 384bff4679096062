"""Checks of the parts that need no history: geometry, chunk format, metadata
documents, data types, fill values.  Each call and its result is one recorded
event, decided by TLC."""
import itertools
from vlib import *


def table(rep, module, items, procs=6, env=None, feature=None, tag=None, **kw):
    """items: (operations, function of their results to an event)."""
    build(feature)
    found, errors, lock = [], [], threading.Lock()

    def batch(b):
        mine = items[b::procs]
        if not mine:
            return
        h = None
        try:
            h = Harness(feature)
            ops = [o for it in mine for o in it[0]]
            res = h.many(ops)
            events, k, origin = [], 0, []
            for os_, f in mine:
                e = f(res[k:k + len(os_)])
                events += e if isinstance(e, list) else [e]
                origin += [os_] * (len(events) - len(origin))
                k += len(os_)
            v = Report.__new__(Report)
            v.states = v.transitions = v.traces = v.events = 0
            try:
                validate(v, module, events, count=len(events), env=env, **kw)
            except Rejected as e:
                with lock:
                    found.append((origin[e.line - 1] if e.line else [], e))
            with lock:
                rep.states += v.states
                rep.transitions += v.transitions
                rep.traces += v.traces
                rep.events += v.events
                for e in events[:2]:
                    rep.sample({"recorded": e if len(json.dumps(e)) < 2000 else
                                json.dumps(e)[:2000]})
        except HarnessDied as e:
            with lock:
                found.append(([e.op], e))
        except Exception as e:
            with lock:
                errors.append(e)
        finally:
            if h:
                h.close()
    ts = [threading.Thread(target=batch, args=(b,)) for b in range(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    for ops, e in found:
        what = ("the process died: %s" % e if isinstance(e, HarnessDied) else
                "recorded result is not what the specification says: %s" %
                json.dumps(e.event)[:1200])
        rep.violation(what, {"ops": ops, "feature": feature,
                             "event": getattr(e, "event", None)})


def many(tier, quick, thorough):
    return quick if tier == "quick" else thorough


# --- C04 ----------------------------------------------------------------------

def limbs(n):
    n = int(n)
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def geo_meta(shape, cs):
    return {"op": "defmeta", "m": 1, "doc": {
        "shape": shape, "data_type": "<u2",
        "chunk_grid": {"type": "regular", "chunk_shape": cs, "separator": "/"},
        "chunk_memory_layout": "C", "compressor": {"codec": ""} if False else None,
        "fill_value": None, "extensions": [], "attributes": {}}}


def geo_def(shape, cs):
    d = geo_meta(shape, cs)
    del d["doc"]["compressor"]
    del d["doc"]["fill_value"]
    return d


def failed(r):
    return any(x["t"] != "ok" for x in r)


def geo(op, shape, cs, big, **f):
    conv = (lambda v: [limbs(x) for x in v]) if big else (lambda v: [int(x) for x in v])
    ev = {"op": op, "big": big, "failed": False, "shape": conv(shape), "cs": conv(cs)}
    for k, v in f.items():
        ev[k] = conv(v)
    return ev, conv


def geo_grid(shape, cs, big):
    ev, conv = geo("grid", shape, cs, big)
    ext = [-(-a // b) for a, b in zip(shape, cs)]

    def prod(s):
        p = 1
        for x in s:
            p *= x
        return p
    # products are only asked for when partial products cannot overflow either
    fits = all(prod([max(x, 1) for x in s]) < 2**64 for s in (ext, shape, cs))
    ops = [geo_def(shape, cs)] + ([{"op": "grid", "m": 1}, {"op": "bounds", "m": 1}] if fits else
                                  [{"op": "extent", "m": 1}])

    def f(r):
        e = dict(ev, fits=fits, extent=[], ndim=0, chunks=0, elements=0, chunkelements=0,
                 bounds={"off": [], "shape": []})
        if failed(r):
            return dict(e, failed=True, why=str(r)[:300])
        v = r[1]["v"]
        e["extent"] = conv(v["extent"])
        one = (lambda x: limbs(x)) if big else int
        if big:
            e["chunks"] = []
        if fits:
            b = r[2]["v"]
            e.update(ndim=v["ndim"], chunks=one(v["num_chunks"]), elements=one(v["num_elements"]),
                     chunkelements=one(v["chunk_num_elements"]),
                     bounds={"off": conv(b["off"]), "shape": conv(b["shape"])})
        return e
    return ops, f


def geo_in(shape, cs, pos, big):
    ev, conv = geo("in_bounds", shape, cs, big, pos=pos)

    def f(r):
        return dict(ev, failed=failed(r), res=r[1].get("v") if not failed(r) else False)
    return [geo_def(shape, cs), {"op": "in_bounds", "m": 1, "pos": [str(x) for x in pos]}], f


def geo_iter(shape, cs):
    ev, conv = geo("coords", shape, cs, False)

    def f(r):
        return dict(ev, failed=True) if failed(r) else dict(ev, **r[1]["v"])
    return [geo_def(shape, cs), {"op": "coords", "m": 1, "limit": 2000}], f


def geo_bounded(shape, cs, off, sh, big):
    ev, conv = geo("bounded", shape, cs, big, off=off, sh=sh)

    def f(r):
        if failed(r):
            return dict(ev, failed=True, why=str(r)[:300])
        v = r[1]["v"]
        if not big:
            return dict(ev, **v)
        it = v["items"]
        along = [[limbs(x) for x in sorted(set(c[i] for c in it))] for i in range(len(shape))]
        return dict(ev, along=along, count=len(it), distinct=len(set(map(tuple, it))) == len(it),
                    lens=v["lens"])
    return [geo_def(shape, cs), {"op": "bounded_coords", "m": 1, "limit": 2000,
                                 "off": [str(x) for x in off], "shape": [str(x) for x in sh]}], f


def geo_chunkbounds(shape, cs, pos, big):
    ev, conv = geo("chunk_bounds", shape, cs, big, pos=pos)

    def f(r):
        if failed(r):
            return dict(ev, failed=True, off=[], sh=[])
        return dict(ev, off=conv(r[1]["v"]["off"]), sh=conv(r[1]["v"]["shape"]))
    return [geo_def(shape, cs), {"op": "chunk_bounds", "m": 1, "pos": [str(x) for x in pos]}], f


def geo_box(fn, a, b, big):
    (ao, as_), (bo, bs) = a, b
    ev, conv = geo({"intersect": "meet", "union": "join", "sub": "sub"}[fn], [], [], big,
                   ao=ao, bo=bo, bs=bs)
    ev["as"] = conv(as_)

    def f(r):
        if failed(r):
            return dict(ev, failed=True, off=[], sh=[], empty=False, end=[], why=str(r)[:300])
        v = r[0]["v"]
        return dict(ev, off=conv(v["off"]), sh=conv(v["shape"]), empty=v["empty"], end=conv(v["end"]))
    q = lambda s: [str(x) for x in s]
    return [{"op": "bbox", "f": fn, "aoff": q(ao), "ashape": q(as_), "boff": q(bo),
             "bshape": q(bs)}], f


def c04(rep, tier):
    check_model(rep, "MCGeometry", "MCGeometry.cfg" if tier == "quick" else "MCGeometryDeep.cfg")
    items = []
    # every small case in one dimension, all of zero dimensions
    items += [geo_grid([], [], False), geo_iter([], []), geo_in([], [], [], False),
              geo_bounded([], [], [], [], False), geo_in([], [], [0], False),
              geo_box("intersect", ([], []), ([], []), False)]
    S, C = many(tier, (7, 4), (11, 7))
    for s in range(S + 1):
        for c in range(1, C + 1):
            items += [geo_grid([s], [c], False), geo_iter([s], [c])]
            items += [geo_in([s], [c], [p], False) for p in range(s // c + 3)]
            items += [geo_chunkbounds([s], [c], [p], False) for p in range(s // c + 2)]
            items += [geo_bounded([s], [c], [o], [n], False) for o in range(S + 3) for n in range(S + 2)]
    for a in itertools.product(range(4), range(4), range(4), range(4)):
        A, B = ([a[0]], [a[1]]), ([a[2]], [a[3]])
        items.append(geo_box("intersect", A, B, False))
        if a[1] and a[3]:
            items.append(geo_box("union", A, B, False))
        if a[2] <= a[0]:
            items.append(geo_box("sub", A, B, False))
    # random ones in several dimensions
    r = rng("C04", tier)
    for _ in range(many(tier, 2500, 30000)):
        nd = r.randint(2, 4) if r.random() < .9 else r.randint(5, 9)
        top = {2: 9, 3: 6, 4: 4}.get(nd, 2)
        shape = [r.randint(0 if r.random() < .2 else 1, top) for _ in range(nd)]
        cs = [r.randint(1, r.choice([2, 4, top + 2])) for _ in range(nd)]
        off = [r.randint(0, top + (3 if r.random() < .3 else 0)) for _ in range(nd)]
        sh = [r.randint(0 if r.random() < .2 else 1, top + 2) for _ in range(nd)]
        k = r.random()
        if k < .12:
            items.append(geo_grid(shape, cs, False))
        elif k < .24:
            items.append(geo_iter(shape, cs))
        elif k < .4:
            pos = [r.randint(0, -(-s // c) + 1) for s, c in zip(shape, cs)]
            if r.random() < .7:
                pos = [max(0, -(-s // c) - 1) for s, c in zip(shape, cs)]
                i = r.randrange(nd)
                pos[i] += r.choice([0, 0, 1])
            if r.random() < .1:
                pos = pos[:-1] if r.random() < .5 else pos + [0]
            items.append(geo_in(shape, cs, pos, False))
        elif k < .5:
            b = [r.randint(0, top + 2) for _ in range(nd)], [r.randint(0, top) for _ in range(nd)]
            items.append(geo_box("intersect", (off, sh), b, False))
        elif k < .6:
            b = [r.randint(0, top + 2) for _ in range(nd)], [r.randint(1, top) for _ in range(nd)]
            items.append(geo_box("union", (off, [max(1, x) for x in sh]), b, False))
        else:
            items.append(geo_bounded(shape, cs, off, sh, False))
    # numbers up to 2^64 - 1
    M = 2**64 - 1
    C32 = 2**32 - 1
    for _ in range(many(tier, 1200, 15000)):
        nd = r.randint(1, 3) if r.random() < .95 else r.randint(4, 8)
        num = lambda: min(M, max(1, r.choice([
            r.randint(1, 300), 2**r.randint(0, 64) + r.randint(-2, 2), M - r.randint(0, 3),
            r.getrandbits(64), r.getrandbits(40), r.randint(1, C32) * r.randint(1, 2**31)])))
        ch = lambda: min(C32, max(1, r.choice([1, r.randint(1, 300), 2**r.randint(0, 32) + r.randint(-1, 1),
                                               r.getrandbits(32)])))
        shape = [num() for _ in range(nd)]
        cs = [ch() for _ in range(nd)]
        if r.random() < .5:     # exact multiples and their neighbours
            shape = [min(M, max(1, c * (s // c) + r.choice([0, 1, -1]))) for s, c in zip(shape, cs)]
        last = [-(-s // c) - 1 for s, c in zip(shape, cs)]
        k = r.random()
        if k < .25:
            items.append(geo_grid(shape, cs, True))
        elif k < .5:
            pos = [min(M, max(0, x + r.choice([0, 0, 0, 1, -1]))) for x in last]
            if r.random() < .2:
                pos[r.randrange(nd)] = num()
            items.append(geo_in(shape, cs, pos, True))
        elif k < .6:
            pos = [min(x, (M - c) // c) for x, c in zip(last, cs)]
            items.append(geo_chunkbounds(shape, cs, pos, True))
        elif k < .85:
            off, sh = [], []
            for s, c, z in zip(shape, cs, last):
                p = r.choice([0, z, max(0, z - 1), r.randint(0, z)])
                o = min(M, p * c + r.choice([0, c - 1, r.randrange(c)]))
                n = r.choice([1, c, c + 1, r.randint(1, 3 * c), 0 if r.random() < .1 else 1])
                if r.random() < .1:
                    o = min(M, s + r.randint(0, 2))
                if z - o // c < 4 and r.random() < .5:
                    n = M - o if r.random() < .5 else M
                if len(off) >= 3:
                    n = 1
                off.append(o)
                sh.append(n)
            items.append(geo_bounded(shape, cs, off, sh, True))
        else:
            box = lambda lo: (lambda o: (o, [r.choice([lo, r.randint(lo, max(lo, M - x)), min(M - x, 1000)])
                                             if M - x >= lo else 0 for x in o]))(
                [num() % (M - 1) for _ in range(nd)])
            a, b = box(0), box(0)
            f = r.choice(["intersect", "union", "sub"])
            if f == "union":
                a, b = [(o, [max(1, x) for x in n]) for o, n in (a, b)]
            if f == "sub":
                b = ([r.randint(0, x) for x in a[0]], b[1])
            if f == "intersect" and r.random() < .6:
                b = ([min(M, max(0, x + r.randint(-5, 5))) for x in a[0]],
                     [r.randint(0, 20) for _ in a[0]])
                b = (b[0], [min(n, M - o) for o, n in zip(*b)])
            items.append(geo_box(f, a, b, True))
    # boxes of so many cells that their number is zero or small modulo 2^64
    for _ in range(many(tier, 120, 1500)):
        nd = r.randint(2, 5)
        while True:
            ks = [r.randint(10, 33) for _ in range(nd)]
            if sum(ks) >= 64:
                break
            nd = max(nd, 2) if nd > 2 else 3
        sh = [2**k * (1 if r.random() < .9 else r.choice([3, 5])) for k in ks]
        cs = [min(2**31, max(1, s >> r.choice([0, 0, 0, 1]) if s < 2**32 else s >> r.choice([2, 3]))) for s in sh]
        off = [r.choice([0, c, c - 1, 1]) for c in cs]
        x = r.random()
        if x < .5:
            items.append(geo_bounded([o + s + r.choice([0, 1]) for o, s in zip(off, sh)], cs, off, sh, True))
        elif x < .75:
            items.append(geo_box("intersect", (off, sh), ([0] * nd, [o + s for o, s in zip(off, sh)]), True))
        else:
            items.append(geo_box("union", (off, sh), (off, [1] * nd), True))
    rep.extra["cases"] = len(items)
    table(rep, "GeometryTrace", items)


# --- C05 ----------------------------------------------------------------------

import bz2, gzip, lzma, io, world
from world import TYPES, RAWS, dtype_str, array_doc, inflate

CONFS = {
    "raw": [None],
    "gzip": [{"level": x} for x in (-1, 0, 1, 5, 9, 10, 1000, -7)] + [{}, None],
    "bzip2": [{"blockSize": x} for x in (1, 5, 9)] + [{}],
    "lz4": [{"blockSize": x} for x in (0, 1, 65536, 65537, 262144, 300000, 2**20, 2**20 + 1,
                                       2**22, 2**31 - 1, -1)] + [{}],
    "xz": [{"preset": x} for x in (0, 1, 6)] + [{}],
}


def deflate(r, codec, b, h, summed=False):
    """A value other software may have produced for these bytes; on request
    only one that carries a checksum of them."""
    if codec == "raw":
        return b
    if codec == "gzip":
        if r.random() < .3:     # with a name and a time
            o = io.BytesIO()
            with gzip.GzipFile("chunk.bin", "wb", r.randint(0, 9), o, mtime=r.getrandbits(31)) as f:
                f.write(b)
            return o.getvalue()
        return gzip.compress(b, r.randint(0, 9), mtime=0)
    if codec == "bzip2":
        return bz2.compress(b, r.randint(1, 9))
    if codec == "xz":
        return lzma.compress(b, preset=r.choice([0, 1, 3, 6]), check=r.choice(
            [lzma.CHECK_NONE, lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_SHA256][summed:]))
    return bytes.fromhex(h("encode", codec="lz4", level=r.choice([0, 3, 9]),
                           var=r.randrange(16) & (13 if summed else 15), hex=b.hex())["v"])


def hbytes(hx):
    return list(bytes.fromhex(hx))


class Fmt:
    """Chunks of one harness, and the library's values for them."""

    def __init__(self, feature, kind):
        self.h = Harness(feature)
        self.events, self.ops, self.n = [], [], 0
        self.kind = kind
        if kind == "fs":
            self.h("open_or_create", h=0, dir=fresh_dir("fmt"))
        else:
            self.h("mem", h=0, piece=1 if kind == "bits" else 0)

    def case(self, r, small=True, size=None, t=None, codec=None, conf=0, mix=False):
        self.n += 1
        t = t or r.choice(list(TYPES) + list(RAWS))
        w = TYPES.get(t) or RAWS[t]
        big = r.random() < .5
        codec = codec or r.choice(list(CONFS))
        conf = r.choice(CONFS[codec]) if conf == 0 else conf
        if size is None:
            size = r.choice([1, 1, 2, 3, 7, r.randint(1, 60), r.randint(1, 60), 255, 256, 257])
        n = size
        cs = [n]
        for f in (2, 3, 5):     # some are of several dimensions
            if r.random() < .4 and cs[-1] % f == 0:
                cs[-1:] = [cs[-1] // f, f]
        doc = array_doc([c * 2 for c in cs], cs, dtype_str(t, big), codec, conf, r.choice("CF"),
                        r.choice(["/", "."]))
        if codec != "raw" and conf is None:
            # without a configuration where the format has only defaults
            doc["compressor"]["configuration"] = {}
        pos = [r.randint(0, 1) for _ in cs]
        path = "/x%d" % self.n
        at = {"h": 0, "m": 1, "path": path, "pos": pos}
        ops = [{"op": "defmeta", "m": 1, "doc": doc}]
        if small:
            data = [self.elem(r, t, w) for _ in range(n)]
            given = {"data": [bytes(x).hex() for x in data]}
            ev = {"t": t, "big": big, "codec": codec, "data": data, "n": n}
            flat = [b for x in data for b in (x if big or t in RAWS else x[::-1])]
        else:
            step = 40503 if mix else min(r.choice([1, 3, 257, 40503, 0, 7919]), 2**31 // n - 60000 // n - 1)
            start = r.randrange(60000)
            given = {"gen": {"n": n, "start": start, "step": step, "mix": mix}}
            ev = {"t": t, "big": big, "codec": codec, "start": start, "step": step, "mix": mix, "n": n}
            flat = []
            for i in range(n):
                k = (i % 46337) ** 2 % 65521 // 7 if mix else i
                x = list((start + step * k).to_bytes(8, "big")[8 - min(w, 8):])
                flat += x if big or w == 1 else x[::-1]
        # what the library stores
        ops += [dict(at, op="write_chunk", T=t, **given), dict(at, op="chunk_value")]
        res = self.h.many(ops)
        if res[0]["t"] != "ok":
            # configurations outside the format may be refused
            v = list((conf or {"": 1}).values())
            if v and not (0 <= v[0] <= 9 if codec != "lz4" else v[0] >= 0) and v[0] != -1:
                return
            self.events.append(dict(ev, op="write" if small else "genwrite", ok=False, decodes=False,
                                    bytes=[]))
            self.ops.append(ops[:1])
            return
        ok = res[1]["t"] == "ok" and res[2]["v"]["some"]
        out = inflate(codec, bytes.fromhex(res[2]["v"]["hex"]), self.h) if ok else None
        e = dict(ev, op="write" if small else "genwrite", ok=ok, decodes=out is not None,
                 bytes=list(out or b""))
        self.events.append(e)
        self.ops.append(ops)
        # what the library makes of a value of other software
        if t == "bool" and small and r.random() < .5:
            flat = [r.choice([0, 1, 1, 2, 255]) for _ in flat]
        v = deflate(r, codec, bytes(flat), self.h)
        at["path"] += "r"
        ops = [dict(at, op="put_chunk", hex=v.hex()), dict(at, op="read_chunk", T=t, concat=not small)]
        x = self.h.many(ops)[1]
        ok = x["t"] == "ok"
        e = dict(ev, op="read" if small else "genread", ok=ok, some=ok and x["v"]["some"], bytes=flat)
        if small:
            e["data"] = [hbytes(y) for y in x["v"]["data"]] if ok else []
        else:
            e["data"] = hbytes(x["v"]["data"] or "") if ok and x["v"]["some"] else []
        self.events.append(e)
        self.ops.append([{"op": "defmeta", "m": 1, "doc": doc}] + ops)
        for p in (path, path + "r"):
            self.h("store_erase_prefix", h=0, key="data/root" + p + "/")

    def elem(self, r, t, w):
        if t == "bool":
            return [r.randrange(2)]
        if t[0] == "f" and r.random() < .3:
            # infinities, NaNs with payloads, negative zero, subnormals
            e = {2: [[0x7c, 0], [0xfc, 0], [0x7c, 1], [0x7e, 0x55], [0x80, 0], [0, 1]],
                 4: [[0x7f, 0x80, 0, 0], [0xff, 0x80, 0, 1], [0x7f, 0xc0, 1, 2], [0x80, 0, 0, 0], [0, 0, 0, 1]],
                 8: [[0x7f, 0xf0] + [0] * 6, [0xff, 0xf0] + [0] * 5 + [1], [0x7f, 0xf8, 9] + [0] * 5,
                     [0x80] + [0] * 7, [0] * 7 + [1]]}[w]
            return list(r.choice(e))
        return [r.choice([0, 255, 128, 1, r.randrange(256)]) for _ in range(w)]


def fmt_batch(rep, feature, kind, plan, found, lock):
    f = Fmt(feature, kind)
    try:
        plan(f)
        v = Report.__new__(Report)
        v.states = v.transitions = v.traces = v.events = 0
        try:
            validate(v, "ChunkFormatTrace", f.events, count=len(f.events), timeout=800)
        except Rejected as e:
            with lock:
                found.append((f.ops[e.line - 1] if e.line else [], feature, e))
        with lock:
            for k in ("states", "transitions", "traces", "events"):
                setattr(rep, k, getattr(rep, k) + getattr(v, k))
            for e in f.events[:1]:
                rep.sample({"recorded": e if len(json.dumps(e)) < 2000 else json.dumps(e)[:2000]})
    finally:
        f.h.close()


def c05(rep, tier):
    check_model(rep, "MCChunkFormat", "MCChunkFormat.cfg")
    pure = alternative(rep, "pure")
    jobs = []

    def small(label, n, **kw):
        def plan(f):
            r = rng("C05", label, tier)
            for _ in range(n):
                f.case(r, **kw)
        return plan

    def every(label, part):
        # every element type with every codec configuration, at several lengths
        def plan(f):
            r = rng("C05", "every", label)
            k = 0
            for t in list(TYPES) + list(RAWS):
                for codec in CONFS:
                    for conf in CONFS[codec]:
                        k += 1
                        if k % 4 == part:
                            f.case(r, t=t, codec=codec, conf=conf)
        return plan

    def large(label, n, top):
        def plan(f):
            r = rng("C05", "large", label, tier)
            for _ in range(n):
                t = r.choice(["u8", "u16", "i32", "u64", "f32", "i8"])
                b = r.choice([65536, 65536, 32768, 262144, 100000, 8192, 1 << 20])
                b = min(b, top)
                f.case(r, small=False, t=t, size=max(1, (b + r.choice([-8, 0, 0, 8, 16, b])) // TYPES[t]),
                       mix=r.random() < .5)
        return plan

    def solid(label, n, codecs):
        # more than the codecs take in one piece, and can make little of
        def plan(f):
            r = rng("C05", "solid", label, tier)
            for i in range(n):
                f.case(r, small=False, t=r.choice(["u8", "u8", "i8", "u16"]) if i else "u8",
                       codec=codecs[i % len(codecs)], size=r.randint(90000, 150000), mix=True)
        return plan

    def levels(f):
        # the remaining configurations
        r = rng("C05", "levels", tier)
        for codec, key, vals in (("xz", "preset", (2, 3, 4, 5, 7, 8, 9)), ("gzip", "level", (2, 3, 4, 6, 7, 8)),
                                 ("bzip2", "blockSize", (2, 3, 4, 6, 7, 8))):
            for v in vals:
                f.case(r, codec=codec, conf={key: v})
    for i in range(4):
        jobs.append((None if i < 3 else pure, ["mem", "fs", "bits", "mem"][i], every(i, i)))
    for i in range(many(tier, 2, 8)):
        jobs.append((None, ["mem", "fs", "bits"][i % 3], small("s%d" % i, many(tier, 250, 1500))))
    for i in range(many(tier, 2, 12)):
        jobs.append((None if i % 3 else pure, "fs" if i % 2 else "mem",
                     large(i, many(tier, 6, 12), many(tier, 70000, 300000))))
    for i, codecs in enumerate((["gzip", "raw"], ["bzip2"], ["xz"], ["lz4"])):
        jobs.append((None, "fs" if i % 2 else "mem", solid(i, many(tier, len(codecs), 12), codecs)))
    jobs.append((pure, "mem", solid("pure", many(tier, 2, 12), ["gzip", "lz4"])))
    jobs.append((None, "fs", levels))
    jobs.append((pure, "mem", small("pure", many(tier, 60, 1500), codec="lz4")))
    jobs.append((pure, "mem", small("pure2", many(tier, 10, 100), codec="lz4", size=65536, t="u8",
                                         small=False)))
    found, errors, lock = [], [], threading.Lock()
    todo = list(jobs)

    def work():
        while True:
            with lock:
                if not todo or errors:
                    return
                feature, kind, plan = todo.pop()
            try:
                fmt_batch(rep, feature, kind, plan, found, lock)
            except HarnessDied as e:
                with lock:
                    found.append(([e.op], feature, e))
            except Exception as e:
                with lock:
                    errors.append(e)
    ts = [threading.Thread(target=work) for _ in range(7)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    for ops, feature, e in found:
        rep.violation("stored chunk is not its declared encoding, or read as something else: %s" % (
            e if isinstance(e, HarnessDied) else json.dumps(e.event)[:800]),
            {"ops": ops, "feature": feature})


# --- C06, C07 -------------------------------------------------------------------

GZIP = "https://purl.org/zarr/spec/codec/gzip/1.0"
PARAM = {"bzip2": "blockSize", GZIP: "level", "lz4": "blockSize", "xz": "preset"}
CORE = ["bool", "i1", "u1"] + [o + k for o in "<>" for k in
                               ("i2", "i4", "i8", "u2", "u4", "u8", "f2", "f4", "f8")]
OPAQUE = ("/fill_value",)


def text(v):
    """Any value as text; equal values have equal texts."""
    def num(x):
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return x
        if isinstance(x, float):
            return {"#": repr(x)}
        if isinstance(x, int):
            return x if -2**63 <= x < 2**64 else {"#": repr(float(x))}
        if isinstance(x, list):
            return [num(y) for y in x]
        return {k: num(y) for k, y in x.items()}
    return canon(num(v))


def leaves(v, p=""):
    parts = p.split("/")
    if p in OPAQUE or (parts[1:2] == ["attributes"] and len(parts) > 2) or \
            (parts[1:2] == ["extensions"] and len(parts) == 4 and parts[3] == "configuration"):
        if parts[1:2] == ["extensions"] and not isinstance(v, dict):
            return [[p, "null" if v is None else "other", text(v)]]
        return [[p, "json", text(v)]]
    if isinstance(v, dict):
        out = [[p, "obj", str(len(v))]]
        for k in v:
            if p == "/attributes":
                out.append([p + "/" + k, "json", text(v[k])])
            else:
                out += leaves(v[k], p + "/" + k)
        return out
    if isinstance(v, list):
        out = [[p, "arr", str(len(v))]]
        for i, x in enumerate(v):
            out += leaves(x, "%s/%d" % (p, i))
        return out
    if isinstance(v, bool):
        return [[p, "bool", str(v).lower()]]
    if v is None:
        return [[p, "null", ""]]
    if isinstance(v, int):
        k = "n32" if 0 <= v < 2**32 else "n64" if 0 <= v < 2**64 else \
            "int" if -2**31 <= v < 0 else "num"
        return [[p, k, str(v)]]
    if isinstance(v, float):
        return [[p, "num", repr(v)]]
    return [[p, "str", v]]


def seen(view):
    """The harness's view, with texts for opaque values."""
    ser = view["ser"]
    conf = ""
    c = ser.get("compressor")
    names = {"Raw": "raw", "Bzip2": "bzip2", "Gzip": GZIP, "Lz4": "lz4", "Xz": "xz"}
    codec = names.get(view["codec"], view["codec"])
    if codec in PARAM:
        conf = str(((c or {}).get("configuration") or {}).get(PARAM[codec]))
    ext = [[e.get("extension"), text(e["configuration"]) if "configuration" in e else "none"]
           for e in ser.get("extensions", [])]
    return {"shape": view["shape"], "chunk": view["chunk"], "ndim": view["ndim"],
            "sep": ser["chunk_grid"]["separator"], "dt": view["dt"], "ext": view["ext"],
            "layout": view["layout"], "codec": codec, "conf": conf, "fill": text(view["fill"]),
            "attrs": [[k, text(v)] for k, v in ser["attributes"].items()], "exts": ext}


NOVIEW = {"shape": [], "chunk": [], "ndim": 0, "sep": "", "dt": "", "ext": [], "layout": "",
          "codec": "", "conf": "", "fill": "", "attrs": [], "exts": []}


def rand_value(r, depth=3):
    x = r.random()
    if depth and x < .2:
        return {r.choice(["a", "b", "", "x/y", "\u00e9", "q\"", "0"]): rand_value(r, depth - 1)
                for _ in range(r.randrange(4))}
    if depth and x < .35:
        return [rand_value(r, depth - 1) for _ in range(r.randrange(4))]
    return r.choice([None, True, False, 0, 1, -1, r.getrandbits(63), -r.getrandbits(62), 2**64 - 1,
                     -2**63, 0.5, -1.25, 1e10, 0.1, 1.0, -0.0, 1024.0625, "", "NaN",
                     "\u00e9\u4e2d\U0001f600\u0001", "quote\"back\\slash\n", "Infinity", "\u2028"])


def rand_dtype(r):
    x = r.random()
    core = lambda: r.choice(CORE) if r.random() < .8 else "r%d" % (8 * r.choice([1, 2, 3, 12, 100, 1000]))
    if x < .8:
        return core()
    d = {"extension": r.choice(["https://purl.org/zarr/spec/protocol/extensions/datetime-dtypes/1.0",
                                "e", "", "\u00e9"]), "type": r.choice(["<M8[ns]", "<f8", "", "x" * 50])}
    if r.random() < .7:
        d["fallback"] = core()
    return d


def rand_doc(r, default=False):
    nd = r.choice([0, 1, 1, 2, 2, 3, 7])
    shape = [r.choice([0, 1, 2, 10, 1000, 2**31, 2**32, 2**53 + 1, 2**63, 2**64 - 1, r.getrandbits(40)])
             for _ in range(nd)]
    cs = [r.choice([1, 2, 3, 16, 64, 100]) if nd < 4 else r.choice([1, 2, 3]) for _ in range(nd)]
    if nd == 1 and r.random() < .3:
        cs = [r.choice([2**32 - 1, 2**31, 65536])]
    while True:
        n = 1
        for c in cs:
            n *= c
        if n < 2**32:
            break
        cs = [max(1, c // 2) for c in cs]
    doc = {"shape": shape, "data_type": rand_dtype(r),
           "chunk_grid": {"type": "regular", "chunk_shape": cs,
                          "separator": "/" if default else r.choice(["/", ".", "-", "", "\u00e9", "//"])},
           "chunk_memory_layout": "F" if default else r.choice("CF"),
           "fill_value": None if default else rand_value(r),
           "extensions": [], "attributes": {}}
    codec = r.choice(["raw"] + list(PARAM))
    if codec != "raw":
        conf = {GZIP: r.choice([-1, 0, 1, 9, 100, -2**31, 2**31 - 1]), "bzip2": r.choice([0, 1, 9, 255]),
                "lz4": r.choice([0, -1, 65536, 2**22, 2**31 - 1]), "xz": r.choice([0, 6, 9, -1, 12])}[codec]
        if default:
            conf = {GZIP: conf, "bzip2": 9, "lz4": 65536, "xz": 6}[codec]
        doc["compressor"] = {"codec": codec, "configuration": {PARAM[codec]: conf}}
    if not default:
        for _ in range(r.choice([0, 0, 1, 2])):
            e = {"extension": r.choice(["http://example.org/e", "x", "\u00e9", ""]), "must_understand": False}
            if r.random() < .6:
                e["configuration"] = {k: rand_value(r) for k in r.sample(["a", "foo", ""], r.randrange(3))}
            doc["extensions"].append(e)
        for _ in range(r.choice([0, 1, 2, 3])):
            doc["attributes"][r.choice(["a", "shape", "attributes", "x/y", "", "\u00e9", "k" * 40, "0"])] = rand_value(r)
    return doc


def describe(doc):
    """The description of a document, for Metadata!Leaves."""
    dt = doc["data_type"]
    kinds = lambda s: ["n32" if x < 2**32 else "n64" for x in s]
    c = doc.get("compressor")
    codec = c["codec"] if c else "raw"
    conf = c["configuration"][PARAM[codec]] if c else ""
    return {"shape": [str(x) for x in doc["shape"]], "shapekind": kinds(doc["shape"]),
            "chunk": [str(x) for x in doc["chunk_grid"]["chunk_shape"]],
            "sep": doc["chunk_grid"]["separator"], "dt": dt if isinstance(dt, str) else "",
            "ext": [] if isinstance(dt, str) else [dt["extension"], dt["type"]] +
            ([dt["fallback"]] if "fallback" in dt else []),
            "layout": doc["chunk_memory_layout"], "codec": codec, "conf": str(conf),
            "confkind": "int" if c and conf < 0 else "n32", "fill": text(doc["fill_value"]),
            "attrs": [[k, text(v)] for k, v in doc["attributes"].items()],
            "exts": [[e["extension"], text(e["configuration"]) if "configuration" in e else "none"]
                     for e in doc["extensions"]]}


def keyname(path, kind="array", suffix=".json"):
    return "meta/root/%s.%s%s" % (path, kind, suffix)


def meta_create(doc, kind, k, new=False):
    path = "a%d" % k
    if new:
        d = doc["data_type"]
        c = doc.get("compressor")
        name = c["codec"] if c else "raw"
        op = {"op": "defmeta", "m": 1, "new": {
            "shape": [str(x) for x in doc["shape"]], "chunk_shape": doc["chunk_grid"]["chunk_shape"],
            "data_type": d, "codec": "gzip" if name == GZIP else name,
            "conf": c["configuration"] if c else {}}}
    else:
        op = {"op": "defmeta", "m": 1, "doc": doc}
    ops = kind(k) + [op, {"op": "create_array", "path": "/" + path, "m": 1},
                     {"op": "value", "key": keyname(path)},
                     {"op": "get_meta", "path": path, "into": 2, "h": 1},
                     {"op": "meta_eq", "m": 1, "m2": 2}, {"op": "view", "m": 2}]
    n = len(kind(k))

    def f(r):
        r = r[n:]
        e = {"op": "create", "ok": not failed(r), "d": describe(doc), "eq": False, "leaves": [],
             "view": NOVIEW}
        if e["ok"]:
            try:
                stored = json.loads(bytes.fromhex(r[2]["v"]["hex"]))
            except ValueError:
                return dict(e, ok=False)
            e.update(eq=r[4]["v"], leaves=leaves(stored), view=seen(r[5]["v"]))
        return e
    return ops, f


def meta_load(raw, kind, k, lv=None):
    """A document of other software; raw is its bytes."""
    path = "b%d" % k
    n = len(kind(k))
    ops = kind(k) + [{"op": "put_raw", "key": keyname(path), "hex": raw.hex()},
                     {"op": "get_meta", "path": path, "into": 2}, {"op": "view", "m": 2}]
    lv, isj = parse(raw)

    def f(r):
        r = r[n:]
        ok = r[1]["t"] == "ok"
        return {"op": "load", "json": isj, "leaves": lv, "res": r[1]["t"],
                "view": seen(r[2]["v"]) if ok else NOVIEW, "raw": repr(raw[:1500])}
    return ops, f


def parse(raw):
    try:
        v = json.loads(raw.decode("utf-8"), parse_constant=lambda c: 1 / 0)
        return leaves(v), True
    except Exception:
        return [], False


def spell(r, doc):
    """The text of a document as other software may write it."""
    def mix(v):
        if isinstance(v, dict):
            ks = list(v)
            r.shuffle(ks)
            return {k: mix(v[k]) for k in ks}
        return [mix(x) for x in v] if isinstance(v, list) else v
    return json.dumps(mix(doc), indent=r.choice([None, None, 1, 4]), ensure_ascii=r.random() < .5,
                      separators=r.choice([None, (",", ":"), (" , ", " : ")])).encode()


class FsKind:
    """A filesystem hierarchy, opened anew now and then, with two handles."""

    def __init__(self):
        self.d = fresh_dir("meta")

    def __call__(self, k):
        return [{"op": "open_or_create", "h": 0, "dir": self.d}, {"op": "open", "h": 1, "dir": self.d}]


def c06(rep, tier):
    import c_num
    c_num.floats(rep, tier, many(tier, 150, 1500), {"meta": 1})
    check_model(rep, "MCMetadata", many(tier, "MCMetadata.cfg", "MCMetadataDeep.cfg"))
    r = rng("C06", tier)
    items = []
    # histories are independent: each item opens its directory again
    kinds = [FsKind() for _ in range(12)]
    k = 0
    for dt in CORE + ["r8", "r16", "r24", "r32", "r128", "r8000"] + \
            [{"extension": "e", "type": "t", "fallback": c} for c in CORE + ["r24"]] + \
            [{"extension": "e", "type": "t"}]:
        for new in (True, False):
            k += 1
            doc = rand_doc(r, new)
            doc["data_type"] = dt
            items.append(meta_create(doc, kinds[k % 12], k, new))
    for _ in range(many(tier, 1500, 20000)):
        k += 1
        new = r.random() < .2
        items.append(meta_create(rand_doc(r, new), kinds[k % 12], k, new))
    for _ in range(many(tier, 1200, 15000)):
        k += 1
        doc = rand_doc(r)
        if r.random() < .2 and "compressor" in doc:
            doc["compressor"]["configuration"] = {}
        if r.random() < .2:
            del doc["fill_value"]
        if r.random() < .2:
            doc[r.choice(["unknown", "shap", "zz"])] = rand_value(r)
        items.append(meta_load(spell(r, doc), kinds[k % 12], k))
    table(rep, "MetadataTrace", items, procs=7)


def damage(r, doc):
    """A document with something wrong, or perhaps only unusual."""
    doc = json.loads(json.dumps(doc))
    x = r.random()
    vals = [None, True, 5, -1, 0, 1.5, "x", "", [], {}, [1], {"a": 1}, 2**64, 2**32, "5", [[]], ["C"],
            "C", "regular", 1e400 if False else 1e30]
    if x < .45:     # one member replaced, missing or added
        spots = [(doc, k) for k in doc]
        for sub in ("chunk_grid", "compressor", "data_type"):
            if isinstance(doc.get(sub), dict):
                spots += [(doc[sub], k) for k in doc[sub]] * 2
        if isinstance(doc.get("compressor"), dict):
            c = doc["compressor"]["configuration"]
            spots += [(c, k) for k in c]
        for e in doc["extensions"]:
            spots += [(e, k) for k in e]
        o, k = r.choice(spots)
        y = r.random()
        if y < .3:
            del o[k]
        else:
            o[k] = r.choice(vals)
    elif x < .55:
        s = r.choice([doc["shape"], doc["chunk_grid"]["chunk_shape"]])
        if s and r.random() < .7:
            s[r.randrange(len(s))] = r.choice([0, -1, 1.0, 2.5, "3", None, 2**32, 2**64, [], True, 0])
        elif r.random() < .5:
            s.append(1)
        elif s:
            s.pop()
    elif x < .7:
        t = bad_type(r)
        if isinstance(doc["data_type"], dict):
            doc["data_type"]["fallback"] = t
        else:
            doc["data_type"] = t
    elif x < .8:
        doc["compressor"] = {"codec": r.choice(["blosc", "gzip", "GZIP", "zstd", "", "Raw", "lz", "lz4 ",
                                                GZIP + "/", GZIP.replace("1.0", "2.0"), "raw", "xz"]),
                             "configuration": r.choice([{}, None, {"level": 1}, {"preset": "6"}])}
    elif x < .95:
        e = {"extension": "http://example.org/x", "must_understand": r.choice(
            [True, True, True, False, None, 1, "true"])}
        if r.random() < .3:
            e["configuration"] = r.choice([{}, None, 3, {"a": 1}])
        if r.random() < .1:
            del e[r.choice(list(e))]
        doc["extensions"].insert(r.randint(0, len(doc["extensions"])), e)
    else:
        return r.choice(vals)
    return doc


def bad_type(r):
    return r.choice(["i2", "u4", "f8", "<i3", "<f1", ">f16", "=i4", "|u1", "b1", "Bool", "boolean", "r7",
                     "r", "r-8", "r+8", "r8.0", "rr8", "<r8", "", " <i4", "<i4 ", "<I4", "i4<", "int32",
                     "<c8", "<U4", "\u00e94", "<\u00e9", "<i\u00e9", "\u00e9", "<i44", "r0x8", "r 8", "r8 ",
                     "<f8", "r16", "bool", "<i1", ">u1", "r08", "r0", "r99999999999999999999"])


def dtype_case(t):
    def f(rs):
        x = rs[0]
        ok = x["t"] == "ok"
        return {"op": "dtype", "text": t, "res": x["t"], "dt": x["v"]["dt"] if ok else "",
                "ser": x["v"]["ser"] if ok else ""}
    return [{"op": "dtype", "doc": t}], f


def attrs_load(raw, kind, k, node):
    path = "d%d" % k
    n = len(kind(k))
    ops = kind(k) + [{"op": "put_raw", "key": keyname(path, node), "hex": raw.hex()},
                     {"op": "list_attributes", "path": path}]
    v = None
    try:
        v = json.loads(raw.decode(), parse_constant=lambda c: 1 / 0)
        isj = True
    except Exception:
        isj = False
    kindof = lambda x: leaves(x, "/x")[0][1]
    obj = isinstance(v, dict)
    a = v.get("attributes") if obj else None
    want = [[q, text(y)] for q, y in a.items()] if isinstance(a, dict) else []

    def f(rs):
        x = rs[n + 1]
        return {"op": "attrs", "json": isj, "kind": kindof(v) if isj else "none",
                "akind": kindof(a) if obj and "attributes" in v else "none", "attrs": want,
                "res": x["t"], "raw": repr(raw[:600]),
                "got": [[q, text(y)] for q, y in x["v"].items()] if x["t"] == "ok" else []}
    return ops, f


def chunk_case(r, h):
    """A chunk's value damaged in some way, and what reading it gives."""
    t = r.choice(list(TYPES))
    codec = r.choice(["raw", "gzip", "bzip2", "lz4", "xz"])
    n = r.choice([1, 2, 10, 60, 300])
    big = r.random() < .5
    doc = array_doc([n], [n], dtype_str(t, big), codec, {} if codec != "raw" else None)
    w = TYPES[t]
    plain = bytes(r.choice([0, 1]) if t == "bool" else r.getrandbits(8) for _ in range(n * w))
    good = deflate(r, codec, plain, h, True)
    short = False
    x = r.random()
    if x < .35:
        v, short = good[:r.choice([r.randrange(len(good)), len(good) - r.randint(1, min(12, len(good)))])], True
    elif x < .5:
        cut = plain[:r.randrange(len(plain))]
        v, short = deflate(r, codec, cut, h), True
    elif x < .75 and codec != "raw":
        b = bytearray(good)
        for _ in range(r.choice([1, 1, 2, 5])):
            # not the header of lz4, which can say that there is no checksum
            b[r.randrange(7 if codec == "lz4" else 0, len(b))] ^= 1 << r.randrange(8)
        v = bytes(b)
    elif x < .85 and codec != "raw":
        v, short = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 4, 20, 100]))), True
    elif x < .9:
        v, short = b"", True
    elif codec != "raw":
        v, short = plain, True        # not encoded at all
        if codec == "raw" or len(plain) > 3 and plain[:2] in (b"\x1f\x8b", b"BZ"):
            return None
    else:
        return None
    buf = r.random() < .4
    at = {"h": 0, "m": 1, "path": "/q", "pos": [0]}
    ops = [{"op": "mem", "h": 0}, {"op": "defmeta", "m": 1, "doc": doc}, dict(at, op="put_chunk", hex=v.hex())]
    if buf:
        ops += [{"op": "buf_new", "b": 1, "T": t, "pos": [0], "data": []},
                dict(at, op="read_chunk_into", b=1, T=t, concat=True)]
    else:
        ops += [dict(at, op="read_chunk", T=t, concat=True)]
    want = b"".join(plain[i:i + w] if big else plain[i:i + w][::-1] for i in range(0, len(plain), w))

    def f(rs):
        y = rs[-1]
        return {"op": "chunk", "res": y["t"], "short": short, "codec": codec,
                "same": y["t"] == "ok" and y["v"]["some"] and y["v"]["data"] == want.hex()}
    return ops, f


def c07(rep, tier):
    check_model(rep, "MCMetadata", many(tier, "MCMetadata.cfg", "MCMetadataDeep.cfg"))
    r = rng("C07", tier)
    items = []
    # every string of up to three of these characters as a data type
    A = many(tier, "<>iufb1248r", "<>iufbr124 83-+\u00e9c|")
    for n in range(4):
        items += [dtype_case("".join(x)) for x in itertools.product(A, repeat=n)]
    items += [dtype_case(t) for t in CORE + ["r%d" % n for n in range(1, 400)] + ["bool ", "boo", "r00008"]]
    items += [dtype_case(bad_type(r)) for _ in range(50)]
    kinds = [FsKind() for _ in range(12)]
    k = 0
    for _ in range(many(tier, 2500, 30000)):
        k += 1
        raw = spell(r, damage(r, rand_doc(r)))
        items.append(meta_load(raw, kinds[k % 12], k))
    for _ in range(many(tier, 500, 8000)):
        k += 1
        raw = spell(r, rand_doc(r))
        x = r.random()
        if x < .6:
            raw = raw[:r.randrange(len(raw))]
        elif x < .8:
            raw += r.choice([b"{}", b"x", b",", b"\0", b"]", b" null"])
        else:
            b = bytearray(raw)
            i = r.randrange(len(b))
            b[i:i + 1] = r.choice([b"", b"\xff", b"\xc3", b"\"", b"{", b"\\"])
            raw = bytes(b)
            if parse(raw)[1]:
                continue
        items.append(meta_load(raw, kinds[k % 12], k))
        if r.random() < .5:
            items.append(attrs_load(raw, kinds[k % 12], k, r.choice(["array", "group"])))
    for _ in range(many(tier, 300, 3000)):
        k += 1
        v = {"extensions": [], "attributes": {r.choice("abc"): rand_value(r) for _ in range(r.randrange(3))}}
        if r.random() < .5:
            v["attributes"] = rand_value(r)
        if r.random() < .1:
            del v["attributes"]
        if r.random() < .15:
            v = rand_value(r)
        items.append(attrs_load(spell(r, v), kinds[k % 12], k, r.choice(["array", "group"])))
    table(rep, "MetadataTrace", items, procs=6)
    for feature in (None, alternative(rep, "pure")):
        h = Harness(feature)
        try:
            cases = [chunk_case(r, h) for _ in range(many(tier, 700, 8000) if not feature else
                                                     many(tier, 400, 4000))]
        finally:
            h.close()
        table(rep, "MetadataTrace", [c for c in cases if c], procs=4, feature=feature)


CHECKS = {"C04": c04, "C05": c05, "C06": c06, "C07": c07}
