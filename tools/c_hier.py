"""Checks decided by Hierarchy: recorded histories validated against it, and
its exhaustive configurations replayed in the library."""
from replay import *


def run_batches(rep, make, n, procs=4, env=None, module="HierarchyTrace", world=None, label=""):
    """Validate n histories; make(w, r, i) plans the i-th one on world w."""
    build()
    errors, lock = [], threading.Lock()
    found = []

    def batch(b):
        ids = range(b, n, procs)
        w = None
        try:
            w = world() if world else World("w")
            chunk = []
            for k, i in enumerate(ids):
                w.reset()
                make(w, rng(rep.prop, label, i), i)
                if k % 40 == 39:
                    w.flush()
            w.flush()
            with lock:
                start = len(w.events)
            v = VReport()
            try:
                validate(v, module, w.events, count=w.traces,
                         env=dict({"SUFFIX": w.suffix, "STORE": w.kind}, **(env or {})))
            except Rejected as e:
                with lock:
                    found.append((w, e))
            with lock:
                rep.states += v.states
                rep.transitions += v.transitions
                rep.traces += v.traces
                rep.events += v.events
                for e in w.events[1:3]:
                    rep.sample({"recorded": e})
        except HarnessDied as e:
            with lock:
                found.append((w, e))
        except Rejected as e:
            with lock:
                found.append((w, e))
        except Exception as e:
            with lock:
                errors.append(e)
        finally:
            if w:
                w.h.close()
    ts = [threading.Thread(target=batch, args=(b,)) for b in range(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    for w, e in found:
        report_rejection(rep, w, e)


class VReport:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0


def report_rejection(rep, w, e):
    if isinstance(e, HarnessDied):
        rep.violation("the process died: %s" % e, {"ops": getattr(e, "ops", [e.op])[-400:]})
        return
    if not e.line:
        rep.violation(str(e), {"ops": w.ops[-50:]})
        return
    # the history the rejected event belongs to
    i = e.line - 1
    j = i
    while j > 0 and w.events[j]["op"] != "reset":
        j -= 1
    ops = w.ops[(w.oplog[j] - 1):w.oplog[i]]
    rep.violation("call %s is not a behaviour of the specification; allowed: %s" % (
        json.dumps(w.events[i])[:700], e.said[-700:]),
        {"event": w.events[i], "events": w.events[j:i + 1], "ops": ops})


def hist_maker(weights, n, final="dump", **kw):
    def make(w, r, i):
        mf = kw.get("meta_fn")
        h = Hist(w, r, meta_fn=(lambda: mf(r)) if mf else None, names=kw.get("names") and
                 kw["names"](r), depth=kw.get("depth", 3))
        if kw.get("begin"):
            kw["begin"](h)
        h.run(n, weights)
        if final:
            h.step(final)
    return make


def many(tier, quick, thorough):
    return quick if tier == "quick" else thorough


# --- C01 ----------------------------------------------------------------------

def big_positions(h):
    """Chunk calls at grid positions up to the largest there are."""
    w, r = h.w, h.r
    t = r.choice(list(TYPES))
    nd = r.randint(1, 3)
    m = Meta(t, r.random() < 0.5, [2**64 - 1] * nd, [1] * nd, "raw", None, "C",
             r.choice(["/", ".", "-"]))
    m.n = 1
    p = tuple(r.sample(NAMES, 2))
    w.create_array(r, p, m)
    q = tuple(r.sample(NAMES, 1))
    vals = [0, 1, 10, 11, 101, 110, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63, 2**64 - 2,
            1844674407370955161, 999999999999, 100000000000]
    for _ in range(30):
        pos = [r.choice(vals) for _ in range(nd)]
        x = r.random()
        s = StrPos(w)
        if x < 0.45:
            s.write(r, p, pos, m)
        elif x < 0.9:
            s.read(r, p, pos, m)
        else:
            s.delete(r, p, pos, m)
    w.keys()


class StrPos:
    """Calls whose positions are recorded as decimal strings."""

    def __init__(self, w):
        self.w = w

    def write(self, r, p, pos, m):
        d = [elem(r, m.t)]
        self.w.call({"op": "write_chunk", "path": self.w.spell(r, p), "m": m.id, "T": m.t,
                     "pos": [str(x) for x in pos], "data": d},
                    {"op": "write_chunk", "path": list(p), "pos": [str(x) for x in pos],
                     "data": d, "sep": m.sep, "good": True}, h=self.w.hd(r))

    def read(self, r, p, pos, m):
        def conv(v):
            c = World.chunk_conv(v)
            c["pos"] = [str(x) for x in c["pos"]]
            return c
        self.w.call({"op": "read_chunk", "path": self.w.spell(r, p), "m": m.id, "T": m.t,
                     "pos": [str(x) for x in pos]},
                    {"op": "read_chunk", "path": list(p), "pos": [str(x) for x in pos],
                     "good": True}, conv, h=self.w.hd(r))

    def delete(self, r, p, pos, m):
        self.w.call({"op": "delete_chunk", "path": self.w.spell(r, p), "m": m.id,
                     "pos": [str(x) for x in pos]},
                    {"op": "delete_chunk", "path": list(p), "pos": [str(x) for x in pos]},
                    h=self.w.hd(r))


def long_chunks(rep, n, **kw):
    """Chunks of up to some 100,000 elements, every element type and codec in turn."""
    types, codecs = list(TYPES) + list(RAWS), list(CODECS)

    def make(w, r, i):
        if i < 2 * len(codecs):     # bytes are written in one piece
            big_chunks(w, r, t="u8" if i < len(codecs) else "i8", codec=codecs[i % len(codecs)], calls=4,
                       size=r.choice([65537, 100003, 131072, 131073, 200000, 262145]))
            return
        big_chunks(w, r, t=types[i % len(types)], codec=codecs[i % len(codecs)],
                   size=None if i % 3 else r.choice(SIZES[-6:]))
    run_batches(rep, make, n, label="long", procs=6, **kw)


# every configuration that the codecs' own tools offer
LEVELS = [("gzip", {"level": i}) for i in range(10)] + [("bzip2", {"blockSize": i}) for i in range(1, 10)] + \
    [("xz", {"preset": i}) for i in range(10)] + \
    [("lz4", {"blockSize": i}) for i in (1, 65536, 65537, 262144, 1 << 20, 1 << 22, (1 << 31) - 1)]


def c01(rep, tier):
    W = {"array": 4, "write": 14, "read": 14, "delete": 3, "readinto": 4, "remove": 0.7,
         "group": 0.5, "badread": 0.0, "reopen": 0.7, "dump": 0.4, "leftover": .5}
    replay_model(rep, "chunks", only=lambda t: t["op"]["op"] in (
        "write_chunk", "read_chunk", "delete_chunk", "remove", "read_chunk_into")
        and t["op"].get("good", True))
    run_batches(rep, hist_maker(W, 70, meta_fn=lambda r: rand_meta(r, raw_ok=True)),
                many(tier, 400, 6000), label="mix")
    run_batches(rep, lambda w, r, i: big_positions(Hist(w, r)), many(tier, 60, 800), label="big")
    long_chunks(rep, many(tier, 100, 2500))
    run_batches(rep, lambda w, r, i: big_chunks(
        w, r, codec=LEVELS[i % len(LEVELS)][0], conf=LEVELS[i % len(LEVELS)][1], calls=4,
        size=r.choice([1, 100, 5000])), many(tier, len(LEVELS), 400), label="levels", procs=4)
    if tier == "thorough":
        for codec in ("gzip", "lz4", "xz", "bzip2"):
            replay_model(rep, "chunks", codec=codec, conf=CODECS[codec][1],
                         only=lambda t: "chunk" in t["op"]["op"])


def shapes(rep, tier, **kw):
    """Hierarchies of many nodes in one group, or of many levels."""
    run_batches(rep, lambda w, r, i: wide(w, r, r.choice([40, 90, 150] if i % 4 else [300])),
                many(tier, 8, 80), procs=4, label="wide", **kw)
    run_batches(rep, lambda w, r, i: deep(w, r, r.choice([12, 25, 40])), many(tier, 16, 200), procs=2,
                label="deep", **kw)


# --- C02 ----------------------------------------------------------------------

def c02(rep, tier):
    W = {"array": 4, "group": 4, "set": 1, "write": 8, "read": 1, "delete": 3, "remove": 1.5,
         "wregion": 2, "keys": 12, "listing": 8, "uri": 4, "exists": 1, "list": 1, "reopen": 0.5,
         "leftover": 1}
    replay_model(rep, "nodes", only=lambda t: t["op"]["op"] not in ("list_attributes", "get_meta"))
    run_batches(rep, hist_maker(W, 60, final="keys"), many(tier, 300, 5000), label="mix")
    run_batches(rep, hist_maker(dict(W, uri=0), 60, final="keys"), many(tier, 100, 1500), procs=2,
                world=lambda: World("w", kind="mem", suffix=".zmeta"), label="mem")
    run_batches(rep, hist_maker(W, 60, final="keys"), many(tier, 60, 800), procs=2,
                world=lambda: World("w", suffix=".meta.js"), label="suffix")
    run_batches(rep, lambda w, r, i: big_positions(Hist(w, r)), many(tier, 40, 400), label="big")


# --- C03 ----------------------------------------------------------------------

def c03(rep, tier):
    W = {"array": 3, "write": 3, "wregion": 10, "exact": 3, "rregion": 10, "full": 3, "delete": 1,
         "read": 1, "dump": 0.5, "far": 1, "view": 2}
    replay_model(rep, "region0", procs=1)
    replay_model(rep, "region1", only=lambda t: "region" in t["op"]["op"])
    replay_model(rep, "region2f", only=lambda t: "region" in t["op"]["op"])
    if tier == "thorough":
        replay_model(rep, "region2c", only=lambda t: "region" in t["op"]["op"])
        replay_model(rep, "region1b", only=lambda t: "region" in t["op"]["op"])
    run_batches(rep, hist_maker(W, 50), many(tier, 500, 6000), procs=6, label="mix")


# --- C08 ----------------------------------------------------------------------

def foreign_docs(h):
    """Documents with members the library does not know."""
    w, r = h.w, h.r
    for _ in range(r.randint(1, 3)):
        p = h.fresh()
        if p is None or p in h.kinds or p == ():
            continue
        if any(h.kinds.get(p[:i]) == "a" for i in range(len(p))):
            continue
        extra = {r.choice(["zz", "note", "x"]): rand_json(r) for _ in range(r.randint(0, 2))}
        doc = {"extensions": [], "attributes": rand_attrs(r)}
        doc.update(extra)
        if r.random() < 0.25:
            del doc["attributes"]
        w.foreign(r, p, "group", doc)
        h.kinds[p] = "g"


def c08(rep, tier):
    import c_num
    c_num.floats(rep, tier, many(tier, 150, 1500), {"set": 5, "list": 5, "meta": 1})
    W = {"set": 12, "attrs": 10, "meta": 3, "group": 3, "array": 3, "write": 2, "read": 2,
         "dump": 3, "remove": 0.4, "reopen": 0.7, "foreign": 2}
    replay_model(rep, "attrs", only=lambda t: t["op"]["op"] in ("set_attributes", "list_attributes", "get_meta"))
    run_batches(rep, hist_maker(W, 60, meta_fn=lambda r: rand_meta(r, attrs=rand_attrs(r))),
                many(tier, 400, 6000), label="mix")


# --- C09 ----------------------------------------------------------------------

def probe_c09(w, r, i):
    """The known finding: a path whose name is another node's document's."""
    w.create_array(r, ("foo",), rand_meta(r))
    w.call({"op": "exists", "path": "/foo.array.json"},
           {"op": "exists", "path": ["foo.array.json"]})


def c09(rep, tier):
    W = {"group": 10, "array": 8, "exists": 8, "aexists": 8, "meta": 6, "attrs": 5, "set": 2,
         "remove": 2, "write": 1, "reopen": 0.7, "dump": 1}
    names = lambda r: some_names(r, 3)
    replay_model(rep, "nodes", only=lambda t: t["op"]["op"] not in ("list_nodes", "read_chunk"))
    run_batches(rep, hist_maker(W, 60, names=names), many(tier, 400, 6000), label="mix")
    w = World("w")
    try:
        w.reset()
        probe_c09(w, rng("C09probe"), 0)
        w.flush()
        try:
            validate(rep, "HierarchyTrace", w.events, env={"SUFFIX": ".json", "STORE": "fs"})
        except Rejected as e:
            rep.violation("exists is true of a path whose name is the document key of another node: %s"
                          % json.dumps(e.event), {"tag": "exists-document-key", "ops": w.ops})
    finally:
        w.h.close()


# --- C10 ----------------------------------------------------------------------

SIBLINGS = ["a", "ab", "a.b", "abc", "a-", "b", "a.array", "a.group"]


def c10(rep, tier):
    W = {"group": 6, "array": 6, "write": 6, "remove": 5, "exists": 4, "list": 4, "read": 4,
         "attrs": 2, "meta": 1, "dump": 4, "delete": 1, "reopen": 0.3, "leftover": 1, "link": .5}
    names = lambda r: some_names(r, 4, SIBLINGS)
    replay_model(rep, "nodes")
    run_batches(rep, hist_maker(W, 60, names=names, depth=4), many(tier, 400, 6000), label="mix")
    shapes(rep, tier)


# --- C11 ----------------------------------------------------------------------

LISTNAMES = ["a", "ab", "a.b", "x.array", "y.group", "a.array", "z.json", "l" * 120, "\u00e9\u4e2d",
             "with space", "dot.dot.dot", "a.", "-", "0", "c0", "root", "group", "array", "json",
             ".hid", "a.json", "arrays", "a.arrayx"]


def c11(rep, tier):
    W = {"group": 8, "array": 5, "list": 16, "remove": 2, "write": 2, "delete": 0.5, "wregion": 0.5,
         "reopen": 0.3, "decoy": 1}
    names = lambda r: some_names(r, 5, LISTNAMES)
    replay_model(rep, "nodes", only=lambda t: t["op"]["op"] not in ("list_attributes", "get_meta"))
    run_batches(rep, hist_maker(W, 60, names=names, depth=4), many(tier, 400, 6000), label="mix")
    shapes(rep, tier)
    run_batches(rep, hist_maker(W, 60, names=names, depth=4), many(tier, 60, 800), procs=2,
                world=lambda: World("w", kind="mem", mem={"slash": True}), label="mem")
    if tier == "thorough":
        shapes(rep, tier, world=lambda: World("w", kind="mem"))


# --- C13 ----------------------------------------------------------------------

def c13(rep, tier):
    W = {"array": 5, "group": 3, "write": 6, "badwrite": 8, "badread": 4, "badregion": 6,
         "badnode": 5, "badmeta": 3, "badfill": 5, "list": 1, "read": 2, "wregion": 1, "dump": 0}

    def make(w, r, i):
        h = Hist(w, r)
        names, ws = zip(*W.items())
        for name in r.choices(names, ws, k=45):
            h.step(name)
            if name.startswith("bad"):
                h.step("dump")
        h.step("dump")
    replay_model(rep, "chunks", only=lambda t: not t["op"].get("good", True))
    replay_model(rep, "nodes", only=lambda t: t["res"]["t"] == "err")
    run_batches(rep, make, many(tier, 300, 5000), label="mix")
    run_batches(rep, make, many(tier, 60, 800), procs=2, label="mem",
                world=lambda: World("w", kind="mem", mem={"eager": True}))


# --- C20 ----------------------------------------------------------------------

def c20(rep, tier):
    W = {"array": 4, "write": 8, "readinto": 14, "read": 3, "rregion": 12, "delete": 2,
         "wregion": 2, "remove": 0.3}
    replay_model(rep, "chunks", only=lambda t: t["op"]["op"] in ("read_chunk_into", "buf_new", "buf_like", "buf_size"))
    run_batches(rep, hist_maker(W, 60), many(tier, 500, 6000), procs=6, label="mix")
    long_chunks(rep, many(tier, 48, 1000))


# --- C22 ----------------------------------------------------------------------

ALL = {"group": 5, "array": 5, "set": 3, "attrs": 3, "exists": 3, "aexists": 2, "meta": 3,
       "list": 5, "remove": 1, "write": 5, "read": 5, "delete": 1, "readinto": 2, "wregion": 3,
       "rregion": 3, "full": 1, "badwrite": 1, "badread": 1, "dump": 1.5, "listing": 2}


def c22(rep, tier):
    variants = [
        dict(kind="mem"), dict(kind="mem", mem={"piece": 1}), dict(kind="mem", mem={"slash": True}),
        dict(kind="mem", mem={"eager": True, "piece": 3}),
        dict(kind="mem", suffix=".zmeta"), dict(kind="mem", suffix="json"),
        dict(kind="mem", suffix=".meta.json", mem={"slash": True}),
        dict(kind="mem", suffix=".j", mem={"piece": 7}),
        dict(kind="fs", suffix=".zmeta"), dict(kind="fs", suffix=".a.b.c"), dict(kind="fs", suffix="json"),
        dict(kind="fs", suffix=".JSON"),
    ]
    names = lambda r: some_names(r, 5, NAMES + LISTNAMES[:8])
    todo = list(variants)
    lock = threading.Lock()
    build()

    errs = []

    def work():
        while True:
            with lock:
                if not todo or errs:
                    return
                v = todo.pop()
            sfx = v.get("suffix", ".json")
            try:
                run_batches(rep, hist_maker(ALL, 60, names=names), many(tier, 40, 600), procs=1,
                            world=lambda: World("w", **v), label=canon(v),
                            env={"SUFFIX": sfx if sfx[0] == "." else "." + sfx})
            except Exception as e:
                errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    long_chunks(rep, many(tier, 48, 1000), world=lambda: World("w", kind="mem", mem={"piece": 5000}))
    replay_model(rep, "nodes", kind="mem", mem={"slash": True})
    replay_model(rep, "nodes", kind="mem", suffix=".zmeta", mem={"piece": 2})
    replay_model(rep, "chunks", kind="mem", mem={"piece": 1}, maxlen=many(tier, 5, 20))
    if tier == "thorough":
        replay_model(rep, "region1", kind="mem", mem={"eager": True})
        replay_model(rep, "attrs", kind="mem")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C08": c08, "C09": c09, "C10": c10, "C11": c11,
          "C13": c13, "C20": c20, "C22": c22}
