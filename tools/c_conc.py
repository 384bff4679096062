"""Checks decided by Concurrent: schedules of calls explored on the library,
every history accepted or rejected by TLC."""
from conc import *
from hist import big_data, rand_fill, fill_hex, rand_meta, rand_attrs


def pick(tier, quick, thorough):
    return quick if tier == "quick" else thorough


A, B_ = ("a",), ("b",)


def conc(*profiles):
    """Configurations of Concurrent, with and without the known deviations."""
    return [("MCConcurrent", "MCConcurrent_%s.cfg" % p, e) for p in profiles for e in ({}, {"STRICT": "1"})]


def fs(*cfgs):
    return [("MCFsStore", "MCFsStore%s.cfg" % c, {}) for c in cfgs]


def wrong(cfg, *variants):
    return [("MCFsStore", "MCFsStore%s.cfg" % cfg, {"VARIANT": v} if v else {"STRICT": "1"}) for v in variants]


def array_of(s, r, kind, path=A, cells=2, sep="/", shape=2):
    """Array metadata for a scene: kind is codec and length of chunks."""
    codec, n = kind
    t = r.choice([t for t in TYPES if t != "bool" and (n < 100 or TYPES[t] >= 4)])
    n = n if n < 100 else n // TYPES[t]
    f = rand_fill(r, t)
    conf = {"preset": r.choice([0, 1])} if codec == "xz" else r.choice(CODECS[codec])
    m = Meta(t, r.random() < .5, [n * shape], [n], codec, conf, r.choice("CF"), sep,
             f, fill_hex(t, f))
    return m


def values(r, m, k):
    """k different chunk contents."""
    out = []
    while len(out) < k:
        d = big_data(r, m.t, m.n) if m.n > 64 else [elem(r, m.t) for _ in range(m.n)]
        if d not in out:
            out.append(d)
    return out


KINDS = [("raw", 2), ("raw", 18000), ("gzip", 3), ("gzip", 12000), ("lz4", 4), ("lz4", 17000),
         ("bzip2", 5), ("xz", 6), ("xz", 12000), ("bzip2", 12000)]

# W write, V write, R read, I read into, D delete, G read the cells, H write the cells, X remove the array
SHAPES = [["W", "R"], ["W", "RR"], ["W", "V", "R"], ["W", "D", "R"], ["W", "I"], ["D", "R"], ["D", "I"],
          ["W", "D", "RR"], ["W", "V"], ["W", "D"], ["D", "D"], ["WD", "RR"], ["WV", "RRR"], ["DW", "RR"],
          ["W", "R", "R"], ["DW", "V", "R"], ["D", "W", "V"], ["W", "G"], ["H", "R"], ["H", "G"],
          ["X", "R"], ["X", "I", "R"], ["WD", "V", "IR"], ["W", "V", "D", "R"], ["DWD", "VR"],
          ["WVW", "RI"], ["D", "WR"], ["WR", "VR"], ["WR", "D"], ["X", "D"], ["X", "X"]]


def value_scene(r, kind, shape, present, procs, tier, piece=0):
    s = Scene("%s %s %s%s" % ("|".join(shape), kind, "present" if present else "absent",
                              " processes" if procs else ""), r)
    m = array_of(s, r, kind)
    s.w.metas[A] = m
    s.setup(s.w.create_array, A, m)
    vs = values(r, m, 1 + sum(len(x) for x in shape))
    if present:
        s.setup(s.w.write_chunk, A, [1], data=vs[0])
    vs = vs[1:]
    small = m.n <= 64
    for k, x in enumerate(shape):
        calls = []
        for c in x:
            if c in "GH" and not small:
                c = "R" if c == "G" else "W"
            if c in "WV":
                calls.append(s.write_chunk(A, [1], meta=m, data=vs.pop()))
            elif c == "R":
                calls.append(s.read_chunk(A, [1], meta=m))
            elif c == "I":
                b = "b%d" % k
                calls.append(lambda b=b: s.w.new_buf(r, b, m.t, [0], [elem(r, m.t)]))
                calls.append(lambda b=b: s.w.read_into(r, A, [1], b, meta=m))
            elif c == "D":
                calls.append(s.delete_chunk(A, [1], meta=m))
            elif c == "G":
                calls.append(s.read_region(A, [m.n - 1], [m.n], meta=m))
            elif c == "H":
                calls.append(s.write_region(A, [m.n], [m.n], meta=m, data=vs.pop()))
            elif c == "X":
                calls.append(s.remove(A))
        s.script(*calls)
    s.after(s.read_chunk(A, [1], meta=m), s.read_chunk(A, [0], meta=m), s.list_nodes(()), s.probe())
    s.opts = dict(bound=2, max=pick(tier, 220, 3000), random=pick(tier, 60, 1000), procs=procs, piece=piece)
    return s


def c15(rep, tier):
    r = rng("C15")
    check_models(rep, conc("values") + fs("Race", "Two") if tier == "quick" else
                 conc("values", "valuesDeep", "several") + fs("Race", "Two", "", "Deep", "Live"),
                 wrong("Race", "truncate-open", "no-writer-lock") if tier == "quick" else
                 wrong("Race", "", "truncate-open", "no-writer-lock", "shared-writer-lock", "unlock-early",
                       "no-reader-lock"))
    scenes = []
    for i, shape in enumerate(SHAPES):
        for present in (True, False):
            if not present and not any(c in x for x in shape for c in "WVH"):
                continue
            ks = KINDS if tier == "thorough" else [KINDS[0], KINDS[(3 * i + present) % len(KINDS)]]
            for j, kind in enumerate(ks):
                procs = (i + j + present) % 2 == 1
                piece = 0 if kind[1] < 100 else r.choice([0, 0, 3000, 5000])
                scenes.append(value_scene(r, kind, shape, present, procs, tier, piece))
                if tier == "thorough":
                    scenes.append(value_scene(r, kind, shape, present, not procs, tier, piece))
    judge(rep, scenes)


# --- C16 ----------------------------------------------------------------------

def lock_scene(r, what, ex, op, procs, tier, two=False):
    """Somebody holds a lock while calls want the value."""
    s = Scene("%s lock on %s, %s%s" % ("exclusive" if ex else "shared", what, op, " processes" if procs else ""), r)
    kind = r.choice([("raw", 2), ("gzip", 3), ("lz4", 2), ("raw", 9000)])
    m = array_of(s, r, kind, sep=r.choice("/.-"))
    s.w.metas[A] = m
    attrs = {"k": 1}
    s.setup(s.w.create_array, A, m)
    s.setup(s.w.create_group, B_)
    s.setup(s.w.set_attributes, B_, attrs)
    s.setup(s.w.write_chunk, A, [1], data=values(r, m, 1)[0])
    key = {"chunk": "data/root/a/c1", "array": "meta/root/a.array.json", "group": "meta/root/b.group.json",
           "entry": "zarr.json"}[what]
    node = B_ if what == "group" else A
    ops = {"write": lambda: [s.write_chunk(A, [1], meta=m)], "read": lambda: [s.read_chunk(A, [1], meta=m)],
           "delete": lambda: [s.delete_chunk(A, [1], meta=m)],
           "rewrite": lambda: [s.delete_chunk(A, [1], meta=m), s.write_chunk(A, [1], meta=m)],
           "into": lambda: [lambda: s.w.new_buf(r, "b", m.t, [0], [elem(r, m.t)]),
                            lambda: s.w.read_into(r, A, [1], "b", meta=m)],
           "remove": lambda: [s.remove(node)], "remove all": lambda: [s.remove(())],
           "set": lambda: [s.set_attributes(node, {"n": 2})], "attributes": lambda: [s.list_attributes(node)],
           "meta": lambda: [s.get_meta(node)], "region": lambda: [s.write_region(A, [m.n], [m.n], meta=m)],
           "cells": lambda: [s.read_region(A, [m.n], [1], meta=m)],
           "open": lambda: [s.opening("open", 5)], "create": lambda: [s.opening("open_or_create", 6)],
           "again": lambda: [s.create_group(node)], "exists": lambda: [s.exists(node)]}
    if m.n > 64:
        ops["region"], ops["cells"] = ops["write"], ops["read"]
    s.script(s.lock(key, ex), s.peek(key), s.peek(key), s.unlock())
    for o in op.split(" & "):
        s.script(*ops[o]())
    if two:
        s.script(s.lock(key, not ex, 2), s.peek(key, 2), s.unlock(2))
    s.after(s.read_chunk(A, [1], meta=m), s.exists(A), s.list_nodes(()), s.probe())
    if not op.startswith("remove"):
        s.after(s.list_attributes(node))
    s.opts = dict(bound=2, max=pick(tier, 250, 3000), random=pick(tier, 60, 1000), procs=procs)
    return s


def c16(rep, tier):
    r = rng("C16")
    check_models(rep, conc("locks") + fs("") if tier == "quick" else
                 conc("locks", "locksDeep") + fs("", "Two", "Deep", "Live"),
                 wrong("", "no-reader-lock", "no-eraser-lock") if tier == "quick" else
                 wrong("", "truncate-open", "no-writer-lock", "shared-writer-lock", "unlock-early",
                       "no-reader-lock", "no-eraser-lock", "no-check"))
    scenes = []
    want = {"chunk": ["write", "read", "delete", "into", "remove", "remove all", "region", "cells",
                      "write & read", "delete & delete", "delete & rewrite", "rewrite & rewrite",
                      "delete & write", "read & write", "read & read", "remove & read", "delete & remove"],
            "array": ["set", "attributes", "meta", "remove", "remove all", "again", "exists",
                      "set & meta", "remove & attributes"],
            "group": ["set", "attributes", "remove", "remove all", "again", "set & attributes", "attributes & remove"],
            "entry": ["open", "create", "open & create", "remove all", "write"]}
    n = 0
    for what, ops in want.items():
        for op in ops:
            for ex in (True, False):
                n += 1
                scenes.append(lock_scene(r, what, ex, op, n % 2 == 0, tier, two=n % 5 == 0 and "&" not in op))
                if tier == "thorough":
                    scenes.append(lock_scene(r, what, ex, op, n % 2 == 1, tier))
    judge(rep, scenes)


# --- C19 ----------------------------------------------------------------------

def parallel_scene(r, i, tier):
    """Calls on different chunks and nodes."""
    s = Scene("", r, handles=r.choice([1, 2, 3]))
    procs = r.random() < .4
    n = r.choice([2, 2, 3, 3, 4])
    what = ["chunks", "nodes", "mixed", "regions", "chunks", "open", "below", "siblings"][i % 8]
    s.name = "%d %s %d%s" % (i, what, n, " processes" if procs else "")
    after = []
    deep = r.choice([(), ("x",), ("x", "y")])
    if what in ("chunks", "regions"):
        p = deep + A
        m = Meta(r.choice(["u8", "i16", "f32"]), False, [8, 8], [2, r.choice([1, 2])], *r.choice(
            [("raw", None), ("gzip", {"level": 1}), ("lz4", {"blockSize": 65536})]),
            r.choice("CF"), r.choice(["/", "/", "."]), 7)
        m.fillhex = fill_hex(m.t, 7)
        m.g["fill"] = m.fillhex
        s.setup(s.w.create_array, p, m)
        row = r.randrange(4)
        pos = [[row, k] for k in range(m.grid[1])][:n] if r.random() < .6 else \
              r.sample([[a, b] for a in range(4) for b in range(m.grid[1])], n)
        for q in pos:
            if r.random() < .3:
                s.setup(s.w.write_chunk, p, q, meta=m)
        for q in pos:
            off, sh = [q[0] * m.cshape[0], q[1] * m.cshape[1]], list(m.cshape)
            if r.random() < .5:    # part of the chunk
                sh[0] = 1
                off[0] += r.randrange(2)
            calls = {"w": s.write_chunk(p, q, meta=m), "r": s.read_chunk(p, q, meta=m),
                     "d": s.delete_chunk(p, q, meta=m), "W": s.write_region(p, off, sh, meta=m),
                     "R": s.read_region(p, off, sh, meta=m)}
            x = r.choice(["w", "w", "w", "wr", "dw", "wd", "rw", "r"]) if what == "chunks" else \
                r.choice(["W", "WR", "WR", "dW", "Wr", "Wd", "w"])
            s.script(*[calls[c] for c in x])
            after.append(s.read_chunk(p, q, meta=m))
    elif what == "open":
        # handles opened, or the hierarchy created, by everybody
        s.opens = []
        m = Meta("u16", True, [8], [2], "raw", None, "C", "/", 7)
        s.defs.append(m.define())
        for k in range(n):
            p = deep + ("n%d" % k,)
            s.w.handles = 1
            calls = [s.opening("open_or_create", 10 + k)]
            use = r.choice(["group", "array", "none"])
            old = s.w.hd
            s.w.hd = lambda _, k=k: 10 + k
            pl = []
            for c in calls + ([s.create_group(p)] if use == "group" else
                              [s.create_array(p, m), s.write_chunk(p, [k], meta=m), s.read_chunk(p, [k], meta=m)]
                              if use == "array" else []):
                c()
                pl += s._take()
            s.w.hd = old
            s.scripts.append(pl)
            if use == "array":
                after.append(s.read_chunk(p, [k], meta=m))
            after.append(s.exists(p))
        after = [s.opening("open", 0)] + after
    else:
        m = Meta("u16", True, [8], [2], "raw", None, "C", "/", 7, "0007")
        names = r.sample(["n", "m", "nm", "n.m", "o", "nn"], n)
        base = deep
        for k, nm in enumerate(names):
            p = base + ((nm,) if what in ("nodes", "siblings") or k % 2 else ("d", nm))
            if what == "below" and k:
                p = base + (names[0] + "z", "q", nm)
            pre = r.random() < (.7 if what == "siblings" else .4)
            kind = r.choice("ga")
            if pre:
                if kind == "g":
                    s.setup(s.w.create_group, p)
                else:
                    s.setup(s.w.create_array, p, m)
                    s.setup(s.w.write_chunk, p, [k], meta=m)
            calls = []
            if pre:
                x = r.choice(["remove", "set", "list", "remove", "recreate"] if what == "siblings" else
                             ["set", "list", "write", "remove"])
            else:
                x = "create"
            if x == "create":
                calls.append(s.create_group(p) if kind == "g" else s.create_array(p, m))
                if kind == "a":
                    calls.append(s.write_chunk(p, [k], meta=m))
                if r.random() < .6:
                    calls.append(s.set_attributes(p, {"k": k}))
            elif x == "set":
                calls += [s.set_attributes(p, {"k": k}), s.list_attributes(p)]
            elif x == "list":
                calls += [s.list_attributes(p), s.exists(p)]
            elif x == "write":
                calls += [s.write_chunk(p, [k], meta=m), s.read_chunk(p, [k], meta=m)] if kind == "a" else \
                         [s.array_exists(p)]
            else:
                calls.append(s.remove(p))
                if x == "recreate":
                    calls.append(s.create_group(p))
            s.script(*calls)
            after += [s.exists(p), s.array_exists(p)]
            if x != "remove" and (kind == "a" or x != "create"):
                after.append(s.read_chunk(p, [k], meta=m))
            if x not in ("remove",):
                after.append(s.list_attributes(p))
        if r.random() < .4 and len(s.scripts) < 4:
            s.script(s.list_nodes(base), s.list_nodes(base))
        s.setup(lambda r: None)
    s.after(*after)
    s.after(s.list_nodes(deep), s.probe())
    if not any(d["m"] == m.id for d in s.defs):
        s.defs.append(m.define())
    s.opts = dict(bound=2, max=pick(tier, 250, 2500), random=pick(tier, 100, 1500), procs=procs)
    return s


def waiting_scene(r, i, tier):
    """Somebody holds a lock until calls that do not need it are done, while
    other calls want it."""
    procs = i % 3 == 2
    s = Scene("", r, handles=r.choice([1, 2]))
    m = Meta("u16", True, [8], [2], *r.choice([("raw", None), ("gzip", {"level": 1})]), "C", r.choice("/."), 7, "0007")
    N, O = ("n",), ("o", "p")
    s.setup(s.w.create_array, A, m)
    s.setup(s.w.create_group, B_)
    s.setup(s.w.create_array, O, m)
    s.setup(s.w.write_chunk, A, [1], meta=m)
    s.setup(s.w.write_chunk, A, [3], meta=m)
    s.setup(s.w.write_chunk, O, [1], meta=m)
    s.setup(s.w.set_attributes, B_, {"k": 1})
    what = ["chunk", "chunk", "array", "group", "chunk"][i % 5]
    key = {"chunk": "data/root/a/c1", "array": "meta/root/a.array.json", "group": "meta/root/b.group.json"}[what]
    ex = r.random() < .6
    want = {"chunk": [s.write_chunk(A, [1], meta=m), s.delete_chunk(A, [1], meta=m)] +
                     [s.read_chunk(A, [1], meta=m)] * ex,
            "array": [s.set_attributes(A, {"x": 1})] + [s.list_attributes(A), s.get_meta(A)] * ex,
            "group": [s.set_attributes(B_, {"x": 1})] + [s.list_attributes(B_)] * ex}[what]
    other = [[s.write_chunk(A, [2], meta=m), s.read_chunk(A, [2], meta=m)], [s.delete_chunk(A, [3], meta=m)],
             [s.write_chunk(O, [1], meta=m)], [s.set_attributes(O, {"y": 2}), s.list_attributes(O)],
             [s.create_group(N), s.exists(N)], [s.create_array(N, m), s.write_chunk(N, [0], meta=m)],
             [s.remove(("o",)), s.exists(O)], [s.write_region(A, [4], [2], meta=m)],
             [s.read_region(A, [5], [3], meta=m)], [s.list_nodes(()), s.exists(O), s.array_exists(O)],
             [s.opening("open", 5)], [s.delete_chunk(O, [1], meta=m), s.read_chunk(O, [1], meta=m)]]
    k = [i % len(other), r.randrange(len(other))]
    on = ["2", "3", "o", "p", "n", "n", "opq", "2", "23", "pq", "", "o"]     # what these are about
    if k[0] == k[1] or set(on[k[0]]) & set(on[k[1]]):
        k = k[:1]
    s.name = "%d %s lock on %s, awaiting others %s%s" % (
        i, "exclusive" if ex else "shared", what, k, " processes" if procs else "")
    s.script(s.lock(key, ex), s.peek(key), *[s.wait_for(2 + j) for j in range(len(k))], s.peek(key), s.unlock())
    s.script(r.choice(want))
    for j in k:
        s.script(*other[j])
    s.after(s.read_chunk(A, [1], meta=m), s.read_chunk(A, [2], meta=m), s.list_attributes(A),
            s.list_nodes(()), s.probe())
    s.opts = dict(bound=1, max=pick(tier, 60, 600), random=pick(tier, 20, 300), procs=procs)
    return s


def c19(rep, tier):
    check_models(rep, conc("disjoint") if tier == "quick" else conc("disjoint", "disjointDeep", "several",
                                                                    "severalDeep"))
    scenes = [parallel_scene(rng("C19", i), i, tier) for i in range(pick(tier, 72, 400))]
    scenes += [waiting_scene(rng("C19wait", i), i, tier) for i in range(pick(tier, 36, 240))]
    judge(rep, scenes)


# --- C24 ----------------------------------------------------------------------

PAIRED = {"none": ["group", "array", "array2", "exists", "aexists", "list", "meta", "set", "nodes"],
          "group": ["set", "setlong", "list", "group", "array", "exists", "aexists", "nodes"],
          "array": ["set", "setlong", "list", "meta", "group", "array2", "exists", "aexists", "nodes"]}


def node_pairs():
    """Every two calls that may meet on one node, in each of its states."""
    return [(kind, [[x], [y]]) for kind, xs in PAIRED.items() for i, x in enumerate(xs) for y in xs[i:]
            if {x, y} & {"group", "array", "array2", "set", "setlong"}]


def node_scene(r, i, tier, pair=None):
    """Calls on one node."""
    s = Scene("", r)
    procs = r.random() < .4
    n = r.choice([2, 2, 2, 3])
    kind = r.choice(["none", "group", "array", "group", "none"])
    if pair:
        n, kind = 2, pair[0]
    p = r.choice([A, ("x", "y"), ()])
    m1 = Meta("u16", True, [8], [2], "raw", None, "C", "/", 7)
    m2 = Meta("i8", True, [9], [3], "gzip", {"level": 1}, "F", ".", 1)
    long = "v" * r.choice([1, 10, 9000])
    if kind == "group":
        s.setup(s.w.create_group, p)
    elif kind == "array":
        s.setup(s.w.create_array, p, m1)
    if kind != "none" and r.random() < .6:
        s.setup(s.w.set_attributes, p, {"old": long})
    names = []
    for k in range(n):
        calls = []
        for j in range(len(pair[1][k]) if pair else r.choice([1, 1, 2])):
            x = pair[1][k][j] if pair else r.choice({"none": ["group", "array", "array2", "group", "exists", "aexists", "list", "meta", "set"],
                          "group": ["set", "set", "list", "group", "array", "exists", "aexists", "setlong"],
                          "array": ["set", "set", "list", "meta", "group", "array2", "exists", "setlong"]}[kind])
            names.append(x)
            calls.append({"group": s.create_group(p), "array": s.create_array(p, m1),
                          "array2": s.create_array(p, m2), "exists": s.exists(p),
                          "aexists": s.array_exists(p), "list": s.list_attributes(p), "meta": s.get_meta(p),
                          "nodes": s.list_nodes(p[:-1]),
                          "set": s.set_attributes(p, {r.choice("st") + str(k): k}),
                          "setlong": s.set_attributes(p, {"long": long[:-1] + str(k), "z%d" % k: k})}[x])
        names.append("|")
        s.script(*calls)
    s.name = "%d %s: %s%s" % (i, kind, " ".join(names), " processes" if procs else "")
    s.after(s.exists(p), s.array_exists(p), s.list_attributes(p), s.get_meta(p),
            s.list_nodes(p[:-1]), s.probe())
    for m in (m1, m2):
        if not any(d["m"] == m.id for d in s.defs):
            s.defs.append(m.define())
    s.opts = dict(bound=2, max=pick(tier, 250, 2500), random=pick(tier, 60, 1000), procs=procs)
    return s


def c24(rep, tier):
    check_models(rep, conc("node", "opening") if tier == "quick" else conc("node", "nodeDeep", "opening"))
    scenes = [node_scene(rng("C24", i), i, tier) for i in range(pick(tier, 50, 500))]
    for k in range(pick(tier, 1, 4)):
        scenes += [node_scene(rng("C24pair", i, k), i, tier, x) for i, x in enumerate(node_pairs())]
    judge(rep, scenes)


CHECKS = {"C15": c15, "C16": c16, "C19": c19, "C24": c24}
