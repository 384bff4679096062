"""Checks decided by Disturb: calls cut short by the end of their process or by
failures of the storage, and what is found afterwards."""
from c_conc import *
from hist import *


class Case(Scene):
    """A call to be cut short, between calls that are not."""

    shorter = False # a document is replaced by a shorter one
    mem = None      # set: the parameters of a store in memory

    def __init__(self, name, r, entry=True, dir="$D"):
        Scene.__init__(self, name, r, handles=1)
        self.w.dir = dir
        if Case.mem is not None:
            self.w.kind, self.opens = "mem", []
        self.there = entry
        if not entry:
            self.opens = []
        self.what = None
        self.arrays = {}
        self.nodes_ = [()]

    # set-up
    def array(self, path, m):
        self.setup(self.w.create_array, path, m)
        self.arrays[path] = m
        self.nodes_.append(path)
        return m

    def group(self, path, attrs=None):
        self.setup(self.w.create_group, path)
        self.nodes_.append(path)
        if attrs:
            self.setup(self.w.set_attributes, path, attrs)

    def do(self, call):
        call()
        (op, f), = self._take()
        self.what = (op, f)
        self.again = op

    def look(self):
        """Everything there is to see."""
        w, r = self.w, self.r
        ps = list(dict.fromkeys(self.nodes_))
        for p in ps:
            w.exists(r, p)
            w.array_exists(r, p)
            w.list_attributes(r, p)
            w.list_nodes(r, p)
            if p in self.arrays:
                w.get_meta(r, p)
        for p, m in self.arrays.items():
            for pos in positions(m)[:6]:
                w.read_chunk(r, p, pos, meta=m)
            if m.n <= 64 and m.shape and r.random() < .7:
                w.read_region(r, p, [0] * len(m.shape), m.shape, meta=m)

    def finish(self):
        """After it: another handle looks, the call is repeated, and so on."""
        w, r = self.w, self.r
        if Case.mem is None:
            w.handles = 2 if self.there else 1
            w.call({"op": "open", "h": w.handles - 1, "dir": w.dir}, {"op": "open"}, lambda v: "", h=w.handles - 1)
        if self.there:
            self.look()
        w.plan.append(self.what)
        if not self.there:
            w.call({"op": "open", "h": 0, "dir": w.dir}, {"op": "open"}, lambda v: "")
            w.call({"op": "open_or_create", "h": 1, "dir": w.dir}, {"op": "open_or_create"}, lambda v: "", h=1)
        else:
            self.look()
            # and the hierarchy can be used
            p = r.choice(["fresh", "u"])
            w.create_group(r, (p,))
            w.list_nodes(r, ())
            for q, m in self.arrays.items():
                if self.what[0]["op"] not in ("remove", "remove_all"):
                    w.write_chunk(r, q, positions(m)[0], meta=m)
                    w.read_chunk(r, q, positions(m)[0], meta=m)
            w.remove(r, ())
            w.list_nodes(r, ())
        self.end = self._take()

    # execution
    def base(self, kind):
        d = {"op": kind, "setup": self.opens + self.defs + [o for o, _ in self.before],
             "do": self.what[0], "after": [o for o, _ in self.end]}
        d.update(self.opts)
        return d

    def story(self, k, res, after):
        none = {"t": "ok", "v": ""}
        ev = []
        for op, f in self.before:
            ev.append({"k": "call", "e": f({"t": "ok", "v": True if op["op"] == "delete_chunk" else ""})})
        e = self.what[1](res if k != "crash" else {"t": "err", "v": "crash"})
        ev.append({"k": k, "e": e})
        for (op, f), r in zip(self.end, after):
            ev.append({"k": "call", "e": f(r)})
        return {"entry": "ok" if self.there else "absent", "ev": ev}


def positions(m):
    out = [[]]
    for n in m.grid:
        out = [p + [i] for p in out for i in range(n)]
    return out


MUTATORS = ("create_group", "create_array", "set_attributes", "set_attribute", "remove", "remove_all",
            "write_chunk", "write_region", "delete_chunk", "open", "open_or_create", "buf_new")


def outcome(op, st):
    """The result of a process that ended by itself."""
    if st == 0:
        return "call", {"t": "ok", "v": True if op["op"] == "delete_chunk" else ""}
    return "crash", {"t": "err", "v": ""}


def run_cases(rep, cases, jobs):
    """jobs: (case number, operation); [(case, history, detail)]."""
    build()
    shim()
    out, lock, errors = [], threading.Lock(), []
    stats = rep.extra.setdefault("disturbances", {"cases": 0, "points": 0, "runs": 0})
    stats["cases"] += len(cases)
    todo = list(jobs)[::-1]

    def worker(k):
        h = None
        try:
            while True:
                with lock:
                    if not todo or errors:
                        break
                    i, op = todo.pop()
                if h is None:
                    h = Harness(preload=True, timeout=600, cpu=k)
                root = fresh_dir("d")
                op = dict(op, root=root)
                try:
                    v = h.many([op])[0]
                except HarnessDied as e:
                    with lock:
                        rep.violation("the process died: %s" % str(e)[:600], {"op": op, "preload": True})
                    h = None
                    continue
                if v["t"] != "ok":
                    raise ToolError("disturbance: %s" % v)
                v = v["v"]
                shutil.rmtree(root, ignore_errors=True)
                c = cases[i]
                with lock:
                    stats["points"] += v.get("points", 0)
                    stats["runs"] += len(v["runs"])
                    for x in v["runs"]:
                        if op["op"] == "crash":
                            k_, res = ("crash", {"t": "err", "v": ""}) if x["fired"] else \
                                outcome(op["do"], x["status"] >> 8 if x["status"] % 256 == 0 else 255)
                            at = {"at": x["at"], "part": x["part"], "last": x["last"]}
                        else:
                            k_, res = "fault", x["res"]
                            at = {"at": x["at"], "variant": x["variant"], "last": x["last"]}
                        out.append((i, c.story(k_, res, x["after"]), at, op))
        except Exception as e:
            with lock:
                errors.append(e)
        finally:
            if h:
                h.close()
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(min(PROCS, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    return out


def tell(hist):
    out = []
    for e in hist["ev"]:
        x = e["e"]
        a = " ".join("%s" % (x[k],) for k in ("path", "pos", "off", "shape", "attrs", "data") if k in x)
        out.append("%s %s %s -> %s" % (e["k"], x["op"], a[:120], json.dumps(x["res"])[:160]))
    return out


def decide(rep, cases, got):
    """Accept or reject the histories."""
    got.sort(key=lambda x: x[0])
    hists = [x[1] for x in got]
    ok = accepted(rep, "DisturbTrace", hists, {"DEVIATE": "0"}, parts=6)
    bad = [i for i in range(len(hists)) if i not in ok]
    dev = accepted(rep, "DisturbTrace", [hists[i] for i in bad], {"DEVIATE": "1"})
    rep.traces += len(hists)
    rep.events += sum(len(x["ev"]) for x in hists)
    for x in got[:1] + got[len(got) // 2:len(got) // 2 + 1]:
        rep.sample({"case": cases[x[0]].name, "at": x[2], "history": tell(x[1])[:30]})
    said = set()
    for j, i in enumerate(bad):
        n, hist, at, op = got[i]
        tags = dev.get(j)
        tag = "+".join(sorted(min(tags, key=lambda t: (len(t), sorted(t))))) if tags else ""
        if (cases[n].name, tag) in said:
            continue
        said.add((cases[n].name, tag))
        what = "%s, cut short at %s: what follows is not in the specification:\n  %s" % (
            cases[n].name, json.dumps(at), "\n  ".join(tell(hist)))
        replay = {"op": op, "at": at, "history": hist, "preload": True, "case": cases[n].name}
        one = [t for t in tag.split("+") if t]
        if one and all(any(k["tag"] == t for k in rep.known_list) for t in one):
            for t in one:
                rep.violation(what, dict(replay, tag=t))
        else:
            rep.violation(what, dict(replay, tag=""))


# --- cases -----------------------------------------------------------------------

def chunk_array(c, r, kind, path=A):
    m = array_of(c, r, kind, path, sep=r.choice("/.-"))
    return c.array(path, m)


def write_case(r, kind, present, sub=None):
    c = Case("write of a chunk %s, %s" % (kind, "present" if present else "absent"), r)
    p = sub or r.choice([A, ("a", "b"), ()])
    m = chunk_array(c, r, kind, p)
    vs = values(r, m, 3)
    c.setup(c.w.write_chunk, p, [0], data=vs[0])
    if present:
        c.setup(c.w.write_chunk, p, [1], data=vs[1])
    if p:
        c.group(B_, {"k": 1})
    c.do(c.write_chunk(p, [1], meta=m, data=vs[2]))
    return c


def delete_case(r, kind, present):
    c = Case("deletion of a chunk %s, %s" % (kind, "present" if present else "absent"), r)
    m = chunk_array(c, r, kind)
    c.setup(c.w.write_chunk, A, [0])
    if present:
        c.setup(c.w.write_chunk, A, [1])
    c.do(c.delete_chunk(A, [1], meta=m))
    return c


def big_attrs(r, n):
    return {"k%d" % i: "v%d " % r.randrange(10**9) * r.randint(1, 9) for i in range(n)}


def create_case(r, what, deep, big=0):
    c = Case("creation of %s%s" % (what, ", big" if big else ""), r)
    c.group(B_, {"k": 1})
    p = r.choice([A, ("c",)]) if not deep else r.choice([("b", "x"), ("n", "m", "o"), ("n", "m")])
    if what == "group":
        c.do(c.create_group(p))
        c.nodes_.append(p)
    else:
        m = rand_meta(r, maxn=9, attrs=big_attrs(r, big) if big else rand_attrs(r), ndim=r.choice([1, 2]))
        c.do(c.create_array(p, m))
        c.arrays[p] = m
        c.nodes_.append(p)
    for i in range(1, len(p)):
        c.nodes_.append(p[:i])
    c.defs += []
    return c


def set_case(r, kind, big):
    c = Case("setting of attributes of %s, %d" % (kind, big), r)
    p = r.choice([A, ("a", "b")])
    at = rand_attrs(r)
    if kind == "array":
        m = rand_meta(r, maxn=9, attrs=at, ndim=1)
        c.array(p, m)
        c.setup(c.w.write_chunk, p, [0])
    else:
        c.group(p, at or {"k": 1})
    c.group(B_, {"k": 1})
    c.shorter = big < 0
    if r.random() < .3:
        c.setup(c.w.set_attributes, p, big_attrs(r, big))
    if big < 0:     # the document gets shorter
        c.name += ", shorter"
        c.setup(c.w.set_attributes, p, {"k": "v" * r.choice([3, 50, 20000])})
        c.do(c.set_attributes(p, {"k": r.randrange(10)}))
    else:
        c.do(c.set_attributes(p, dict(big_attrs(r, big), k=r.randrange(100, 1000))))
    return c


def region_case(r, nd, present, cover):
    c = Case("write of a region, %d dimensions, %s chunks%s" % (nd, present, ", whole" if cover else ""), r)
    t = r.choice([t for t in TYPES if t != "bool"])
    cs = [2, 2][:nd]
    shape = r.choice([[5], [6]]) if nd == 1 else r.choice([[3, 4], [4, 3]])
    codec = r.choice(list(CODECS))
    f = rand_fill(r, t)
    m = Meta(t, r.random() < .5, shape, cs, codec, r.choice(CODECS[codec]), r.choice("CF"), r.choice("/.-"),
             f, fill_hex(t, f))
    c.array(A, m)
    for pos in positions(m):
        if present == "all" or (present == "some" and r.random() < .5):
            c.setup(c.w.write_chunk, A, pos)
    if cover:
        off, sh = [0] * nd, list(shape)
    else:
        off = [r.randint(0, 1) for _ in shape]
        sh = [max(1, s - o - r.randint(0, 1)) for s, o in zip(shape, off)]
    c.do(c.write_region(A, off, sh, meta=m))
    return c


def remove_case(r, i):
    c = Case("removal %d" % i, r)
    kind = r.choice([("raw", 2), ("gzip", 3), ("lz4", 2)])
    if i % 4 == 0:      # an array with chunks
        m = chunk_array(c, r, kind)
        c.setup(c.w.write_chunk, A, [0])
        c.setup(c.w.write_chunk, A, [1])
        c.group(B_)
        c.do(c.remove(A))
    elif i % 4 == 1:    # a group of an array and a group
        c.group(A, {"k": 1})
        m = chunk_array(c, r, kind, ("a", "b"))
        c.setup(c.w.write_chunk, ("a", "b"), [0])
        c.setup(c.w.write_chunk, ("a", "b"), [1])
        c.group(("a", "c"))
        m2 = chunk_array(c, r, kind, ("ab",))
        c.setup(c.w.write_chunk, ("ab",), [0])
        c.do(c.remove(A))
    elif i % 4 == 2:    # everything
        if r.random() < .5:
            m = chunk_array(c, r, kind, ())
            c.setup(c.w.write_chunk, (), [0])
        m = chunk_array(c, r, kind, ("x", "y"))
        c.setup(c.w.write_chunk, ("x", "y"), [1])
        c.group(B_)
        c.do(c.remove(()))
    else:               # what is only implied
        m = chunk_array(c, r, kind, ("x", "y", "z"))
        c.setup(c.w.write_chunk, ("x", "y", "z"), [0])
        c.group(("x", "w"))
        chunk_array(c, r, kind, ("xy",))
        c.nodes_.append(("x", "y"))
        c.nodes_.append(("x",))
        c.do(c.remove(r.choice([("x",), ("x", "y")])))
    return c


def open_case(r, i):
    d = ["$D/new", "$D/new/er", "$D"][i % 3]
    c = Case("creation of a hierarchy at %s" % d, r, entry=False, dir=d)
    c.do(c.opening("open_or_create", 0))
    return c


def random_case(r, i):
    """Some calls, then one of them cut short."""
    c = Case("random %d" % i, r)
    w = c.w
    names = r.sample(["a", "b", "ab", "a.b", "x y", "\u00e9"], 3)
    paths = [(n,) for n in names] + [(a, b) for a in names for b in names]
    live, groups, chunks = {}, set(), set()

    def call():
        x = r.random()
        arrays = [p for p in live]
        free = [p for p in paths if p not in live and p not in groups
                and not any(p[:len(q)] == q or q[:len(p)] == p for q in live)]
        if (x < .35 or not arrays) and free and len(live) < 3:
            p = r.choice(free)
            m = rand_meta(r, maxn=8, ndim=r.choice([1, 1, 2]), attrs=rand_attrs(r, 1))
            m2 = r.random()
            if len(positions(m)) > 4:
                return call()
            live[p] = m
            c.arrays[p] = m
            c.nodes_.append(p)
            return lambda: w.create_array(r, p, m)
        if x < .5:
            p = r.choice([p for p in paths if p not in live])
            if any(p[:len(q)] == q for q in live):
                return call()
            groups.add(p)
            c.nodes_.append(p)
            return lambda: w.create_group(r, p)
        if x < .6 and (groups or live):
            p = r.choice(sorted(groups) + sorted(live))
            return lambda: w.set_attributes(r, p, rand_attrs(r, 2))
        if not arrays:
            return call()
        p = r.choice(sorted(arrays))
        m = live[p]
        if x < .8 and len(chunks) < 5:
            pos = r.choice(positions(m))
            chunks.add((p, tuple(pos)))
            return lambda: w.write_chunk(r, p, pos, meta=m)
        if x < .87 and chunks:
            q, pos = r.choice(sorted(chunks))
            if q in live:
                chunks.discard((q, pos))
                return lambda: w.delete_chunk(r, q, list(pos), meta=live[q])
        if x < .93 and len(chunks) < 4:
            off = [r.randrange(s) for s in m.shape]
            sh = [r.randint(1, min(3, s - o)) for s, o in zip(m.shape, off)]
            return lambda: w.write_region(r, p, off, sh, meta=m)
        p = r.choice(sorted(groups) + sorted(live) + [()])
        for q in [q for q in live if q[:len(p)] == p]:
            del live[q]
        for q in [q for q in chunks if q[0][:len(p)] == p]:
            chunks.discard(q)
        groups.difference_update([q for q in groups if q[:len(p)] == p])
        return lambda: w.remove(r, p)
    for _ in range(r.randint(3, 9)):
        call()()
        c.before += c._take()
    c.do(call())
    return c


def read_case(r, i):
    """A call that only looks."""
    c = Case("reading %d" % i, r)
    kind = r.choice(KINDS[:2] + KINDS[2:8:2])
    c.group(B_, {"k": 1})
    p = r.choice([A, ("b", "a")])
    m = chunk_array(c, r, kind, p)
    c.setup(c.w.write_chunk, p, [0])
    if r.random() < .5:
        c.setup(c.w.set_attributes, p, {"x": [1]})
    calls = [lambda: c.w.read_chunk(r, p, [0], meta=m), lambda: c.w.read_chunk(r, p, [1], meta=m),
             lambda: c.w.list_attributes(r, p), lambda: c.w.get_meta(r, p), lambda: c.w.exists(r, p),
             lambda: c.w.array_exists(r, p), lambda: c.w.list_nodes(r, ()), lambda: c.w.list_attributes(r, B_),
             lambda: c.w.exists(r, B_), lambda: c.w.list_nodes(r, B_), lambda: c.w.exists(r, ("no",)),
             lambda: c.w.create_group(r, B_), lambda: c.w.create_array(r, p, m),
             lambda: c.w.set_attributes(r, ("no",), {"k": 2})]
    if m.n <= 64:
        calls += [lambda: c.w.read_region(r, p, [0], m.shape, meta=m)] * 2
    c.do(calls[i % len(calls)])
    return c


def opening_case(r, how):
    c = Case("opening by %s" % how, r)
    c.group(A, {"k": 1})
    c.do(c.opening(how, 2))
    return c


def cases_of(r, tier):
    out = []
    k = pick(tier, 1, 4)
    for n in range(k):
        for kind in KINDS:
            out += [write_case(r, kind, p) for p in (True, False)]
        for i in range(4):
            out += [delete_case(r, KINDS[(i + n) % len(KINDS)], i % 2 == 0)]
        for what in ("group", "array"):
            for deep in (False, True):
                out.append(create_case(r, what, deep))
            out.append(create_case(r, what, True, 700 if what == "array" else 0))
            for big in (1, 300, -1):
                out.append(set_case(r, what, big))
        for nd in (1, 2):
            for present in ("all", "some", "no"):
                out.append(region_case(r, nd, present, r.random() < .3))
        out += [remove_case(r, i) for i in range(8)]
        if Case.mem is None:
            out += [open_case(r, i) for i in range(3)]
    out += [random_case(r, i) for i in range(pick(tier, 40, 600))]
    return out


def c17(rep, tier):
    check_model(rep, "MCDisturb", pick(tier, "MCDisturb.cfg", "MCDisturbDeep.cfg"))
    check_models(rep, [("MCFsStore", c, {}) for c in pick(
        tier, ["MCFsStore.cfg"], ["MCFsStore.cfg", "MCFsStoreTwo.cfg", "MCFsStoreDeep.cfg", "MCFsStoreLive.cfg"])])
    r = rng("C17")
    cases = cases_of(r, tier)
    for c in cases:
        c.finish()
    jobs = []
    for i, c in enumerate(cases):
        # pieces make more points within a value
        jobs.append((i, dict(c.base("crash"), parts=[0, 1, 2, 3], piece=0)))
        if tier == "thorough" or i % 3 == 0:
            jobs.append((i, dict(c.base("crash"), parts=[0, 2], piece=r.choice([16, 50, 1000]), limit=80)))
    decide(rep, cases, run_cases(rep, cases, jobs))


# kinds of system calls, as in the shim
OPEN, READ, WRITE, TRUNC, LOCK, UNLINK, RMDIR, MKDIR, STAT, DIR, CREATE = \
    1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 4096
CHANGE = WRITE | TRUNC | UNLINK | RMDIR | MKDIR | CREATE
LOOK = OPEN | READ | LOCK | STAT | DIR
EIO, EINTR, EACCES, EMFILE, ENOSPC, ENOLCK = 5, 4, 13, 24, 28, 37


def variants(r, tier, i):
    v = [{"kinds": CHANGE, "err": r.choice([EIO, EACCES, ENOSPC])},
         {"kinds": WRITE, "err": r.choice([EIO, ENOSPC]), "part": r.choice([1, 2, 3])},
         {"kinds": LOOK, "err": r.choice([EIO, EACCES, EMFILE])},
         {"kinds": LOCK | OPEN, "err": r.choice([ENOLCK, EIO, EMFILE]), "persist": 1},
         {"kinds": CHANGE | LOOK, "err": EINTR}]
    v += [{"full": n} for n in r.sample([0, 1, 3, 10, 30, 60, 100, 200, 1000, 4096, 8191, 8192, 9000], 5)]
    v.append({"kinds": CHANGE, "err": EIO, "persist": 1})
    v.append({"kinds": LOOK | CHANGE, "err": EIO, "persist": 1})
    v.append({"kinds": STAT, "err": r.choice([EIO, EACCES]), "persist": i % 2})
    if tier == "quick":
        keep = [0, 2 + i % 2, 4] if i % 3 else [1, 2, 5]
        v = [v[k] for k in sorted(set(keep + [1, 5 + i % 5, 10 + i % 3]))]
    return v


MEMFAULTS = ["set", "flush", "commit", "get", "erase", "erase_prefix", "exists", "list"]


def run_mem(rep, cases, tier, params):
    """Failures of a store in memory at each call, and at each byte."""
    build()
    out, lock, errors = [], threading.Lock(), []
    stats = rep.extra.setdefault("failures of a store in memory", {"cases": 0, "runs": 0})
    stats["cases"] += len(cases)
    todo = list(range(len(cases)))[::-1]

    def runs(h, i, kind, afters):
        """The runs with the failure after each of these; False when it does not come."""
        c = cases[i]
        ops, spans = list(c.defs), []
        for k in afters:
            a = len(ops)
            ops += [dict({"op": "mem", "h": 0}, **params[i])]
            ops += [o for o, _ in c.before]
            ops += [{"op": "fault", "h": 0, "kind": kind, "after": k}, c.what[0], {"op": "unfault", "h": 0}]
            b = len(ops)
            ops += [o for o, _ in c.end]
            spans.append((k, a, b, len(ops)))
        res = h.many(ops)
        go = True
        for k, a, b, e in spans:
            bad = [x for o, x in zip(ops[a:b - 3], res[a:b - 3]) if x["t"] != "ok" and not o.get("may")]
            if bad:
                raise ToolError("set-up: %s" % bad[:2])
            if not res[b - 1]["v"]:
                go = False
                break
            with lock:
                stats["runs"] += 1
                out.append((i, c.story("fault", res[b - 2], res[b:e]), {"failing": kind, "after": k},
                            {"ops": list(c.defs) + ops[a:e]}))
        return go

    def worker():
        h = None
        try:
            h = Harness()
            while True:
                with lock:
                    if not todo or errors:
                        break
                    i = todo.pop()
                for kind in MEMFAULTS:
                    k = 0
                    while k < 12 and runs(h, i, kind, range(k, k + 2)):
                        k += 2
                for kind in ("write", "read"):
                    k, step = 0, 1
                    dense = pick(tier, 12, 200)
                    while k < 120000:
                        if not runs(h, i, kind, range(k, k + 6 * step, step)):
                            break
                        k += 6 * step
                        if k >= dense:
                            step = max(1, k // pick(tier, 6, 30))
        except Exception as e:
            with lock:
                errors.append(e)
        finally:
            if h:
                h.close()
    ts = [threading.Thread(target=worker) for _ in range(PROCS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    return out


def c14(rep, tier):
    check_model(rep, "MCDisturb", "MCDisturb.cfg")
    r = rng("C14")
    cases = cases_of(r, tier)
    cases += [read_case(r, i) for i in range(pick(tier, 24, 160))]
    cases += [opening_case(r, how) for how in ("open", "open_or_create")]
    for c in cases:
        c.finish()
    jobs = []
    for i, c in enumerate(cases):
        vs = variants(r, tier, i)
        if c.shorter:
            vs.append({"kinds": TRUNC | CREATE, "err": r.choice([EIO, EACCES]), "persist": 0})
        jobs.append((i, dict(c.base("faults"), variants=vs, piece=0)))
        if tier == "thorough" or i % 4 == 0:
            jobs.append((i, dict(c.base("faults"), variants=variants(r, tier, i)[:4], piece=r.choice([16, 50, 1000]),
                                 limit=pick(tier, 30, 200))))
    got = run_cases(rep, cases, jobs)
    decide(rep, cases, got)
    Case.mem = {}
    try:
        cases = cases_of(r, tier) + [read_case(r, i) for i in range(pick(tier, 24, 160))]
        for c in cases:
            c.finish()
    finally:
        Case.mem = None
    params = [{"piece": r.choice([0, 0, 1, 3, 50]), "slash": r.random() < .5, "eager": i % 2 == 0}
              for i in range(len(cases))]
    decide(rep, cases, run_mem(rep, cases, tier, params))


CHECKS = {"C14": c14, "C17": c17}
