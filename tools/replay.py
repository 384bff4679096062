"""Replaying the behaviours of MCHierarchy in the library: every transition TLC
explores becomes one test, executed on the real code from a fresh hierarchy."""
import threading
from hist import *

DOCS = {
    "M1": dict(shape=[3], cshape=[2], order="C", sep="/", fill=None, hexfill="00"),
    "M2": dict(shape=[5], cshape=[2], order="C", sep="/", fill=7, hexfill="07"),
    "M3": dict(shape=[3, 2], cshape=[2, 2], order="F", sep="/", fill=7, hexfill="07"),
    "M4": dict(shape=[2, 3], cshape=[2, 2], order="C", sep=".", fill=7, hexfill="07"),
    "M5": dict(shape=[], cshape=[], order="C", sep="/", fill=7, hexfill="07"),
}


def make_metas(codec="raw", conf=None):
    out = {}
    for name, d in DOCS.items():
        out[name] = Meta("u8", True, d["shape"], d["cshape"], codec, conf, d["order"], d["sep"],
                         d["fill"], d["hexfill"])
    return out


def model_cfg(profile, props, suffix=".json", emit=True, maxlen=20):
    path = fresh("mc") + ".cfg"
    with open(path, "w") as f:
        f.write("SPECIFICATION MCSpec\nCONSTANTS\n  Suffix = %s\n  Profile = %s\n  Emit = %s\n"
                "  MaxLen = %d\nVIEW state\nINVARIANT TypeOK KeysDistinct\nPROPERTY ChunkFrame "
                "NodeFrame RemoveComplete RefusedUnchanged %s\nACTION_CONSTRAINT EmitTest\n"
                "CONSTRAINT Short\nCHECK_DEADLOCK FALSE\n" % (
                    json.dumps(suffix), json.dumps(profile), "TRUE" if emit else "FALSE",
                    maxlen, props))
    return path


PROPS = {"region1": "Region1", "region1b": "Region1", "region2f": "Region2F",
         "region2c": "Region2C", "region0": "Region0"}


def tests_of(rep, profile, suffix=".json", maxlen=20, timeout=600):
    cfg = model_cfg(profile, PROPS.get(profile, ""), suffix, True, maxlen)
    r = tlc("MCHierarchy", cfg, timeout=timeout, workers=1)
    if not r.ok:
        raise ToolError("model %s: %s" % (profile, r.out[-3000:]))
    rep.states += r.distinct
    rep.transitions += r.generated
    rep.models.append({"model": "MCHierarchy/" + profile, "distinct_states": r.distinct,
                       "states_generated": r.generated, "depth": r.depth,
                       "wall_s": round(r.wall, 1)})
    tests = [json.loads(json.loads(l)) for l in r.out.splitlines() if l.startswith('"{')]
    groups = {}
    for t in tests:
        groups.setdefault(canon(t["hist"]), []).append(t)
    return groups


class Replayer:
    def __init__(self, metas, kind="fs", suffix=".json", mem=None, feature=None):
        self.metas, self.kind, self.suffix, self.mem = metas, kind, suffix, mem or {}
        self.h = Harness(feature)
        self.n = 0
        self.with_attrs = {}
        for m in metas.values():
            self.must(self.h.many([m.define()])[0])
        self.base = fresh_dir("replay")
        self.meta_texts = {k: meta_of(m.doc)[0] for k, m in metas.items()}
        self.tests = 0

    def must(self, res):
        if res["t"] != "ok":
            raise ToolError("replay set-up: %s" % res)
        return res

    def meta_id(self, name, attrs):
        """The metadata called `name`, with initial attributes."""
        m = self.metas[name]
        if not attrs:
            return m.id
        key = (name, canon(sorted(attrs)))
        if key not in self.with_attrs:
            i = 1000000 + len(self.with_attrs)
            doc = dict(m.doc, attributes={a: json.loads(b) for a, b in attrs})
            self.must(self.h.many([{"op": "defmeta", "m": i, "doc": doc}])[0])
            self.with_attrs[key] = i
        return self.with_attrs[key]

    def op(self, e, meta_at):
        """The call an operation of the model stands for."""
        self.n += 1
        r = self.n
        sl = ["/", "", "//", "/"][r % 4]
        tail = ["", "", "/"][r % 3]
        path = sl + "/".join(e.get("path", [])) + tail
        o = {"op": e["op"], "path": path, "h": r % 2 if self.kind == "fs" else 0}
        k = e["op"]
        if k == "create_array":
            o["m"] = self.meta_id(e["meta"], e["attrs"])
        elif k == "set_attributes":
            o["attrs"] = {a: json.loads(b) for a, b in e["attrs"]}
        elif k in ("write_chunk", "read_chunk", "read_chunk_into", "delete_chunk",
                   "write_region", "read_region"):
            name = meta_at(tuple(e["path"]))
            o["m"] = self.metas[name].id
            o["T"] = "u8"
            if "pos" in e:
                o["pos"] = e["pos"]
            if k == "write_chunk":
                o["data"] = e["data"]
                if e["data"] and len(e["data"][0]) == 4:
                    o["T"] = "u16"
                o["slice"] = r % 3 == 0
            if k == "read_chunk" and not e["good"]:
                o["T"] = "i8"
            if k == "read_chunk_into":
                o["b"] = "b"
            if k in ("write_region", "read_region"):
                o.update(off=e["off"], shape=e["shape"], **[{}, {"lay": list(range(len(e["shape"])))[::-1], "steps": [1] * len(e["shape"])},
                     {"lay": list(range(len(e["shape"]))), "steps": [-2] * len(e["shape"])}][r % 3])
                if k == "write_region":
                    o["data"] = e["data"]
                elif e["init"]:
                    o["into"] = e["init"]
        elif k in ("buf_new", "buf_like"):
            o.update(b="b", T="u8", pos=e["pos"], data=e["data"], slice=r % 3 == 0)
        elif k == "buf_size":
            o.update(b="b", T="u8", pos=e["pos"], n=e["n"])
        return o

    @staticmethod
    def arrays_after(hist):
        at = {}
        for e in hist:
            if e["op"] == "create_array":
                at.setdefault(tuple(e["path"]), e["meta"])
            elif e["op"] == "remove":
                n = len(e["path"])
                for p in [p for p in at if list(p[:n]) == e["path"]]:
                    del at[p]
        return at

    def open_ops(self):
        if self.kind == "fs":
            self.n += 1
            d = os.path.join(self.base, "h%d" % self.n)
            return d, [{"op": "open_or_create", "h": 0, "dir": d},
                       {"op": "open", "h": 1, "dir": d}]
        o = dict({"op": "mem", "h": 0}, **self.mem)
        if self.suffix != ".json":
            o["entry"] = {"zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
                          "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
                          "metadata_key_suffix": self.suffix, "extensions": []}
        return None, [o]

    def shows(self, e, seen, want):
        if want["t"] == "any":
            return seen["t"] == "ok"
        if want["t"] == "err":
            return seen["t"] == "err" and want["kind"] in ("any", seen["v"])
        if seen["t"] != "ok":
            return False
        w, v, k = want["v"], seen["v"], e["op"]
        if k in ("exists", "array_exists", "delete_chunk"):
            return v == w
        if k == "list_attributes":
            return pairs(v) == sorted(w)
        if k == "get_meta":
            m, a = meta_of(v)
            return m == self.meta_texts[w["meta"]] and a == sorted(w["attrs"])
        if k == "list_nodes":
            return sorted(v) == sorted(w)
        if k in ("read_chunk", "read_chunk_into", "buf_like", "buf_size"):
            c = World.chunk_conv(v)
            return c["some"] == w["some"] and self.cells(c["data"], w["data"]) and \
                (c["pos"] == w["pos"] or (k == "read_chunk" and not w["some"]))
        if k == "read_region":
            return v["shape"] == e["shape"] and self.cells(v["data"], w)
        return True

    @staticmethod
    def cells(seen, want):
        return len(seen) == len(want) and all(b == "?" or a == b for a, b in zip(seen, want))

    def stored(self, dump, metas):
        docs, vals = [], []
        for k, hx in dump["v"]:
            if self.kind == "fs" and k == "zarr.json":
                continue
            b = bytes.fromhex(hx)
            if k.startswith("meta/"):
                try:
                    doc = json.loads(b)
                    m, a = meta_of(doc)
                    docs.append([k, m, a])
                except Exception:
                    docs.append([k, "unreadable", []])
            else:
                m = next(iter(self.metas.values()))
                d = inflate(m.codec, b, self.h)
                vals.append([k, split_hex(d.hex(), 1, True) if d is not None else ["undecodable"]])
        return sorted(docs), sorted(vals)

    def expected(self, t):
        docs = sorted([d["key"], self.meta_texts.get(d["meta"], d["meta"]), sorted(d["attrs"])]
                      for d in t["docs"])
        vals = sorted(([v["key"], v["data"]] for v in t["vals"]), key=lambda v: v[0])
        return docs, vals

    def state_ok(self, dump, t):
        d, v = self.stored(dump, None)
        wd, wv = self.expected(t)
        return d == wd and len(v) == len(wv) and all(
            a[0] == b[0] and self.cells(a[1], b[1]) for a, b in zip(v, wv))

    def buf_ops(self, t):
        return [{"op": "buf_get", "b": "b", "T": "u8"} for _ in t["bufs"]]

    def bufs_ok(self, res, t):
        return all(r["t"] == "ok" and r["v"]["some"] and r["v"]["pos"] == b["pos"]
                   and self.cells(r["v"]["data"], b["data"]) for r, b in zip(res, t["bufs"]))

    def group(self, tests, done=None):
        """All tests from one state: (what, test) of each failure."""
        bad = []
        hist = tests[0]["hist"]
        at = self.arrays_after(hist)

        def begin():
            d, ops = self.open_ops()
            ops = ops + [{"op": "buf_drop", "b": "b", "T": "u8"}]
            now = {}
            for i, e in enumerate(hist):
                now = self.arrays_after(hist[:i])
                ops.append(self.op(e, lambda p, now=now: now[p]))
            return d, ops
        by_op = {}
        for t in tests:
            by_op.setdefault(canon(t["op"]), []).append(t)
        # a call is without effect if all its allowed outcomes are
        quiet = [ts for ts in by_op.values() if all(t["same"] for t in ts)]
        loud = [ts for ts in by_op.values() if not all(t["same"] for t in ts)]
        runs = []
        if quiet:
            runs.append(quiet)
        runs += [[ts] for ts in loud]
        for run in runs:
            d, ops = begin()
            n0 = len(ops)
            for ts in run:
                ops.append(self.op(ts[0]["op"], lambda p: at[p]))
            n1 = len(ops)
            ops.append({"op": "dump", "h": 0})
            ops += self.buf_ops(run[-1][0])
            res = self.h.many(ops)
            bad_open = [r for r in res[:2] if r["t"] != "ok"]
            if bad_open:
                bad.append(("opening failed: %s" % bad_open, ops))
                continue
            okay = [list(ts) for ts in run]
            for ts, r in zip(okay, res[n0:n1]):
                fit = [t for t in ts if self.shows(t["op"], r, t["res"])]
                if not fit:
                    bad.append(("after %s, %s gave %s; allowed: %s" % (
                        json.dumps(hist), json.dumps(ts[0]["op"]), json.dumps(r)[:600],
                        json.dumps([t["res"] for t in ts])[:600]), ops))
                ts[:] = fit
            last = okay[-1] or run[-1]
            if not any(self.state_ok(res[n1], t) for t in last):
                bad.append(("after %s and %s the store holds %s; expected %s" % (
                    json.dumps(hist), json.dumps([ts[0]["op"]["op"] for ts in run]),
                    json.dumps(self.stored(res[n1], None))[:900],
                    json.dumps(self.expected(last[0]))[:900]), ops))
            if not self.bufs_ok(res[n1 + 1:], last[0]):
                bad.append(("after %s and %s the buffers hold %s; expected %s" % (
                    json.dumps(hist), json.dumps(run[-1][0]["op"]), json.dumps(res[n1 + 1:])[:600],
                    json.dumps(last[0]["bufs"])[:600]), ops))
            self.tests += len(run)
            if d and self.n % 50 == 0:
                shutil.rmtree(self.base, ignore_errors=True)
                os.makedirs(self.base)
                os.chown(self.base, NOBODY, NOBODY)
        return bad


def replay_model(rep, profile, only=None, kind="fs", suffix=".json", mem=None, codec="raw",
                 conf=None, procs=6, maxlen=20, timeout=600, stop_after=3):
    """Replay every transition of a profile; `only` selects tests."""
    groups = tests_of(rep, profile, suffix, maxlen, timeout)
    build()
    todo = [g for g in groups.values()]
    if only:
        def select(g):
            ops = {canon(t["op"]) for t in g if only(t)}
            return [t for t in g if canon(t["op"]) in ops]
        todo = [select(g) for g in todo]
        todo = [g for g in todo if g]
    lock = threading.Lock()
    bad, total, errors = [], [0], []

    def work():
        rp = None
        try:
            with lock:
                rp = Replayer(make_metas(codec, conf), kind, suffix, mem)
            while True:
                with lock:
                    if not todo or len(bad) >= stop_after or errors:
                        break
                    g = todo.pop()
                try:
                    b = rp.group(g)
                except HarnessDied as e:
                    b = [("the process died: %s" % e, [e.op])]
                    rp.h.close()
                    rp.h = Harness()
                    rp.with_attrs = {}
                    for m in rp.metas.values():
                        rp.h.many([m.define()])
                with lock:
                    bad.extend(b)
        except Exception as e:
            with lock:
                errors.append(e)
        finally:
            if rp:
                with lock:
                    total[0] += rp.tests
                rp.h.close()
    ts = [threading.Thread(target=work) for _ in range(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    rep.replays += total[0]
    for what, ops in bad[:stop_after]:
        rep.violation("replay of %s: %s" % (profile, what), {"profile": profile, "ops": ops})
    if groups:
        g = next(iter(groups.values()))
        rep.sample({"replayed": profile, "test": {k: g[0][k] for k in ("hist", "op", "res")}})
    return total[0]


def rerun(replay):
    """Show what the calls of a reported violation return."""
    if "op" in replay:
        h = Harness(preload=bool(replay.get("preload")))
        op = dict(replay["op"])
        if "root" in op:
            op["root"] = fresh_dir("rerun")
        try:
            res = h.many([op])[0]
            print(json.dumps(op)[:2000])
            v = res.get("v")
            for x in v.get("hists", v.get("runs", [v])) if isinstance(v, dict) else [v]:
                print("    ", json.dumps(x)[:4000])
        finally:
            h.close()
        return 0
    h = Harness()
    try:
        for op in replay.get("ops", []):
            if "dir" in op:
                op = dict(op, dir=rerun_dir(op["dir"]))
            print(json.dumps(op)[:400])
            print("    ", json.dumps(h.many([op])[0])[:600])
    finally:
        h.close()
    return 0


_dirs = {}


def rerun_dir(d):
    if d not in _dirs:
        _dirs[d] = fresh_dir("rerun")
    return _dirs[d]
