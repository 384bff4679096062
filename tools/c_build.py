"""Check of what builds with different features make of one hierarchy: each call
by a program of some build is one recorded event, decided by TLC (Builds.tla)."""
import hashlib
from vlib import *
from c_pure import many, GZIP
from world import TYPES, RAWS, array_doc, dtype_str, compressor
from hist import SIZES, big_data
from world import elem

# the harness built with them, and what they are
BUILDS = {None: ["bzip", "gzip", "lz", "xz"], "pure": ["bzip", "gzip_pure", "lz_pure", "xz"],
          "bare": [], "some": ["bzip", "lz_pure"]}
PARAM = {"gzip": "level", "bzip2": "blockSize", "lz4": "blockSize", "xz": "preset"}
CONFS = {"gzip": [-1, 0, 1, 6, 9], "bzip2": [1, 5, 9], "lz4": [0, 65536, 65537, 2**20, 2**22],
         "xz": [0, 1, 6]}
NAMES = ["raw", "Raw", "gzip", "Gzip", "bzip2", "Bzip2", "lz4", "Lz4", "xz", "Xz"]
WRONG = ["", "zstd", "blosc", "lz", "gz", "bzip", "zip", "raw ", " raw", "xz\n", "gzip\u0000", "lz4hc", "lz5",
         "gzi", "zgzip", "none", "default", "\u00e9", "\u212a", "ra\u1d42", "lzma", "deflate", "bzip22", "x", "z",
         "gzip/1.0", "rawraw", "xzxz", "gzip_pure", "lz_pure"]


def offers(b, codec):
    need = {"raw": [], "bzip2": ["bzip"], "gzip": ["gzip", "gzip_pure"], "lz4": ["lz", "lz_pure"], "xz": ["xz"]}
    return not need[codec] or any(f in BUILDS[b] for f in need[codec])


def flat(ser):
    """A codec as serialised: its name and its parameter."""
    if ser is None:
        return "raw", ""
    c = ser["codec"]
    conf = ser.get("configuration")
    v = list(conf.values()) if isinstance(conf, dict) else []
    return ("gzip" if c == GZIP else c), str(v[0]) if v else ""


def token(data):
    return hashlib.sha1("".join(data).encode()).hexdigest()[:16]


class Programs:
    def __init__(self, builds):
        self.hs = {b: Harness(b) for b in builds}
        self.events, self.origin = [], []
        self.dir = fresh_dir("builds")
        for b in self.hs:
            self.run(b, {"op": "open_or_create", "h": 0, "dir": self.dir})
        self.last = self.look()

    def run(self, b, op):
        return self.hs[b].many([op])[0]

    def look(self):
        return canon(self.run(None, {"op": "tree", "dir": self.dir})["v"])

    def event(self, b, ops, r, **e):
        now = self.look()
        e.update(b=BUILDS[b], r=dict({"t": "ok" if r.pop("ok") else "err"}, **r), touched=now != self.last)
        self.last = now
        self.events.append(e)
        self.origin.append([{"build": b or "default", "ops": ops}])

    def parse(self, b, name):
        op = {"op": "codec_name", "name": name}
        x = self.run(b, op)
        codec, conf = flat(x["v"]["ser"]) if x["t"] == "ok" else ("", "")
        self.event(b, [op], {"ok": x["t"] == "ok", "panic": x["t"] == "panic", "codec": codec, "conf": conf},
                   c="parse", name=name)

    def show(self, b, codec, conf):
        op = {"op": "codec", "doc": compressor(codec, {PARAM[codec]: conf} if codec in PARAM else None)
              or {"codec": "raw", "configuration": None}}
        x = self.run(b, op)
        self.event(b, [op], {"ok": x["t"] == "ok", "name": x["v"]["name"] if x["t"] == "ok" else ""},
                   c="show", codec=codec)

    def create(self, b, path, doc, codec, conf):
        ops = [{"op": "defmeta", "m": 1, "doc": doc}, {"op": "create_array", "h": 0, "m": 1, "path": path}]
        x = self.run(b, ops[0])
        if x["t"] == "ok":
            x = self.run(b, ops[1])
        self.event(b, ops, {"ok": x["t"] == "ok"}, c="create", path=path, codec=codec, conf=conf)

    def meta(self, b, path):
        op = {"op": "get_meta", "h": 0, "path": path, "into": 1}
        x = self.run(b, op)
        codec, conf = flat(x["v"].get("compressor")) if x["t"] == "ok" else ("", "")
        return x["t"] == "ok", codec, conf, op

    def call(self, b, what, path, arr=None, r=None):
        at = {"h": 0, "path": path}
        if what == "meta":
            ok, codec, conf, op = self.meta(b, path)
            self.event(b, [op], {"ok": ok, "codec": codec, "conf": conf}, c="meta", path=path)
        elif what == "exists":
            op = dict(at, op=r.choice(["exists", "array_exists"]))
            x = self.run(b, op)
            self.event(b, [op], {"ok": x["t"] == "ok", "is": x["v"] if x["t"] == "ok" else False},
                       c=op["op"], path=path)
        elif what in ("write", "read"):
            pos = [r.randrange(2) for _ in arr["cs"]]
            ok, _, _, op = self.meta(b, path)
            ops, got, tok = [op], None, ""
            if what == "write":
                data = big_data(r, arr["t"], arr["n"]) if arr["n"] > 60 else \
                    [elem(r, arr["t"]) for _ in range(arr["n"])]
                tok = token(data)
            if ok:
                o = dict(at, op=what + "_chunk", m=1, T=arr["t"], pos=pos)
                if what == "write":
                    o["data"] = data
                x = self.run(b, o)
                ops.append(o)
                ok = x["t"] == "ok"
                if ok and what == "read":
                    got = token(x["v"]["data"]) if x["v"]["some"] else "none"
            e = {"c": what, "path": path, "pos": str(pos)}
            if what == "write":
                e["data"] = tok
                self.event(b, ops, {"ok": ok}, **e)
            else:
                self.event(b, ops, {"ok": ok, "data": got or ""}, **e)
        elif what == "attrs":
            op = dict(at, op="list_attributes")
            x = self.run(b, op)
            self.event(b, [op], {"ok": x["t"] == "ok", "attrs": canon(x["v"]) if x["t"] == "ok" else ""},
                       c="attrs", path=path)
        elif what == "setattrs":
            v = {"k": r.choice([1, "x", [1, 2], {"codec": "raw"}, r.randrange(1000)])}
            op = dict(at, op="set_attributes", attrs=v)
            x = self.run(b, op)
            self.event(b, [op], {"ok": x["t"] == "ok"}, c="setattrs", path=path, attrs=canon(v))
        elif what == "remove":
            op = dict(at, op="remove")
            x = self.run(b, op)
            self.event(b, [op], {"ok": x["t"] == "ok"}, c="remove", path=path)

    def close(self):
        for h in self.hs.values():
            h.close()


def array_of(r, codec):
    t = r.choice(list(TYPES) + list(RAWS))
    conf = r.choice(CONFS[codec]) if codec in CONFS else None
    n = r.choice([1, 2, 5, 16, 255, 1000]) if r.random() < .8 else r.choice(SIZES)
    cs = [n] if n % 2 or r.random() < .6 else [2, n // 2]
    doc = array_doc([2 * c for c in cs], cs, dtype_str(t, r.random() < .5), codec,
                    None if conf is None else {PARAM[codec]: conf}, r.choice("CF"), r.choice("/."))
    return {"t": t, "n": n, "cs": cs, "doc": doc, "conf": "" if conf is None else str(conf), "codec": codec}


def program(ps, r, builds, steps):
    arrays = {}
    for i in range(steps):
        b, x = r.choice(builds), r.random()
        if len(arrays) < 3 or x < .06:
            p, a = "/a%d" % len(ps.events), array_of(r, r.choice(["raw"] + list(CONFS) * 2))
            if x < .04 and arrays:
                q = r.choice(sorted(arrays))
                ps.call(b, "remove", q)
                del arrays[q]
            ps.create(b, p, a["doc"], a["codec"], a["conf"])
            if offers(b, a["codec"]):
                arrays[p] = a
            continue
        p = r.choice(sorted(arrays))
        k = r.choice(["write"] * 4 + ["read"] * 5 + ["meta", "exists", "attrs", "setattrs"])
        ps.call(b, k, p, arrays[p], r)
        if k == "write":        # every build looks at it
            for c in builds:
                ps.call(c, "read", p, arrays[p], r)
    for p in sorted(arrays):
        for b in builds:
            ps.call(b, "meta", p)
            for _ in range(2):
                ps.call(b, "read", p, arrays[p], r)


def names(ps, r, builds, n):
    for b in builds:
        for s in NAMES + WRONG:
            ps.parse(b, s)
        for _ in range(n):
            s = r.choice(NAMES)
            k = r.random()
            if k < .6:
                s = "".join(r.choice([c.upper(), c.lower()]) for c in s)
            else:
                i = r.randrange(len(s))
                s = s[:i] + r.choice(["", "x", " ", s[i] * 2, "\u0131", "\u017f"]) + s[i + r.randrange(2):]
            ps.parse(b, s)
        for c in ["raw"] + list(CONFS):
            for conf in CONFS.get(c, [None]):
                ps.show(b, c, conf)


def c25(rep, tier):
    check_model(rep, "MCBuilds", many(tier, "MCBuilds.cfg", "MCBuildsDeep.cfg"))
    builds = [None] + [b for b in BUILDS if b and alternative(rep, b)]
    rep.extra["builds"] = [b or "default" for b in builds]
    found, errors, lock = [], [], threading.Lock()

    def work(i):
        r = rng("C25", tier, i)
        ps = None
        try:
            ps = Programs(builds)
            if i == 0:
                names(ps, r, builds, many(tier, 150, 900))
            program(ps, r, builds, many(tier, 150, 900))
            v = Report.__new__(Report)
            v.states = v.transitions = v.traces = v.events = 0
            try:
                validate(v, "BuildsTrace", ps.events)
            except Rejected as e:
                with lock:
                    found.append((ps, e))
            with lock:
                for k in ("states", "transitions", "traces", "events"):
                    setattr(rep, k, getattr(rep, k) + getattr(v, k))
                for e in ps.events[:1]:
                    rep.sample({"recorded": e})
        except HarnessDied as e:
            with lock:
                found.append((ps, e))
        except Exception as e:
            with lock:
                errors.append(e)
        finally:
            if ps:
                ps.close()
    n = many(tier, 7, 28)
    todo = list(range(n))

    def worker():
        while True:
            with lock:
                if not todo:
                    return
                i = todo.pop(0)
            work(i)
    ts = [threading.Thread(target=worker) for _ in range(7)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    for ps, e in found:
        what = ("the process died: %s" % e if isinstance(e, HarnessDied) else
                "recorded result is not what the specification says: %s" % json.dumps(e.event)[:1200])
        line = getattr(e, "line", None)
        rep.violation(what, {"calls": sum(ps.origin[:line], []) if ps and line else [],
                             "event": getattr(e, "event", None)})


CHECKS = {"C25": c25}
