"""Calls under chosen schedules: what is executed, and recorded for
ConcurrentTrace.  Nothing here judges a result but TLC."""
from world import *
import concurrent.futures as cf

SETUP, AFTER = 8, 9     # participants of what comes before and after
PROCS = 8


class Dummy:
    def close(self):
        pass


class Scene:
    """A set of scripts to run at the same time."""

    def __init__(self, name, r, handles=2):
        self.name, self.r = name, r
        self.w = World("c", handles=handles, harness=Dummy())
        self.w.dir = "$D"
        self.defs, self.before, self.scripts, self.end = [], [], [], []
        self.opens = [{"op": "open_or_create", "h": 0, "dir": "$D"}]
        self.opens += [{"op": "open", "h": h, "dir": "$D"} for h in range(1, handles)]
        self.opts = {}

    def _take(self):
        """The calls planned, with their event builders."""
        out = []
        for op, f in self.w.plan:
            if op["op"] == "defmeta":
                self.defs.append(op)
            else:
                out.append((op, f))
        self.w.plan = []
        return out

    def setup(self, fn, *a, **k):
        fn(self.r, *a, **k)
        self.before += self._take()
        return self

    def script(self, *calls):
        for c in calls:
            c()
        self.scripts.append(self._take())
        return self

    def after(self, *calls):
        for c in calls:
            c()
        self.end += self._take()
        return self

    # calls by name, to be made later
    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        f = getattr(self.w, name)
        return lambda *a, **k: (lambda: f(self.r, *a, **k))

    # other software
    def lock(self, key, ex, id=1):
        return lambda: self.w.call({"op": "lock", "file": "$D/" + key, "ex": ex, "id": id},
                                   {"op": "lock", "key": key, "ex": ex, "id": id})

    def unlock(self, id=1):
        return lambda: self.w.call({"op": "unlock", "id": id}, {"op": "unlock", "id": id})

    def wait_for(self, who):
        return lambda: self.w.call({"op": "await", "who": who}, {"op": "await", "who": who})

    def peek(self, key, id=1):
        def build(res):
            v = res["v"]
            return {"op": "peek", "id": id, "some": v["some"], "res": {"t": "ok", "v": ""},
                    "token": hashlib.sha1(v["hex"].encode()).hexdigest()[:12]}
        return lambda: self.w.do({"op": "peek", "file": "$D/" + key, "id": id}, build)

    def probe(self):
        return lambda: self.w.call({"op": "probe", "dir": "$D"}, {"op": "probe"})

    def opening(self, how, h):
        return lambda: self.w.call({"op": how, "h": h, "dir": self.w.dir}, {"op": how}, lambda v: "", h=h)

    def mkop(self):
        op = {"op": "explore",
              "setup": self.opens + self.defs + [o for o, _ in self.before],
              "scripts": [[o for o, _ in s] for s in self.scripts],
              "after": [o for o, _ in self.end]}
        op.update(self.opts)
        return op

    def history(self, hist):
        """The recorded history as the specification has it."""
        ev = []

        def add(k, t, e):
            if k == "inv":
                e = {x: y for x, y in e.items() if x != "res"}
            ev.append({"k": k, "t": t, "e": e})
        none = {"t": "ok", "v": ""}
        known = [({"op": "open_or_create"}, None)] if self.opens else []
        for op, f in known + self.before:
            if f is None:
                e = {"op": "open_or_create", "res": none}
            else:
                e = f({"t": "ok", "v": True if op["op"] == "delete_chunk" else ""})
            add("inv", SETUP, e)
            add("ret", SETUP, e)
        done = {}
        for x in hist["ev"]:
            if x[0] == "ret" and x[2] >= 0:
                done[(x[1], x[2])] = x[3]
        for x in hist["ev"]:
            t, i = x[1], x[2]
            if i < 0:       # a participant that died
                ev.append({"k": x[0], "t": t, "e": {"op": "died", "res": {"t": "panic", "v": ""}}})
                continue
            op, f = self.scripts[t][i]
            e = f(done[(t, i)])
            if x[0] == "inv":
                if op["op"] != "peek":
                    e = dict(f({"t": "err", "v": ""}))
            add(x[0], t, e)
        for (op, f), r in zip(self.end, hist["after"]):
            e = f(r)
            add("inv", AFTER, e)
            add("ret", AFTER, e)
        return {"ev": ev, "dead": hist["dead"]}


def explore_all(rep, scenes, ms=60000):
    """Run the scenes; [(scene, raw history, history)]."""
    build()
    shim()
    out, stats = [], {"schedules": 0, "points": 0, "exhausted": 0, "scenes": len(scenes), "unscheduled": 0}
    lock = threading.Lock()
    todo = list(enumerate(scenes))[::-1]
    errors = []

    def worker(k):
        h = None
        try:
            while True:
                with lock:
                    if not todo or errors:
                        break
                    i, s = todo.pop()
                if h is None:
                    h = Harness(preload=True, timeout=max(120, 3 * ms // 1000), cpu=k)
                op = dict(s.mkop(), root=fresh_dir("c"), ms=ms, seed=SEED * 1000 + i)
                try:
                    v = h.many([op])[0]["v"]
                except HarnessDied as e:
                    with lock:
                        rep.violation("the process died: %s" % str(e)[:600], {"ops": [op]})
                    h = None
                    continue
                shutil.rmtree(os.path.join(scratch(), os.path.relpath(op["root"], scratch()).split("/")[0]),
                              ignore_errors=True)
                with lock:
                    stats["schedules"] += v["runs"]
                    stats["points"] += v["points"]
                    stats["exhausted"] += v["exhausted"]
                    stats["unscheduled"] += v["stolen"]
                    for x in v["hists"]:
                        out.append((i, x))
        except Exception as e:
            with lock:
                errors.append(e)
        finally:
            if h:
                h.close()
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(min(PROCS, len(scenes)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    out.sort(key=lambda x: x[0])
    return [(scenes[i], x, scenes[i].history(x)) for i, x in out], stats


def accepted(rep, module, hists, env, parts=4, timeout=800):
    """Which histories are behaviours: index -> the set of deviations each
    acceptance took."""
    if not hists:
        return {}
    texts = {}
    for i, x in enumerate(hists):
        texts.setdefault(json.dumps(x), []).append(i)
    uniq = list(texts)
    parts = max(1, min(parts, len(uniq) // 20 + 1))
    out = {}

    def one(k):
        mine = uniq[k::parts]
        path = fresh("hist") + ".ndjson"
        with open(path, "w") as f:
            f.write("".join(t + "\n" for t in mine))
        r = tlc(module, env=dict(env, TRACE=path), workers=2, timeout=timeout, heap="4g")
        if not r.ok:
            raise ToolError("TLC on %s: %s" % (module, r.out[-3000:]))
        os.remove(path)
        got = {}
        for m in re.finditer(r'<<"DONE",\s*(\d+),\s*\{([^}]*)\}', r.out):
            tags = frozenset(re.findall(r'"([^"]+)"', m.group(2)))
            got.setdefault(int(m.group(1)) - 1, set()).add(tags)
        return mine, got, r
    with cf.ThreadPoolExecutor(parts) as ex:
        for mine, got, r in ex.map(one, range(parts)):
            rep.states += r.distinct
            rep.transitions += r.generated
            for j, tags in got.items():
                for i in texts[mine[j]]:
                    out[i] = tags
    return out


def show(hist, n=40):
    """A history in short, for people."""
    out = []
    for e in hist["ev"]:
        x = e["e"]
        a = " ".join("%s" % (x[k],) for k in ("path", "pos", "attrs", "key", "data") if k in x)
        out.append("%s%s %s %s%s" % (e["t"], "(" if e["k"] == "inv" else ")", x["op"], a[:120],
                                    "" if e["k"] == "inv" else " -> %s" % json.dumps(x["res"])[:160]))
    return out


def judge(rep, scenes, ms=60000):
    """Decide every history the scenes produce."""
    got, stats = explore_all(rep, scenes, ms)
    hists = [x[2] for x in got]
    ok = accepted(rep, "ConcurrentTrace", hists, {"DEVIATE": "0"})
    bad = [i for i in range(len(hists)) if i not in ok]
    dev = accepted(rep, "ConcurrentTrace", [hists[i] for i in bad], {"DEVIATE": "1"})
    rep.traces += len(hists)
    rep.events += sum(len(x["ev"]) for x in hists)
    per = rep.extra.setdefault("concurrency", {"schedules": 0, "points": 0, "exhausted": 0, "scenes": 0,
                                               "unscheduled": 0, "histories": 0})
    for k, v in stats.items():
        per[k] += v
    per["histories"] += len(hists)
    for s, raw, x in got[:2]:
        rep.sample({"scene": s.name, "history": show(x)})
    said = set()
    for j, i in enumerate(bad):
        s, raw, x = got[i]
        tags = dev.get(j)
        tag = "+".join(sorted(min(tags, key=lambda t: (len(t), sorted(t))))) if tags else ""
        if (s.name, tag) in said:
            continue
        said.add((s.name, tag))
        what = "scene %s: a history the specification does not have%s:\n  %s" % (
            s.name, " (deadlock)" if x["dead"] else "", "\n  ".join(show(x)))
        replay = {"op": dict(s.mkop(), sched=raw["sched"]), "history": x, "tag": tag, "scene": s.name,
                  "preload": True}
        # each deviation must be a listed finding
        one = [t for t in tag.split("+") if t]
        if one and all(any(k["tag"] == t for k in rep.known_list) for t in one):
            for t in one:
                rep.violation(what, dict(replay, tag=t))
        else:
            rep.violation(what, dict(replay, tag=""))
    return got
