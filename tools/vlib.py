"""Shared machinery of the checks: building the harness from /repo's working
tree, running operations on it, running TLC, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, random, threading, itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NOBODY = 65534


class ToolError(Exception):
    """Something of ours does not work: neither a pass nor a violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vz.")
        os.chmod(_scratch, 0o755)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


_n = itertools.count(1)


def fresh(name):
    """A new path in the scratch directory."""
    return os.path.join(scratch(), "%s.%d" % (name, next(_n)))


def fresh_dir(name, deep=6):
    """A directory of an unprivileged user, well below the scratch directory,
    so that paths with parent components do not lead out of the latter."""
    d = fresh(name)
    p = d
    for i in range(deep):
        p = os.path.join(p, "n%d" % i)
    os.makedirs(p)
    q = p
    while q != scratch():
        os.chown(q, NOBODY, NOBODY)
        q = os.path.dirname(q)
    return p


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace", **kw)


_bins = {}


def build(feature=None):
    """Build the harness against /repo's working tree; the binary's path."""
    if feature in _bins:
        return _bins[feature]
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    target = os.environ.get("VERIF_TARGET") or os.path.join(VERIF, "harness", "target")
    env["CARGO_TARGET_DIR"] = target
    man = os.path.join(VERIF, "harness", "Cargo.toml")
    if REPO != "/repo":   # development only: checks are registered without it
        alt = fresh("harness")
        shutil.copytree(os.path.join(VERIF, "harness"), alt,
                        ignore=shutil.ignore_patterns("target"))
        man = os.path.join(alt, "Cargo.toml")
        t = open(man).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(man, "w").write(t)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", man]
    cmd += ["--features", feature or "full"]
    r = sh(cmd, env=env, timeout=800)
    if r.returncode:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    dst = os.path.join(scratch(), "zh-" + (feature or "default"))
    shutil.copy(os.path.join(target, "debug", "zh"), dst)
    os.chmod(dst, 0o755)
    _bins[feature] = dst
    return dst


def alternative(rep, feature):
    """A build with other features; the default one (None) if it does not build,
    which its users can see but the properties do not speak of."""
    build()
    try:
        build(feature)
        return feature
    except ToolError:
        rep.extra.setdefault("builds_failing", []).append(feature)
        return None


_shim = None


def shim():
    """Build the system call shim."""
    global _shim
    if _shim is None:
        dst = os.path.join(scratch(), "shim.so")
        r = sh(["gcc", "-O1", "-g", "-shared", "-fPIC", "-Wall", "-o", dst,
                os.path.join(VERIF, "shim", "shim.c"), "-ldl", "-lpthread"])
        if r.returncode:
            raise ToolError("shim does not build:\n" + r.stdout)
        os.chmod(dst, 0o755)
        _shim = dst
    return _shim


def drop():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.umask(0o022)


class Harness:
    """A process executing operations as an unprivileged user."""

    def __init__(self, feature=None, env=None, preload=False, timeout=120, cpu=None):
        self.timeout = timeout

        def before():
            # who takes turns had better stay on one processor
            if cpu is not None:
                mine = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, {mine[cpu % len(mine)]})
            drop()
        e = dict(os.environ, RUST_BACKTRACE="0")
        if preload:
            e["LD_PRELOAD"] = shim()
        e.update(env or {})
        self.p = subprocess.Popen([build(feature)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e, text=True,
                                  preexec_fn=before, cwd="/", bufsize=1 << 16)

    def many(self, ops):
        """Run operations, returning their results."""
        out, hung = [], []

        def feed():
            try:
                for i in range(0, len(ops), 200):
                    part = ops[i:i + 200]
                    self.p.stdin.write("".join(json.dumps(o) + "\n" for o in part) + "\n")
                    self.p.stdin.flush()
            except (BrokenPipeError, ValueError, OSError):
                pass
        feeder = threading.Thread(target=feed, daemon=True)
        feeder.start()
        # an operation that never returns ends the process
        for k, o in enumerate(ops):
            if k % 200 == 0:
                timer = threading.Timer(self.timeout, lambda: (hung.append(1), self.p.kill()))
                timer.daemon = True
                timer.start()
            line = self.p.stdout.readline()
            if k % 200 == 199 or k == len(ops) - 1 or not line.endswith("\n"):
                timer.cancel()
            if not line.endswith("\n"):
                rc = self.p.wait()
                if rc == 3:
                    raise ToolError("harness: %s" % json.dumps(o)[:300])
                raise HarnessDied(o, "no answer" if hung else rc)
            out.append(json.loads(line))
        feeder.join()
        return out

    def __call__(self, op, **kw):
        return self.many([dict(kw, op=op)])[0]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
            self.p.wait()


class HarnessDied(Exception):
    def __init__(self, op, rc):
        Exception.__init__(self, "the process ended with %s in %s" % (rc, json.dumps(op)[:300]))
        self.op, self.rc = op, rc


# --- TLC ----------------------------------------------------------------------

class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = re.search(
            r"Error: (Invariant \S+ is violated|Action property .* is violated|"
            r"Temporal properties were violated|Deadlock reached|.*[Pp]ostcondition.*)", out)

    def values(self):
        """Values printed with PrintT, as text."""
        return [l for l in self.out.splitlines() if l.startswith('"') or l.startswith("<<")]


def tlc(module, cfg=None, env=None, workers=None, args=(), timeout=600, heap="6g",
        jvm=(), spec_dir=SPECS):
    meta = fresh("tlc")
    os.makedirs(meta)
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = " ".join(
        ["-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta] + list(jvm))
    e.update(env or {})
    cmd = ["tlc", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or "auto"),
           "-config", os.path.join(spec_dir, cfg or module + ".cfg")]
    cmd += list(args) + [os.path.join(spec_dir, module + ".tla")]
    t = time.time()
    try:
        r = sh(cmd, env=e, cwd=spec_dir, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.stdout, r.returncode, time.time() - t)


def check_model(rep, module, cfg, timeout=600, expect_ok=True, **kw):
    """Exhaustive check of a design; counts go to the report."""
    r = tlc(module, cfg, timeout=timeout, **kw)
    if not r.ok:
        # The design itself is fixed: its failure is ours, not the library's.
        raise ToolError("model %s/%s: %s" % (module, cfg, r.out[-3000:]))
    rep.states += r.distinct
    rep.transitions += r.generated
    rep.models.append({"model": cfg, "distinct_states": r.distinct,
                       "states_generated": r.generated, "depth": r.depth,
                       "wall_s": round(r.wall, 1)})
    return r


def check_models(rep, good, bad=(), timeout=700):
    """Designs that have their properties, and variants of designs that must not
    have them (or the model would decide nothing): (module, cfg, env) each."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(True,) + tuple(x) for x in good] + [(False,) + tuple(x) for x in bad]

    def one(j):
        ok, module, cfg, env = j
        return tlc(module, cfg, env=env, workers=3, timeout=timeout, heap="5g")
    with ThreadPoolExecutor(4) as ex:
        results = list(ex.map(one, jobs))
    failed = []
    for (ok, module, cfg, env), r in zip(jobs, results):
        name = cfg + "".join(" %s=%s" % x for x in sorted(env.items()))
        if ok:
            if not r.ok:
                raise ToolError("model %s: %s" % (name, r.out[-3000:]))
            rep.states += r.distinct
            rep.transitions += r.generated
            rep.models.append({"model": name, "distinct_states": r.distinct, "states_generated": r.generated,
                               "depth": r.depth, "wall_s": round(r.wall, 1)})
        else:
            if not re.search(r"Error: (Invariant|Action property|Temporal)", r.out):
                raise ToolError("model %s should not have its properties: %s" % (name, r.out[-3000:]))
            failed.append(name)
    if failed:
        rep.extra["wrong_designs_refuted"] = rep.extra.get("wrong_designs_refuted", []) + failed


class Rejected(Exception):
    def __init__(self, line, event, said):
        Exception.__init__(self, "line %s: %s" % (line, said[:600]))
        self.line, self.event, self.said = line, event, said


def validate(rep, module, events, cfg=None, env=None, timeout=600, count=1, keep=None, **kw):
    """Is the recording a behaviour of the trace specification?  Raises Rejected."""
    path = fresh("trace") + ".ndjson"
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    en = {"TRACE": path}
    en.update(env or {})
    r = tlc(module, cfg, env=en, timeout=timeout, workers=kw.pop("workers", 1), **kw)
    rep.states += r.distinct
    rep.transitions += r.generated
    if r.ok:
        rep.traces += count
        rep.events += len(events)
        os.remove(path)
        return r
    m = re.search(r'<<\s*"REJECTED",\s*(\d+),(.*)', r.out, re.S)
    if m:
        i = int(m.group(1))
        said = re.split(r"\n(?:Finished|Error|Progress|Model|The |\d+ states)", m.group(2))[0]
        raise Rejected(i, events[i - 1] if 0 < i <= len(events) else None,
                       re.sub(r"\s+", " ", said))
    raise ToolError("TLC on %s: %s" % (module, r.out[-3000:]))


# --- reports --------------------------------------------------------------------

class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.replays = 0
        self.models, self.samples, self.violations, self.known = [], [], [], []
        self.extra = {}
        self.distinct = set()
        self.known_list = load_known(prop)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, replay):
        """Record a violation, or a known finding."""
        for k in self.known_list:
            if k["match"](what, replay):
                if k["text"] not in self.known:
                    self.known.append(k["text"])
                return False
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": SEED, "tier": self.tier,
                       "replay": replay}, f, indent=1)
        self.violations.append((what, p))
        return True

    def finish(self, level="model_checking", assumptions=(), exhaustive=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces + self.replays,
               "recorded_traces": self.traces, "recorded_events": self.events,
               "spec_behaviours_replayed": self.replays,
               "models": self.models, "samples": self.samples}
        cov.update(self.extra)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": level,
              "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations[:5]:
            print("  " + what[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(prop):
    """Listed findings of a property; each says by a tag what it matches."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) tag=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                tag = m.group(2)
                out.append({"tag": tag, "text": m.group(3),
                            "match": (lambda what, replay, tag=tag:
                                      isinstance(replay, dict) and replay.get("tag") == tag)})
    return out


def canon(v):
    """Canonical text of a JSON value."""
    return json.dumps(v, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def rng(*salt):
    return random.Random("%s/%s" % (SEED, "/".join(str(s) for s in salt)))
