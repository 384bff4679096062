"""Floating point numbers in documents, decided by Numbers: attributes and fill
values are what was given, bit by bit."""
import struct
from conc import *
from world import *


def bits_of(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def text_of(x):
    """Digits and exponent of a number's shortest text, or more of them."""
    t = repr(abs(x))
    m, _, e = t.partition("e")
    whole, _, frac = m.partition(".")
    digits = (whole + frac).lstrip("0")
    if len(digits) <= 17:
        # written without an exponent
        digits += "0" * max(0, 17 - len(digits)) if 1e15 <= abs(x) < 1e22 else ""
    return len(digits), min(999, max(-999, int(e or 0) - len(frac)))


def val(name, hx, x=None):
    d, e = text_of(x) if x is not None else (0, 0)
    return {"name": name, "bits": [int(hx[i:i + 4], 16) for i in (0, 4, 8, 12)], "digits": d, "exp": e}


def some_float(r):
    y = r.random()
    if y < .35:        # few digits
        x = r.randrange(1, 10**r.randint(1, 7)) / 10**r.randint(0, 9)
    elif y < .5:
        x = r.randrange(1, 10**9) / 2**r.randint(1, 20)
    elif y < .65:
        x = r.random()
    elif y < .75:      # near the ends of the range
        x = r.choice([5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 2.0**-1022, 2.0**1023,
                      float(2**53 + 2), 1e21, 1e22, 1e23, 9007199254740993.0, 0.1 + 0.2, 1 / 3])
    else:
        while True:
            x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
            if x == x and abs(x) != float("inf") and x:
                break
    return x if r.random() < .8 else -x


def f32_of(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


NAMES = ["a", "b", "c", "d e"]


def enc(x):
    return {"$f64": bits_of(x)}


class Numbers:
    """One node's history: operations, and the events of their results."""

    def __init__(self, r, mem):
        d = fresh_dir("num")
        self.ops = [{"op": "mem", "h": 0}] if mem else \
            [{"op": "open_or_create", "h": 0, "dir": d}, {"op": "open", "h": 1, "dir": d}]
        self.open = len(self.ops)
        self.r, self.mem, self.fs, self.told = r, mem, [], []

    def h(self):
        return 0 if self.mem else self.r.randrange(2)

    def call(self, op, f):
        self.ops.append(dict(op, h=self.h()) if op["op"] != "defmeta" else op)
        self.fs.append((len(self.ops) - 1, f, op))

    def create(self):
        r = self.r
        self.T = r.choice(["f64", "f64", "f32"])
        fill = some_float(r)
        if self.T == "f32":
            fill = f32_of(r.randrange(1, 10**8) / 10**r.randint(0, 12)) if r.random() < .5 else \
                f32_of(r.uniform(-1e3, 1e3)) or 1.0
        self.attrs = {k: some_float(r) for k in r.sample(NAMES, r.randint(0, 3))}
        doc = array_doc([6], [3], "<f8" if self.T == "f64" else "<f4", "raw", None)
        doc["fill_value"] = enc(fill)
        doc["attributes"] = {k: enc(x) for k, x in self.attrs.items()}
        self.ops.append({"op": "defmeta", "m": 1, "doc": doc})
        vs = [val("fill", bits_of(fill), fill)] + [val(k, bits_of(x), x) for k, x in self.attrs.items()]
        self.call({"op": "create_array", "path": "n/x", "m": 1},
                  lambda v: {"op": "create", "stored": True, "vals": vs})

    def set(self):
        r = self.r
        if r.random() < .5:
            k = r.choice(NAMES)
            x = some_float(r)
            self.call({"op": "set_attribute", "path": "n/x", "key": k, "val": enc(x)},
                      lambda v: {"op": "set", "stored": True, "vals": [val(k, bits_of(x), x)]})
        else:
            a = {k: some_float(r) for k in r.sample(NAMES, r.randint(0, 3))}
            self.call({"op": "set_attributes", "path": "n/x", "attrs": {k: enc(x) for k, x in a.items()}},
                      lambda v: {"op": "set", "stored": True, "vals": [val(k, bits_of(x), x) for k, x in a.items()]})

    def list(self):
        self.call({"op": "list_attributes", "path": "n/x"},
                  lambda v: {"op": "list", "stored": True, "vals": [val(k, bits_of(x)) for k, x in sorted(v.items())]})

    def meta(self):
        self.call({"op": "get_meta", "path": "n/x", "into": 2},
                  lambda v: {"op": "meta", "stored": True, "vals":
                             [val("fill", bits_of(v["fill_value"]))] +
                             [val(k, bits_of(x)) for k, x in sorted(v["attributes"].items())]})

    def cell(self):
        m = self.r.choice([1, 2])
        i = self.r.randrange(6)

        def cell(v):
            hx = v["data"][0]
            if self.T == "f32":
                hx = bits_of(struct.unpack("<f", bytes.fromhex(hx)[::-1])[0])
            return {"op": "cell", "stored": m == 2, "vals": [val("fill", hx)]}
        self.call({"op": "read_region", "path": "n/x", "m": m, "T": self.T, "off": [i], "shape": [1]}, cell)

    def history(self, res):
        ev = []
        for k, f, op in self.fs:
            x = res[k]
            e = None
            if x["t"] == "ok":
                try:
                    e = dict(f(x["v"]), ok=True)
                except (KeyError, TypeError, AttributeError, IndexError, struct.error, ValueError):
                    pass
            ev.append(e or {"op": op["op"], "ok": False, "stored": False, "vals": []})
            self.told.append({"op": op, "result": x})
        return {"ev": ev}


def floats(rep, tier, n, mix):
    """mix: what histories of this property consist of, with weights."""
    check_models(rep, [("MCNumbers", cfg, {"SLOPPY": s, "VARIANT": "none"}) for s in "01"
                       for cfg in (["MCNumbers.cfg"] if tier == "quick" else ["MCNumbersDeep.cfg"])],
                 [("MCNumbers", "MCNumbers.cfg", {"SLOPPY": "0", "VARIANT": v}) for v in ("cut", "all-sloppy")])
    r = rng("floats", rep.prop, tier)
    items = []
    for i in range(n):
        x = Numbers(r, i % 4 == 3)
        x.create()
        if "cell" in mix:
            x.meta()
        for _ in range(r.randint(2, 8)):
            getattr(x, r.choices(list(mix), list(mix.values()))[0])()
        for k in ("list", "meta"):
            if k in mix:
                getattr(x, k)()
        items.append(x)
    hists = []
    h = Harness()
    try:
        res = h.many([o for x in items for o in x.ops])
        k = 0
        for x in items:
            hists.append(x.history(res[k:k + len(x.ops)]))
            k += len(x.ops)
    finally:
        h.close()
    ok = accepted(rep, "NumbersTrace", hists, {"DEVIATE": "0"}, parts=3)
    bad = [i for i in range(n) if i not in ok]
    dev = accepted(rep, "NumbersTrace", [hists[i] for i in bad], {"DEVIATE": "1"}, parts=3)
    rep.traces += n
    rep.events += sum(len(x["ev"]) for x in hists)
    rep.extra["histories_of_floating_point_numbers"] = n
    told = 0
    for j, i in enumerate(bad):
        tags = dev.get(j)
        tag = "float-digits" if tags and any("float-digits" in t for t in tags) else ""
        if not tag:
            told += 1
            if told > 3:
                continue
        rep.violation("floating point numbers in a node's document are not those given:\n  %s" % "\n  ".join(
            json.dumps(x)[:400] for x in items[i].told), {"tag": tag, "ops": items[i].ops})
