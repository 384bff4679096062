"""Checks of fill values, element types, opening hierarchies, and paths."""
from c_pure import *
from world import *

# --- C21 ----------------------------------------------------------------------

ALLT = list(TYPES) + list(RAWS)


def hexbits(hx):
    return [int(c) for c in bin(int("1" + hx, 16))[3:]]


def num_value(x):
    """A number as Fill has it, and its JSON text; none if its text is not
    sure to be read exactly by any JSON library."""
    if isinstance(x, int):
        return {"k": "num", "neg": x < 0, "mag": [int(c) for c in bin(abs(x))[2:]] if x else [],
                "exp": 0, "int": True}, str(x)
    t = repr(x)
    digits = re.sub("e.*", "", t).replace("-", "").replace(".", "").strip("0")
    if len(digits) > 15:
        return None
    if x and not 1e-15 < abs(x) < 1e22:
        return None
    a, b = abs(x).as_integer_ratio()
    import math
    return {"k": "num", "neg": math.copysign(1, x) < 0,
            "mag": [int(c) for c in bin(a)[2:]] if a else [], "exp": -(b.bit_length() - 1),
            "int": False}, t


def width(v):
    s = "".join(map(str, v["mag"])).strip("0")
    return len(s)


FILLWORDS = ["NaN", "Infinity", "-Infinity", "nan", "inf", "-NaN", "Inf", "infinity", "", "0", "1", "1.5",
             "true", "+Infinity", "NaN ", "None", "null", "false"]


def fill_case(T, v, text, kind, r):
    n = 3
    doc = array_doc([4 * n], [n], "bool" if T == "bool" else
                    T if T in RAWS else dtype_str(T, r.random() < .5), "raw", None)
    doc["fill_value"] = "@"
    raw = json.dumps(doc).replace('"@"', text)
    zero = "00" * {**TYPES, **{k: int(k[1:]) // 8 for k in RAWS}}[T]
    ops = [{"op": "mem", "h": 0},
           {"op": "put_raw", "key": "meta/root/f.array.json", "text": raw},
           {"op": "get_meta", "path": "f", "into": 1}, {"op": "fill", "m": 1, "T": T}]
    if T not in RAWS:
        ops += [{"op": "read_region", "path": "f", "m": 1, "T": T, "off": [0], "shape": [2 * n]},
                {"op": "write_region", "path": "f", "m": 1, "T": T, "off": [n + 1], "shape": [1],
                 "data": [zero]},
                {"op": "read_chunk", "path": "f", "m": 1, "T": T, "pos": [1]},
                {"op": "read_region", "path": "f", "m": 1, "T": T, "off": [n], "shape": [n]}]

    def f(rs):
        out = []
        rs = rs[3:]

        def res(x, cells):
            out.append({"t": x["t"], "bits": [hexbits(c) for c in cells] if x["t"] == "ok" else []})
        res(rs[0], [rs[0]["v"]])
        if T not in RAWS:
            res(rs[1], rs[1]["v"]["data"] if rs[1]["t"] == "ok" else [])
            # what a partial write leaves: all but the middle cell
            if rs[2]["t"] == "ok" and rs[3]["t"] == "ok":
                d = rs[3]["v"]["data"]
                res(rs[3], [d[0], d[2]] if len(d) == n else [])
                if rs[4]["t"] == "ok" and len(rs[4]["v"]["data"]) == n:
                    res(rs[4], [rs[4]["v"]["data"][0]])
                else:
                    out.append({"t": "panic", "bits": []})
            else:
                out.append({"t": rs[2]["t"] if rs[2]["t"] != "ok" else rs[3]["t"], "bits": []})
        return {"op": "fill", "type": T, "v": v, "json": text, "res": out}
    return ops, f


def fill_values(r, T, more):
    out = [({"k": "null"}, "null"), ({"k": "bool", "b": True}, "true"), ({"k": "bool", "b": False}, "false")]
    out += [({"k": "str", "s": s}, json.dumps(s)) for s in FILLWORDS]
    out += [({"k": "other"}, t) for t in ("{}", "[]", '{"a":1}', "[[0]]", "[null]", '["0"]')]
    nums = [0, 1, -1, 2, 0.0, -0.0, 0.5, 1.0, 1.5, -1.5, 2.0, 1e10, -1e10, 0.1, 3.14, 65504, 65519, 65520, 65504.0,
            65519.0, 65520.0, 2049, 2051, 1e5, -1e5, 5e-5, 6e-8, 1e-8, 3e-8, 16777217, 16777219, 1e15, 255.5, 1e20,
            123456789, 0.2, 1e-10]
    for w in (7, 8, 15, 16, 31, 32, 53, 63, 64):
        nums += [s * (2**w + d) for s in (1, -1) for d in (-1, 0, 1)]
    for _ in range(more):
        x = r.random()
        if x < .3:
            nums.append(r.choice([1, -1]) * r.getrandbits(r.randint(1, 66)))
        elif x < .7:
            nums.append(r.choice([1, -1]) * r.randrange(10**r.randint(1, 9)) / 2**r.randint(0, 12))
        else:
            nums.append(float("%de%d" % (r.randrange(-10**r.randint(1, 7), 10**7), r.randint(-12, 12))))
    for x in nums:
        nv = num_value(x)
        if nv is None or abs(x) > 2**64 - 1 and isinstance(x, int) and T in TYPES and T[0] == "f":
            continue
        if nv is not None and (T == "f16" and width(nv[0]) > 20 or T == "f32" and width(nv[0]) > 53):
            continue
        out.append(nv)
    if T in RAWS:
        w = int(T[1:]) // 8
        for n in (w, w, w, w, w - 1, w + 1, 0, 2 * w):
            b = [r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n)]
            out.append(({"k": "bytes", "bits": [int(c) for x in b for c in format(x, "08b")]}, json.dumps(b)))
        out.append(({"k": "other"}, json.dumps([256] * w)))
        out.append(({"k": "other"}, json.dumps([-1] * w)))
    return out


def filled_meta(r):
    t = r.choice(list(TYPES))
    return rand_meta(r, t, fill=r.choice(FILLS["bool" if t == "bool" else t[0]][1:]))


def c21(rep, tier):
    import c_num
    c_num.floats(rep, tier, many(tier, 150, 1500), {"cell": 1})
    check_model(rep, "MCFill", many(tier, "MCFill.cfg", "MCFillDeep.cfg"))
    r = rng("C21", tier)
    items = []
    for T in ALLT:
        for v, text in fill_values(r, T, many(tier, 40, 1500)):
            items.append(fill_case(T, v, text, "mem", r))
    table(rep, "FillTrace", items, procs=7)
    # histories over arrays with fill values
    W = {"array": 3, "wregion": 8, "rregion": 8, "full": 4, "delete": 3, "read": 4, "remove": .3}
    run_batches(rep, hist_maker(W, 40, meta_fn=filled_meta),
                many(tier, 150, 2500), procs=6, label="mix")


# --- C23 ----------------------------------------------------------------------

DECLARED = ["bool", "u1", "i1"] + [o + k for o in "<>" for k in
            ("u2", "u4", "u8", "i2", "i4", "i8", "f2", "f4", "f8")] + ["r8", "r16", "r24", "r32", "r40", "r64"]
N, C = 2, 2


def core_width(s):
    return 1 if s == "bool" else int(s[1:]) // 8 if s[0] == "r" else int(s[-1])


def octets(hx):
    return list(bytes.fromhex(hx))


def type_case(d, T, how, fs, codec, r):
    """Calls by T on an array of declared type d; d is (core, fallback)."""
    core, fallback = d
    dt = core or dict({"extension": "http://example.org/e", "type": "t"},
                      **({"fallback": fallback} if fallback else {}))
    conf = r.choice(CODECS[codec])
    doc = array_doc([N * C], [C], dt, codec, conf, r.choice("CF"))
    eff = core or fallback
    key = "meta/root/f.array.json"
    ops = [{"op": "open_or_create", "dir": fresh_dir("t"), "h": 0}] if fs else [{"op": "mem", "h": 0}]
    if how == "new":
        ops += [{"op": "defmeta", "m": 1, "new": {"shape": [str(N * C)], "chunk_shape": [C],
                 "data_type": dt, "codec": codec, "conf": {}}}]
    elif how == "doc":
        ops += [{"op": "defmeta", "m": 1, "doc": doc}]
    else:
        ops += [{"op": "put_raw", "key": key, "text": json.dumps(doc)},
                {"op": "get_meta", "path": "f", "into": 1}]
    w = core_width(eff) if eff else TYPES.get(T) or RAWS[T]

    def payload():
        b = [[r.choice([0, 1]) if eff == "bool" else r.randrange(256) for _ in range(w)] for _ in range(C)]
        return bytes(sum(b, []))
    import bz2, lzma
    enc = {"raw": bytes, "gzip": gzip.compress, "bzip2": bz2.compress,
           "xz": lambda b: lzma.compress(b, preset=0)}[codec]
    stored = payload()
    ops += [{"op": "put_raw", "key": "data/root/f/c0", "hex": enc(stored).hex()}, {"op": "dump"}]
    n0 = len(ops)
    calls = []
    tw = TYPES.get(T) or RAWS[T]

    def data(n):
        return [elem(r, T) for _ in range(n)]
    for p in (0, 1):
        calls += [{"c": "write_chunk", "pos": p, "data": data(C)}] * 1
        calls += [{"c": "read_chunk", "pos": p}] * 2
        if T in TYPES:
            calls += [{"c": "read_chunk_into", "pos": p, "data": data(r.choice([0, 1, C, C + 2]))}]
    if T in TYPES:
        for off, n in ((0, C), (C, C), (1, C), (r.randrange(N * C), 1), (0, N * C)):
            calls += [{"c": "write_region", "off": off, "n": n, "data": data(n)},
                      {"c": "read_region", "off": off, "n": n}]
    r.shuffle(calls)
    spans = []
    for c in calls:
        o = {"op": c["c"], "path": "f", "m": 1, "T": T}
        if "pos" in c:
            o["pos"] = [c["pos"]]
        else:
            o.update(off=[c["off"]], shape=[c["n"]])
        if c["c"].startswith("write"):
            o["data"] = c["data"]
        a = len(ops)
        if c["c"] == "read_chunk_into":
            ops.append({"op": "buf_new", "b": 7, "T": T, "pos": [9], "data": c["data"]})
            o["b"] = 7
        ops += [o, {"op": "dump"}]
        spans.append((a, len(ops)))

    def look(dump):
        """The chunks as bytes, and the rest."""
        rest, st = [], [{"some": False, "bytes": []} for _ in range(N)]
        for k, v in dump["v"]:
            m = re.fullmatch(r"data/root/f/c(\d+)", k)
            if m and int(m.group(1)) < N:
                b = inflate(codec, bytes.fromhex(v))
                if b is None:
                    rest.append([k, v])
                else:
                    st[int(m.group(1))] = {"some": True, "bytes": list(b)}
            else:
                rest.append([k, v])
        return st, rest

    def f(rs):
        D = {"core": core or "", "fallback": fallback or ""}
        st, rest0 = look(rs[n0 - 1])
        out = [{"op": "put", "after": st}]
        for c, (a, b) in zip(calls, spans):
            x = rs[b - 2]
            st, rest = look(rs[b - 1])
            v = x["v"] if x["t"] == "ok" else None
            res = {"t": x["t"], "some": False, "v": []}
            if x["t"] == "ok" and c["c"].startswith("read"):
                res["some"] = v.get("some", True)
                res["v"] = [octets(h) for h in v["data"]]
            e = dict(c, T=T)
            if "data" in e:
                e["data"] = [octets(h) for h in e["data"]]
            out.append({"op": "call", "d": D, "c": e, "r": res, "after": st, "strange": rest != rest0})
        return out
    return ops, f


def c23(rep, tier):
    check_model(rep, "MCTypes", many(tier, "MCTypes.cfg", "MCTypesDeep.cfg"))
    r = rng("C23", tier)
    items = []
    decl = [(c, None) for c in DECLARED] + [(None, c) for c in DECLARED] + [(None, None)]
    for rep_ in range(many(tier, 1, 6)):
        for i, d in enumerate(decl):
            for j, T in enumerate(ALLT):
                fs = (i + j + rep_) % 4 == 0
                how = ("doc", "new", "get")[(i + 2 * j + rep_) % 3]
                codec = r.choice(["raw", "raw", "gzip", "bzip2", "xz"])
                items.append(type_case(d, T, how, fs, codec, r))
    table(rep, "TypesTrace", items, procs=7)


# --- C18 ----------------------------------------------------------------------

CORE_URI = "https://purl.org/zarr/spec/protocol/core/"


def entry_doc(r, v="3.0", suffix=".json", exts=None):
    return {"zarr_format": CORE_URI + v, "metadata_encoding": CORE_URI + "3.0",
            "metadata_key_suffix": suffix, "extensions": exts if exts is not None else []}


def rand_ext(r, must=False):
    e = {"extension": r.choice(["http://example.org/e", "x", "\u00e9", ""]), "must_understand": must}
    if r.random() < .5:
        e["configuration"] = {k: rand_value(r) for k in r.sample(["a", "foo", ""], r.randrange(3))}
    return e


def good_entry(r):
    d = entry_doc(r, r.choice(["3.0", "3.0", "3", "3.0.0"]), r.choice([".json", "json", ".x", "", ".tar.gz", ".\u00e9"]),
                  [rand_ext(r) for _ in range(r.choice([0, 0, 1, 2]))])
    if r.random() < .2:
        d[r.choice(["unknown", "zz"])] = rand_value(r)
    return d


def bad_entries(r):
    """Entry points with one thing about them changed."""
    out = []
    for v in ("4.0", "2.0", "2", "4", "1.0", "30.0", "0.3", "10.3.0", "core", "three", "zarr", "3.1", "3.0.1", "3.2", "3.10", "3.1.0", "3.0.10", "",
              "^3", ">=2.0", "*", "4.0.0", "03.0", "3.", "v3"):
        out.append(entry_doc(r, v))
    for k in ("zarr_format", "metadata_encoding", "metadata_key_suffix", "extensions"):
        for v in (None, 3, True, [], {}, "x", ["x"], [[]], [{}], 1.5, "core/3.0", "3.0", "http://example.org/3.0"):
            d = good_entry(r)
            d[k] = v
            out.append(d)
        d = good_entry(r)
        del d[k]
        out.append(d)
    for i in range(12):
        es = [rand_ext(r) for _ in range(r.randint(0, 2))]
        es.insert(r.randrange(len(es) + 1), rand_ext(r, True))
        out.append(entry_doc(r, exts=es))
    for e in ({"extension": "e"}, {"must_understand": False}, {"extension": 1, "must_understand": False},
              {"extension": "e", "must_understand": "false"}, {"extension": "e", "must_understand": None},
              {"extension": "e", "must_understand": 0}, 7, None, "e", []):
        out.append(entry_doc(r, exts=[e]))
    return [json.dumps(d).encode() for d in out]


def raw_entries(r):
    good = json.dumps(good_entry(r)).encode()
    out = [good[:r.randrange(1, len(good))] for _ in range(12)]
    out += [b"", b"null", b"[]", b"{}", b"3", b"\"x\"", b" ", b"\n", b"\x00" * 20, b"\xff\xfe", good + b"}", good + good,
            b"{" + good, good.replace(b'"', b"'"), b"not json"]
    return out


NOEP = {"st": "none", "json": False, "leaves": [], "raw": ""}


def open_case(raws, r, steps):
    base = fresh_dir("o")
    d = base if r.random() < .6 else base + "/" + r.choice(["new", "new/sub", "a.b/c"])
    spelled = d + r.choice(["", "", "/"])
    ops, evs = [{"op": "drop", "h": 0}, {"op": "drop", "h": 1}], []
    rest = []
    if r.random() < .6 and d == base:
        for _ in range(r.randint(1, 4)):
            rest.append({"op": "place", "file": d + "/" + r.choice(
                ["meta/root/a.array.json", "meta/root.group.json", "data/root/a/c0", "other.txt", "extra/f", "zarr.json.bak"]), "text": r.choice(["", "{}", "text"])})
    pending = list(raws)
    first = True

    def see(op, ev):
        ops.extend([op, {"op": "tree", "dir": d}])
        evs.append((len(ops) - 2, ev))
    for o in rest:
        ops.append(o)
    seq = ["put"] + [r.choice(["open", "create", "open", "create", "version", "put"]) for _ in range(steps)]
    known = set()
    for s in seq:
        h = r.randrange(2)
        if s == "put":
            if first or pending:
                raw = pending.pop(0) if pending else None
                if raw is None:
                    see({"op": "codec_name", "name": "raw"}, {"op": "put", "first": first})
                else:
                    see({"op": "place_hex", "file": d + "/zarr.json", "hex": raw.hex()},
                        {"op": "put", "first": first})
                first = False
        elif s == "version":
            if h in known:
                see({"op": "version", "h": h}, {"op": "version", "h": h + 1})
        else:
            see({"op": "open" if s == "open" else "open_or_create", "h": h, "dir": spelled}, {"op": s, "h": h + 1})
            known.add(h)

    def f(rs):
        out = []
        for k, e in evs:
            tr = rs[k + 1]["v"]
            ep, rest_ = dict(NOEP), []
            for name, c in tr["all"]:
                if name == "zarr.json":
                    if c == "":
                        ep["st"] = "empty"
                    else:
                        b = b"" if c == "dir" else bytes.fromhex(c)
                        lv, isj = parse(b)
                        ep = {"st": "doc", "json": isj, "leaves": lv, "raw": c[:3000]}
                else:
                    rest_.append([name, c])
            e = dict(e, disk={"dir": tr["dir"], "entry": ep, "rest": canon(rest_)})
            if e["op"] != "put":
                x = rs[k]
                e["res"] = {"t": x["t"], "version": "", "view": {"format": "", "encoding": "", "suffix": "", "exts": []}}
                if x["t"] == "ok" and e["op"] == "version":
                    e["res"]["version"] = x["v"]
                elif x["t"] == "ok":
                    v = x["v"]["entry"]
                    e["res"]["version"] = x["v"]["version"]
                    e["res"]["view"] = {
                        "format": v["zarr_format"], "encoding": v["metadata_encoding"],
                        "suffix": v["metadata_key_suffix"],
                        "exts": [[y["extension"], text(y["configuration"]) if "configuration" in y else "none"]
                                 for y in v["extensions"]]}
            out.append(e)
        return out
    return ops, f


def c18(rep, tier):
    check_model(rep, "MCOpen", many(tier, "MCOpen.cfg", "MCOpenDeep.cfg"))
    r = rng("C18", tier)
    items = []
    for _ in range(many(tier, 3, 25)):
        for raw in bad_entries(r) + raw_entries(r):
            items.append(open_case([raw], r, r.randint(2, 4)))
    for _ in range(many(tier, 300, 4000)):
        raws = []
        if r.random() < .6:
            raws = [spell(r, good_entry(r)) for _ in range(r.choice([1, 1, 2]))]
        items.append(open_case(raws, r, r.randint(3, 9)))
    table(rep, "OpenTrace", items, procs=6)
    # many handles of two processes, opened now and then
    W = {"group": 3, "array": 2, "set": 3, "attrs": 3, "exists": 3, "aexists": 1, "meta": 2, "list": 2, "remove": 1,
         "write": 4, "read": 5, "delete": 1, "wregion": 2, "rregion": 2, "reopen": 6, "keys": .5}
    for suffix in (".json", ".x", "plain"):
        run_batches(rep, hist_maker(W, 45), many(tier, 36, 600), procs=3, label="handles" + suffix,
                    world=lambda: World("w", handles=4, suffix=suffix, two=True),
                    env={"SUFFIX": suffix if suffix[0] == "." else "." + suffix})


# --- C12 ----------------------------------------------------------------------

META_OPS = ["create_group", "create_array", "set_attributes", "set_attribute", "list_attributes", "exists",
            "array_exists", "get_meta", "list_nodes", "remove"]
CHUNK_OPS = ["write_chunk", "read_chunk", "delete_chunk", "uri", "write_region", "read_region"]
STORE_OPS = ["store_exists", "store_get", "store_set", "store_erase", "store_erase_prefix", "store_uri",
             "list_dir", "list_prefix"]
CREATES = {"create_group", "create_array", "write_chunk", "write_region", "store_set"}


TOPS = [None, 0]


def path_case(op, comps, r, sep=None):
    top = TOPS[0] + "/p%d" % TOPS[1]
    TOPS[1] += 1
    comps = list(comps)
    if op in CREATES and op not in ("write_chunk", "write_region") and comps and comps[-1] not in ("..", "."):
        comps[-1] = "new"
    # spelled in some way
    lead = r.choice(["", "/", "/", "//", "./"]) if comps else r.choice(["", "/"])
    if lead == "./" and op in META_OPS + CHUNK_OPS:
        lead = "/./"
    text = lead + "".join(c + r.choice(["/"] * 6 + ["//", "/./"]) for c in comps[:-1]) + "".join(comps[-1:])
    if comps and op != "store_set" and r.random() < .2:
        text += "/"
    # what the components are: those of the text
    path = [c for c in text.split("/") if c]
    nd = 1 if sep is None else 2
    pos = 1 if op in CREATES else 0
    tail = ["c%d" % pos] if sep is None else [c for c in ("c%d%s%d" % (pos, sep, pos)).split("/") if c]
    doc = array_doc([4] * nd, [2] * nd, "u1", order="C", sep=sep or "/")
    n = 2 ** nd
    data = ["%02x" % r.randrange(256) for _ in range(n)]
    o = {"op": op, "path": text, "h": 0}
    after = None
    if op == "create_array":
        o["m"] = 1
        after = ({"op": "array_exists", "path": text}, lambda v: v is True)
    elif op == "create_group":
        after = ({"op": "exists", "path": text}, lambda v: v is True)
    elif op == "set_attributes":
        o["attrs"] = {"x": 1}
    elif op == "set_attribute":
        o.update(key="x", val=1)
    elif op in CHUNK_OPS:
        o.update(m=1, T="u8", pos=[pos] * nd)
        if op == "write_chunk":
            o["data"] = data
        if op.endswith("region"):
            o.update(off=[2 * pos] * nd, shape=[2] * nd)
            if op == "write_region":
                o["data"] = data
        after = ({"op": "read_chunk", "path": text, "m": 1, "T": "u8", "pos": [pos] * nd},
                 lambda v: v["some"] and v["data"] == data)
    elif op in STORE_OPS:
        o["key"] = o["prefix"] = text
        o["hex"] = "".join(data)
        after = ({"op": "store_get", "key": text}, lambda v: v["some"] and v["hex"] == "".join(data))
    ops = [{"op": "env", "top": top, "depth": 12},
           {"op": "open", "h": 0, "dir": top + "".join("/l%d" % i for i in range(12))},
           {"op": "defmeta", "m": 1, "doc": doc}]
    dg = {"op": "digest", "top": top, "base": top + "".join("/l%d" % i for i in range(12))}
    ops += [dg, o, dg]
    if after and op in CREATES:
        ops.append(after[0])
    ops.append({"op": "unenv", "top": top})

    def f(rs):
        a, x, b = rs[3]["v"], rs[4], rs[5]["v"]
        if rs[1]["t"] != "ok":
            x = rs[1]
        found = False
        if after and op in CREATES and rs[6]["t"] == "ok":
            found = bool(after[1](rs[6]["v"]))
        return {"op": op, "path": path, "tail": tail, "text": text, "res": x["t"], "outside": a["outside"],
                "outside2": b["outside"], "inside": a["inside"], "inside2": b["inside"], "found": found,
                "new": sorted(set(b["files"]) - set(a["files"]))}
    return ops, f


def path_list(tier, r):
    import itertools
    out = []
    for n in range(many(tier, 5, 7)):
        out += list(itertools.product(["a", "..", "."] if n > 4 else ["a", "b", "..", "."], repeat=n))
    for n in range(1, 11):
        out.append([".."] * n)
        out.append([".."] * n + ["a"])
        out.append(["a"] * n + [".."] * n + ["b"])
        out.append(["a"] * (n // 2) + [".."] * n + ["a"])
        out.append(["a", ".."] * n + ["b"])
        out.append([".."] * n + ["l%d" % (11 - k) for k in range(n)][::-1] + ["a"])
    for _ in range(many(tier, 150, 3000)):
        p = [r.choice(["a", "b", "..", "..", ".", "..a", "...", "a..", "c9"]) for _ in range(r.randint(3, 9))]
        out.append(p)
    return out


def c12(rep, tier):
    check_model(rep, "MCPaths", many(tier, "MCPaths.cfg", "MCPathsDeep.cfg"))
    r = rng("C12", tier)
    items = []
    paths = path_list(tier, r)
    TOPS[0] = fresh_dir("paths")
    for i, p in enumerate(paths):
        ops = META_OPS + CHUNK_OPS + STORE_OPS
        if tier == "quick" and 1 < len(p):
            ops = r.sample(ops, 9)
        for op in ops:
            items.append(path_case(op, p, r))
    # separators are part of keys too
    for n in range(1, 7):
        for sep in ("/" + "../" * n, "/../a/" * n, "/./" * n, "/" + "../" * n + "a"):
            for op in ("write_chunk", "read_chunk", "delete_chunk", "uri", "write_region", "read_region"):
                for p in ([], ["a"], ["a", "b"], ["a", "..", "b"], [".."]):
                    if tier == "thorough" or r.random() < .6:
                        items.append(path_case(op, p, r, sep=sep))
    r.shuffle(items)
    table(rep, "PathsTrace", items, procs=8)


from c_hier import run_batches, hist_maker
from hist import rand_meta, FILLS
CHECKS = {"C21": c21, "C23": c23, "C18": c18, "C12": c12}
