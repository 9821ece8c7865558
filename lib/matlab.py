"""The matrix laboratory: builds its drivers, turns behaviours of the specification into scripts, generates random ones."""
import json, math, os, tempfile
DEFS = ["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"]
DENSE, SPARSE, ZERO, MULTI = ["DC", "DR", "FC", "FR"], ["SC", "SR", "GC", "GR"], ["Z", "ZR"], ["MS", "MD", "ME"]
FRESH = DENSE + SPARSE + ZERO + ["I"]
DYN = ["Y." + t for t in ["Z", "GC", "FC", "SC", "MS", "MD", "DC"]]
FILTERED, THRESHOLD = ("nsig", "occ", "occl", "occs"), ("larger", "smaller", "occl", "occs")
MODULE = "MatrixLabTrace"

def build(ck, name, parts, defs=(), libs=(), opt="-O0", flags=()):
    """parts: list of (source, part number or None, further defines)"""
    src = ["mat/core.cpp"] + [(x[0], (["PART=%d" % x[1]] if x[1] else []) + list(x[2:])) for x in parts]
    return ck.build(src, name=name, opt=opt, defs=DEFS + list(defs), flags=["-I/usr/include/eigen3"] + list(flags), libs=list(libs))

def ops(ck, exe):
    """what the driver offers: list of dicts op, to, a, b (b "" for unary)"""
    ev = ck.run_cases(exe, [["list"]])[0][0]
    res = []
    for o in ev["ops"]:
        w = o.split()
        op, _, to = w[0].partition(".")
        res.append({"op": op, "to": to, "a": w[1], "b": w[2] if len(w) > 2 else ""})
    return res

def expand_dyn(lst):
    """Y stands for every representation a runtime-typed matrix can have"""
    out = []
    for o in lst:
        for a in (DYN if o["a"] == "Y" else [o["a"]]):
            for b in (DYN if o["b"] == "Y" else [o["b"]]):
                out.append(dict(o, a=a, b=b))
    return out

def ops_file(ck, lst):
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=ck.work)
    with os.fdopen(fd, "w") as f:
        for o in lst:
            f.write(json.dumps(o) + "\n")
    return path

def opname(o):
    return o["op"] + ("." + o["to"] if o["to"] else "")

def base(tag):
    return tag[2:] if tag.startswith("Y.") else tag

def is_float(tag):
    return base(tag) in ("FC", "FR", "GC", "GR", "W")

# ---------------------------------------------------------------- matrices
def make(rng, s, tag, mat, zeros=0.15):
    """script line creating matrix mat = {r, c, hi, lo} in representation tag"""
    t = base(tag)
    n = mat["r"] * mat["c"]
    if t == tag and mat["r"] == mat["c"] == 0 and t in FRESH and rng.random() < .5:
        return "fresh %d %s" % (s, tag)
    el = [(h, 0) for h in mat["hi"]] if t == "I" else list(zip(mat["hi"], mat["lo"]))
    def lst(e, sparse):
        return " ".join("z 0" if sparse and h == 0 and l == 0 and rng.random() < zeros else "%d %d" % (h, l) for h, l in e)
    if t in MULTI:
        first, second = [], []
        for h, l in el:
            k = rng.choice([0, 2, 3, 4]) if t == "ME" else rng.randrange(5)      # integers in the single precision part
            if k == 0: x, y = (h, l), (0, 0)
            elif k == 1: x, y = (h, 0), (0, l)
            elif k == 2: x, y = (0, l), (h, 0)
            elif k == 3: x, y = (h - 2, l), (2, 0)
            else: x, y = (h + 1, l), (-1, 0)
            first.append(x)
            second.append(y)
        vals = lst(first, True) + " " + lst(second, t == "MS")
    else:
        vals = lst(el, t in SPARSE)
    return "make %d %s %d %d %s" % (s, tag, mat["r"], mat["c"], vals)

def matrix(rng, r, c, style=None):
    """random contents. styles: int, low, mixed, sparse, zero"""
    style = style or rng.choice(["int", "int", "low", "mixed", "sparse", "sparse", "zero"])
    hi, lo = [], []
    dens = rng.choice([.1, .3, .5, .8])
    for _ in range(r * c):
        h = l = 0
        if style in ("int", "mixed") or (style == "sparse" and rng.random() < dens):
            h = rng.choice([0, 1, -1, 2, -2, 3, 5, -7, 11, 19, -20])
        if style in ("low", "mixed") and rng.random() < .7:
            l = rng.randrange(-20, 21)
        hi.append(h)
        lo.append(l)
    return {"r": r, "c": c, "hi": hi, "lo": lo}

def shape(rng, top):
    return rng.choice([0, 1, 1, 2, 2, 3, 3, 4] + list(range(1, top + 1)))

def filter_args(rng, zero=True):
    k = rng.choice(["x", "x", "xi", "xx", "ii" if zero else "xi"])
    lo = rng.choice([(0, 0), (0, 3), (1, 0), (2, 0), (5, 0), (0, 12)])
    up = rng.choice([(3, 0), (7, 0), (11, 0), (0, 15), (19, 0)])
    if k != "x" and up <= lo:
        up = (20, 0)
    return "%s %d %d %d %d" % ((k,) + lo + up)

# ---------------------------------------------------------------- behaviours of the specification
def operand(rng, s, tag, mat):
    """a matrix, or a view on a matrix with a border (as in MCMatrixPairs)"""
    if tag not in ("V", "W"):
        return [make(rng, s, tag, mat)]
    r, c = mat["r"], mat["c"]
    big = {"r": r + 3, "c": c + 2, "hi": [], "lo": []}
    for j in range(c + 2):
        for i in range(r + 3):
            inside = 1 <= i <= r and 1 <= j <= c
            p = (j - 1) * r + i - 1
            big["hi"].append(mat["hi"][p] if inside else 9)
            big["lo"].append(mat["lo"][p] if inside else 0)
    return ["drop %d" % s, make(rng, s + 3, "DC" if tag == "V" else "FC", big), "view %d %d 1 1 %d %d" % (s, s + 3, r, c)]

def script_of(rng, b):
    """b: value emitted by MCMatrixPairs"""
    o, f = b["o"], b["f"]
    s = operand(rng, 1, o["a"], b["a"])
    if b["two"]:
        s += operand(rng, 2, o["b"], b["b"])
        s.append("bin %s 3 1 2" % opname(o))
    else:
        extra = ""
        if o["op"] == "filt" or (o["op"] == "q" and o["to"] in FILTERED):
            extra = " %s %d %d %d %d" % (f["k"], f["lower"][0], f["lower"][1], max(f["upper"][0], 0), f["upper"][1])
        if o["op"] == "q" and o["to"] in THRESHOLD:
            extra += " %d" % b["k"]
        s.append("un %s %d 1%s" % (opname(o), 0 if o["op"] == "q" else 3, extra))
    return s

def spec_scripts(ck, exe, lst, cfg=None, deep=None, limit=None, group=8, module="MCMatrixPairs"):
    path = ops_file(ck, lst)
    vals = ck.model_check(module, (deep if ck.thorough and deep else cfg) or module, env={"OPS": path})
    vals.sort(key=lambda v: json.dumps(v, sort_keys=True))
    total = len(vals)
    if limit and total > limit and not ck.thorough:
        # every operation keeps some of its behaviours
        by = {}
        ck.rng.shuffle(vals)
        for v in vals:
            by.setdefault(json.dumps(v["o"], sort_keys=True), []).append(v)
        vals, k = [], 0
        while len(vals) < limit and any(by.values()):
            for q in by.values():
                if q and len(vals) < limit:
                    vals.append(q.pop())
    ck.extra["behaviours_from_spec"] = ck.extra.get("behaviours_from_spec", 0) + total
    ck.extra["behaviours_executed"] = ck.extra.get("behaviours_executed", 0) + len(vals)
    scripts = [script_of(ck.rng, v) for v in vals]
    # several behaviours in one case: dropping everything in between
    out = []
    for i in range(0, len(scripts), group):
        s = []
        for x in scripts[i:i + group]:
            s += x
        out.append(s)
    return out

def sig(tr, i):
    e = tr[i]
    if "a" not in e:
        return e.get("ev", "?")
    tags = {x["s"]: (x["y"] if x["t"] == "Y" else x["t"]) for x in (tr[i - 1]["all"] if i else [])}
    dyn = "Y:" if any(x["s"] == e["a"] and x["t"] == "Y" for x in (tr[i - 1]["all"] if i else [])) else ""
    return "%s%s%s:%s%s" % (dyn, e["ev"], "." + e["to"] if e.get("to") else "", tags.get(e["a"], "?"), "," + tags.get(e["b"], "?") if e.get("b") else "")

def corrupt(c, rng):
    """change one element of the newest matrix of an event"""
    es = [e for e in c if e.get("all") and e["ev"] != "make" and any(x["hi"] for x in e["all"])]
    if not es:
        return None
    e = rng.choice(es)
    x = rng.choice([x for x in e["all"] if x["hi"]])
    x["hi"][rng.randrange(len(x["hi"]))] += 1
    return c

def long_lines(rng, lst, limit, group=4, top=300, low=257):
    """every operation on matrices with a dimension beyond 256; lst: operations with runtime types expanded"""
    lst = [o for o in lst if o["op"] not in LIFE]
    rng.shuffle(lst)
    by, pick = {}, []
    for o in lst:
        by.setdefault((o["op"], o["a"], o["b"]) if limit > 300 else (o["a"], o["b"]), []).append(o)
    by = list(by.values())
    rng.shuffle(by)
    while len(pick) < limit and any(by):
        for q in by:
            if q and len(pick) < limit:
                pick.append(q.pop())
    out = []
    for o in pick:
        n, k = rng.randint(low, top), rng.randint(1, 2 if low < 1000 else 1)
        r, c = (n, k) if rng.random() < .5 else (k, n)
        if o["op"].startswith("mul"):
            d = [rng.randint(1, 2 if low < 1000 else 1) for _ in range(3)]
            d[rng.randrange(3)] = n
            s = operand(rng, 1, o["a"], matrix(rng, d[0], d[1], "int")) + operand(rng, 2, o["b"], matrix(rng, d[1], d[2], "int"))
            s.append("bin %s 3 1 2" % opname(o))
        elif o["b"]:
            s = operand(rng, 1, o["a"], matrix(rng, r, c)) + operand(rng, 2, o["b"], matrix(rng, r, c)) + ["bin %s 3 1 2" % opname(o)]
        else:
            s = operand(rng, 1, o["a"], matrix(rng, r, c))
            line = "un %s %d 1" % (opname(o), 0 if o["op"] == "q" else 3)
            if o["op"] == "filt" or (o["op"] == "q" and o["to"] in FILTERED):
                line += " " + filter_args(rng, False)
            if o["op"] == "q" and o["to"] in THRESHOLD:
                line += " %d" % rng.choice([0, 1, 10, 40, 100])
            s.append(line)
        out.append(s + ["drop %d" % x for x in (1, 2, 3, 4, 5)])
    return [sum(out[i:i + group], []) for i in range(0, len(out), group)]

def fine_number(rng, near=()):
    """elements with many binary digits: single precision has to round them"""
    if near and rng.random() < .5:
        h, l = rng.choice(list(near))
        d = rng.choice([-2, -1, 0, 0, 1, 2])
        return (h, l + d) if rng.random() < .5 else (-h, -l - d)
    h = rng.choice([0, 0, 0, 1, -1, 2, -4, 5, 100, rng.randrange(-3000, 3000)])
    l = rng.choice([0, rng.randrange(-2 ** 28, 2 ** 28), rng.randrange(-2 ** 25, 2 ** 25), 32 * rng.randrange(-9, 10), 2 ** 24 + rng.randrange(-3, 9)])
    return h, l

def fine_lines(rng, lst, limit):
    """conversions and filters of such elements; lst: operations with runtime types expanded"""
    lst = [o for o in lst if (o["op"] in ("conv", "filt") or o["op"] == "q" and o["to"] in FILTERED) and base(o["a"]) not in MULTI]
    out = []
    for o in sum((rng.sample(lst, len(lst)) for _ in range(limit // len(lst) + 1)), [])[:limit]:
        r, c = rng.randint(1, 4), rng.randint(1, 4)
        t = [(0, rng.randrange(2 ** 24, 2 ** 28) | 1), (rng.choice([1, 2, 7]), rng.randrange(-2 ** 27, 2 ** 27) | 1)]
        if t[1][0] == 1 and t[1][1] < 0:
            t[1] = (1, -t[1][1])
        el = [fine_number(rng, t) for _ in range(r * c)]
        s = operand(rng, 1, o["a"], dict(r=r, c=c, hi=[e[0] for e in el], lo=[e[1] for e in el]))
        line = "un %s %d 1" % (opname(o), 0 if o["op"] == "q" else 2)
        if o["op"] == "filt" or o["to"] in FILTERED:
            k = rng.choice(["x", "xi", "xx", "ii" if o["op"] != "q" else "xi"])
            line += " %s %d %d %d %d" % ((k,) + t[0] + t[1])
        if o["op"] == "q" and o["to"] in THRESHOLD:
            line += " %d" % rng.choice([0, 1, 3, 8])
        out.append(s + [line, "drop 1", "drop 2", "drop 4"])
    return [sum(out[i:i + 8], []) for i in range(0, len(out), 8)]

def large_norms(rng, lst, limit):
    """norms of every representation for elements up to a million, thresholds up to ten thousands; integers of the whole range"""
    lst = [o for o in lst if o["op"] == "q" and o["to"] in ("norm1", "normmax", "norm2", "getnorm", "larger", "smaller")]
    out = []
    pick = sum((rng.sample(lst, len(lst)) for _ in range(limit // len(lst) + 1)), [])[:limit]
    for o in pick:
        r, c = rng.choice([(1, 1), (2, 2), (3, 3), (3, 1), (1, 4), (2, 3)])
        top = 10000 if o["to"] in THRESHOLD else rng.choice([5000, 50000, 1000000])
        n = rng.choice([1, 2, r * c])
        hi = [rng.choice([-1, 1]) * rng.choice([rng.randrange(top // 2, top + 1), rng.randrange(2, 200), top, 4097 % top, 181]) if rng.random() < n / (r * c) else 0 for _ in range(r * c)]
        s = operand(rng, 1, o["a"], dict(r=r, c=c, hi=hi, lo=[0] * (r * c)))
        line = "un %s 0 1" % opname(o)
        if o["to"] in THRESHOLD:
            q = math.isqrt(sum(h * h for h in hi))
            line += " %d" % rng.choice([-1, 0, q - 1, q, q, q + 1, q + 2, 20000])
        out.append(s + [line, "drop 1", "drop 4"])
    edge = [-2147483648, 2147483647, -2147483647, 0, 1, 46341, -46341, 65536, 1 << 30]
    for _ in range(max(limit // 6, 8)):
        r, c = rng.choice([(1, 1), (2, 1), (1, 3), (2, 2), (0, 2)])
        v = [rng.choice(edge + [0, 0, rng.randrange(-(1 << 31), 1 << 31)]) for _ in range(r * c)]
        out.append(["bignorm %d %d %s" % (r, c, " ".join("%d %d" % ((abs(x) // 1000000) * (1 if x >= 0 else -1), (abs(x) % 1000000) * (1 if x >= 0 else -1)) for x in v))])
    rng.shuffle(out)
    return [sum(out[i:i + 6], []) for i in range(0, len(out), 6)]

# ---------------------------------------------------------------- random histories
def result_types(cases):
    """(op, tag a, tag b) -> tag of the new matrix, learned from executed behaviours"""
    res = {}
    for c in cases:
        prev = {}
        for e in c or []:
            now = {x["s"]: x["t"] for x in e.get("all", [])}
            if e.get("a") and e.get("d") and e.get("out") == "ok":
                key = (e["ev"] + ("." + e["to"] if e.get("to") else ""), prev.get(e["a"]), prev.get(e["b"]) if e.get("b") else "")
                res[key] = now.get(e["d"])
            prev = now
    return res

LIFE = ("copy", "move", "cassign", "massign", "swap", "dimeq")

def chain(rng, lst, types, n=14, dim=4, nslots=6, views=True, life=0.0, queries=0.3, cap=2 ** 20, tags=None, warm=0.0, stretch=None):
    """A history of n steps over several matrices. lst: the operations of the driver; types: result_types().
    life: share of copies, moves, swaps, resizes and writes through iterators; warm: ask for norm or occupation before a change"""
    pairs, unary, asks = {}, {}, {}
    for o in lst:
        if o["op"] == "q":
            asks.setdefault(o["a"], []).append(o)
        elif o["b"] and o["op"] not in LIFE:
            pairs.setdefault((o["a"], o["b"]), []).append(o)
        elif o["op"] not in LIFE:
            unary.setdefault(o["a"], []).append(o)
    lives = {t: [o for o in lst if o["op"] in LIFE and o["a"] == t] for t in {o["a"] for o in lst}}
    makeable = tags or sorted({o["a"] for o in lst} | {o["b"] for o in lst if o["b"]})
    makeable = [t for t in makeable if t not in ("V", "W")]
    st, out = {}, []
    dims = [rng.choice([1, 2, 3, dim]) for _ in range(2)]
    if stretch:
        dims = [rng.choice([1, 1, 2]) for _ in range(2)]
        out.append("stretch %d %d" % stretch)
        n += 1
    if rng.random() < .15:
        dims[rng.randrange(2)] = 0
    live = lambda: [s for s in st if not st[s].get("gone")]
    watched = lambda s: any(x.get("base") == s for x in st.values())
    free = lambda s: not watched(s)
    def family(s):
        """slots that share memory with s"""
        b = st[s].get("base", s)
        return [q for q in st if q == b or st[q].get("base") == b]
    def touched(s, hi, lo):
        for q in family(s):
            st[q]["hi"], st[q]["lo"] = max(st[q]["hi"], hi), max(st[q]["lo"], lo)
    def target():
        c = [s for s in range(1, nslots + 1) if free(s)]
        e = [s for s in c if s not in st]
        return rng.choice(e or c) if c else None
    def rebase(f):
        for x in st.values():
            if x.get("base") in f:
                x["base"] = f[x["base"]]
    def ask(s):
        if not asks.get(st[s]["t"]) or st[s]["hi"] > 2500 or st[s]["lo"] > 2500:
            return
        o = rng.choice(asks[st[s]["t"]])
        line = "un %s 0 %d" % (opname(o), s)
        if o["to"] in FILTERED:
            line += " " + (filter_args(rng, False) if rng.random() < .7 else "xf %d %d 0 0" % rng.choice([(0, 0), (0, 3), (1, 0), (2, 0), (5, 0)]))
        if o["to"] in THRESHOLD:
            line += " %d" % rng.choice([-1, 0, 1, 2, 3, 5, 10, 20, 40])
        out.append(line)
    def value(t, edge=9):
        return rng.randrange(-edge, edge + 1), (0 if t == "I" else rng.choice([0, 0, rng.randrange(-9, 10)]))
    def do_make():
        s = target()
        if s is None:
            return
        others = [x for k, x in st.items() if k != s]
        t = rng.choice(makeable)
        # prefer a partner some operation exists for
        if others and rng.random() < .8:
            x = rng.choice(others)
            p = [b for (a, b) in pairs if a == x["t"] and b in makeable] + [a for (a, b) in pairs if b == x["t"] and a in makeable]
            if life and rng.random() < .6 and x["t"] in makeable:
                p = [x["t"]]
            if p:
                t = rng.choice(p)
        t2 = t if t != "Y" else rng.choice(DYN)
        r, c = rng.choice(dims), rng.choice(dims)
        mt = matrix(rng, r, c)
        out.append(make(rng, s, t2, mt))
        st[s] = dict(t=t, r=r, c=c, hi=max([abs(v) for v in mt["hi"]] + [3]) + 2, lo=max([abs(v) for v in mt["lo"]] + [0]), f=is_float(t2))
    def do_view():
        b = [s for s in live() if st[s]["t"] in ("DC", "FC", "V", "W")]
        d = [s for s in range(1, nslots + 1) if s not in st]
        if not b or not d:
            return
        b, d = rng.choice(b), rng.choice(d)
        x = st[b]
        r0, c0 = rng.randint(0, x["r"]), rng.randint(0, x["c"])
        r, c = rng.randint(0, x["r"] - r0), rng.randint(0, x["c"] - c0)
        out.append("view %d %d %d %d %d %d" % (d, b, r0, c0, r, c))
        st[d] = dict(t="W" if x["f"] else "V", r=r, c=c, hi=x["hi"], lo=x["lo"], f=x["f"], base=x.get("base", b))
    def do_life():
        s = rng.choice(list(st))
        x = st[s]
        k = rng.random()
        if k < .2 and x["t"] in DENSE + SPARSE + ZERO + ["I"] and free(s) and not stretch:
            r, c = (x["r"], x["c"]) if rng.random() < .3 else (rng.choice(dims + [0, dim]), rng.choice(dims + [0, dim]))
            if rng.random() < .3 and r * c == 0 and x["t"] in SPARSE:
                return
            if x["t"] in DENSE + ["I"] and rng.random() < .5:
                h, l = value(x["t"])
                out.append("resize %d %d %d f %d %d" % (s, r, c, h, l))
                mt = dict(hi=[h], lo=[l])
            else:
                mt = matrix(rng, r, c)
                if x["t"] == "I":
                    mt["lo"] = [0] * (r * c)
                out.append("resize %d %d %d e %s" % (s, r, c, " ".join("%d %d" % e for e in zip(mt["hi"], mt["lo"]))))
            st[s] = dict(t=x["t"], r=r, c=c, hi=max([abs(v) for v in mt["hi"]] + [3]), lo=max([abs(v) for v in mt["lo"]] + [0]), f=x["f"])
            return
        if x.get("gone"):
            p = [o for o in lives.get(x["t"], []) if o["op"] in ("cassign", "massign")]
            b = [q for q in live() if st[q]["t"] == x["t"]]
            if p and b:
                do_pair(rng.choice(p)["op"], s, rng.choice(b))
            return
        if k < .3 and x["t"] in DENSE + ["V", "W", "I"]:
            h, l = value(x["t"])
            out.append("fill %d %s %d %d" % (s, rng.choice("mis"), h, l))
            touched(s, abs(h), abs(l))
            return
        if k < .5 and x["t"] in DENSE + SPARSE + ["V", "W"] and x["r"] * x["c"] and not stretch:
            h, l = value(x["t"])
            out.append("store %d %s %d %d %d" % (s, rng.choice("ip"), rng.randrange(x["r"] * x["c"]), h, l))
            touched(s, abs(h), abs(l))
            return
        p = lives.get(x["t"])
        if not p:
            return
        o = rng.choice(p)
        if o["op"] in ("copy", "move"):
            d = target()
            if d is None or d == s:
                return
            out.append("un %s %d %d" % (o["op"], d, s))
            st[d] = dict(x)
            if o["op"] == "move":
                rebase({s: d})
                st[s] = dict(x, gone=True)
                st[s].pop("base", None)
            return
        b = [q for q in live() if st[q]["t"] == o["b"]]
        if b:
            do_pair(o["op"], s, rng.choice(b))
    def do_pair(op, a, b):
        x, y = st[a], st[b]
        if op == "dimeq":
            out.append("bin dimeq 0 %d %d" % (a, b))
            return
        if op == "swap":
            out.append("bin swap 0 %d %d" % (a, b))
            if a != b:
                st[a], st[b] = y, x
                rebase({a: b, b: a})
            return
        if (a != b or op == "massign") and not free(a) or (a == b and op == "massign"):
            return
        if y.get("base") == a:
            return
        out.append("bin %s 0 %d %d" % (op, a, b))
        st[a] = dict(y)
        if op == "massign":
            rebase({b: a})
            st[b] = dict(y, gone=True)
            st[b].pop("base", None)
    guard = 0
    while len(out) < n and guard < 50 * n:
        guard += 1
        k = rng.random()
        if len(live()) < 2 or k < .2 * (1 - life):
            do_make()
            continue
        if views and k < .28 * (1 - life):
            do_view()
            continue
        if warm and rng.random() < warm:
            ask(rng.choice(live()))
        if rng.random() < life:
            do_life()
            continue
        k = rng.random()
        if k < .1:
            s = rng.choice(live())
            x = st[s]
            if x["t"] in DENSE + ["V", "W"] and x["r"] and x["c"] and not stretch:
                h, l = value(x["t"])
                out.append("set %d %d %d %d %d" % (s, rng.randrange(x["r"]), rng.randrange(x["c"]), h, l))
                touched(s, abs(h), abs(l))
            continue
        if k < .14:
            s = rng.choice(list(st))
            if free(s):
                out.append("drop %d" % s)
                del st[s]
            continue
        a = rng.choice(live())
        x = st[a]
        if asks and rng.random() < queries:
            ask(a)
            continue
        if unary.get(x["t"]) and rng.random() < (.5 if len(pairs) > len(unary) else .9):
            o = rng.choice(unary[x["t"]])
            d = target()
            rt = types.get((opname(o), x["t"], ""))
            if d is None or not rt:
                continue
            line = "un %s %d %d" % (opname(o), d, a)
            if o["op"] == "filt":
                line += " " + filter_args(rng)
            out.append(line)
            r, c = (x["c"], x["r"]) if o["op"] == "trans" else (x["r"], x["c"])
            st[d] = dict(t=rt, r=r, c=c, hi=x["hi"], lo=x["lo"], f=is_float(rt) or (rt == "Y" and x["f"]))
            continue
        b = rng.choice(live())
        y = st[b]
        os_ = pairs.get((x["t"], y["t"]))
        if not os_:
            continue
        o = rng.choice(os_)
        if o["op"] == "mul":
            if x["c"] != y["r"] or (x["lo"] and y["lo"]):
                continue
            kk = max(1, x["c"])
            hi, lo = kk * x["hi"] * y["hi"], kk * (x["hi"] * y["lo"] + x["lo"] * y["hi"])
        elif o["op"] == "assign":
            if (a != b and not free(a)) or x["t"] in ("V", "W") or y.get("base") == a:
                continue
            hi, lo = y["hi"], y["lo"]
        else:
            if (x["r"], x["c"]) != (y["r"], y["c"]):
                continue
            hi, lo = x["hi"] + y["hi"], x["lo"] + y["lo"]
        if hi > cap or lo > cap:
            continue
        if o["op"] in ("iadd", "isub", "assign"):
            if o["op"] != "assign" and overlap(st, a, b):
                continue
            out.append("bin %s 0 %d %d" % (opname(o), a, b))
            touched(a, hi, lo)
            if o["op"] == "assign":
                x.update(r=y["r"], c=y["c"])
            if warm:
                ask(a)
            continue
        d = target()
        rt = types.get((opname(o), x["t"], y["t"]))
        if d is None or not rt:
            continue
        out.append("bin %s %d %d %d" % (opname(o), d, a, b))
        r, c = (x["r"], y["c"]) if o["op"] == "mul" else (x["r"], x["c"])
        st[d] = dict(t=rt, r=r, c=c, hi=hi, lo=lo, f=is_float(rt) or (rt == "Y" and x["f"] and y["f"]))
    return out

LIFE_TAGS = DENSE + SPARSE + ZERO + ["I"]

REPEATS = [(257, 1), (1, 258), (260, 260), (130, 130), (66000, 1), (1, 67000), (33000, 1)]

def stretched(rng, lst, types, count, repeats=REPEATS, **how):
    """histories of matrices that repeat a small one many times: whatever works elementwise commutes with that"""
    out = []
    for _ in range(count):
        k = rng.choice(repeats)
        some = [o for o in lst if o["op"] != "mul" and (o["op"] != "q" or o["to"] not in ("larger", "smaller")) and (o["op"] != "trans" or k[0] == k[1])]
        if some:
            out.append(chain(rng, some, types, dim=2, nslots=4, views=False, stretch=k, **how))
    return out

def stretched_mul(rng, lst, limit, group=2):
    """products with many rows or columns"""
    lst = [o for o in lst if o["op"] == "mul"]
    rng.shuffle(lst)
    out = []
    for o in lst[:limit]:
        d = [rng.randint(1, 2) for _ in range(3)]
        k = rng.choice([300, 33000, 66000])
        left = rng.random() < .5
        out.append(["stretch %d 1" % (k if left else 1)] + operand(rng, 1, o["a"], matrix(rng, d[0], d[1], "int")) + ["stretch 1 %d" % (1 if left else k)] + operand(rng, 2, o["b"], matrix(rng, d[1], d[2], "int"))
                   + ["bin %s 3 1 2" % opname(o)] + ["drop %d" % x for x in (1, 2, 3, 4, 5)])
    return [sum(out[i:i + group], []) for i in range(0, len(out), group)]

def life_script(rng, h, tag, asks=False):
    """h: history emitted by MCLife; asks: query norm and occupation of everything before and after every step"""
    kinds = {1: "own", 2: "own"}
    def ramp(r, c, k):
        e = [k + i + 2 * j for j in range(c) for i in range(r)]
        return {"r": r, "c": c, "hi": e, "lo": [0] * (r * c)}
    out = [make(rng, 1, tag, ramp(2, 3, 1)), make(rng, 2, tag, ramp(1, 2, 10))]
    def ask(n):
        for s, k in sorted(kinds.items()):
            if not asks or k == "gone":
                continue
            if asks == "dims":
                out.append("un q.dims 0 %d" % s)
                o = rng.choice(sorted(kinds))
                if kinds[o] == kinds[s] or (kinds[s], kinds[o]) == (("view", "own") if tag == "DC" else ("own", "view")) or (tag, kinds[s], kinds[o]) == ("DC", "own", "view"):
                    out.append("bin dimeq 0 %d %d" % (s, o))
                continue
            if tag in ZERO:
                out.append(rng.choice(["un q.getnorm 0 %d", "un q.larger 0 %d 0"]) % s)
                continue
            out.append("un q.getnorm 0 %d" % s)
            out.append("un q.%s 0 %d %s %d 0 %d 0%s" % (rng.choice([("nsig", s, "x", n - 1, 0, ""), ("nsig", s, "xf", n - 1, 0, ""), ("occ", s, "ii", n, n + 1, ""),
                       ("occs", s, "x", 9, 0, " 1"), ("nsig", s, "xi", 1, 12, "")])))
    ask(12)
    for e in h:
        op, d, a, b, n = e["op"], e["d"], e["a"], e["b"], e["n"]
        if op in ("copy", "move"):
            out.append("un %s %d %d" % (op, d, a))
            kinds[d] = kinds[a]
            if op == "move":
                kinds[a] = "gone"
        elif op in ("cassign", "massign"):
            out.append("bin %s 0 %d %d" % (op, a, b))
            kinds[a] = kinds[b]
            if op == "massign":
                kinds[b] = "gone"
        elif op == "swap":
            out.append("bin swap 0 %d %d" % (a, b))
        elif op == "resize":
            k = e["r"] * e["c"]
            if tag in DENSE + ["I"] and n % 2:
                out.append("resize %d %d %d f %d 0" % (d, e["r"], e["c"], n))
            else:
                out.append("resize %d %d %d e %s" % (d, e["r"], e["c"], " ".join("%d 0" % (n if i % 3 else n - 27) for i in range(k))))
            kinds[d] = "own"
        elif op == "fill" and tag in DENSE + ["I"]:
            out.append("fill %d %s %d 0" % (d, rng.choice("mis"), n))
        elif op == "store" and tag in DENSE + SPARSE:
            out.append("store %d %s %d %d 0" % (d, rng.choice("ip"), e["r"], n))
        elif op == "drop":
            out.append("drop %d" % d)
            kinds.pop(d)
        elif op == "view":
            out.append("view %d %d 0 1 %d %d" % (d, a, e["r"], e["c"]))
            kinds[d] = "view"
        ask(n)
    return out + ["drop %d" % s for s in rng.sample(sorted(kinds), len(kinds)) if kinds[s] == "view"] + ["end"]

def life_scripts(ck, limit, asks=False, group=6):
    """histories of MCLife, every one for some representation"""
    out = []
    for cfg, tags in (("MCLife", ["DC", "FC"]), ("MCLife_plain", [t for t in LIFE_TAGS if t not in ("DC", "FC")])):
        hs = ck.model_check("MCLife", cfg + ("_deep" if ck.thorough else ""))
        hs.sort(key=lambda v: json.dumps(v))
        ck.extra["behaviours_from_spec"] = ck.extra.get("behaviours_from_spec", 0) + len(hs)
        k = limit * (12 if ck.thorough else 1)
        if len(hs) > k:
            hs = ck.rng.sample(hs, k)
        out += [life_script(ck.rng, h, tags[i % len(tags)], asks) for i, h in enumerate(hs)]
    ck.extra["behaviours_executed"] = ck.extra.get("behaviours_executed", 0) + len(out)
    ck.rng.shuffle(out)
    return [sum(out[i:i + group], []) for i in range(0, len(out), group)]

def overlap(st, a, b):
    """operands of a compound assignment that share memory without being the same matrix"""
    ra, rb = st[a].get("base", a), st[b].get("base", b)
    return a != b and ra == rb

def decide(ck, exe, limit, chains, cfg=None, mc=None, deep="MCMatrixPairs_deep", views=True, n=14, corrupt=corrupt, keep=None, module="MCMatrixPairs", long=72, structure=True, **how):
    """The usual course: every behaviour of the specification, then random histories, then the binding."""
    raw = ops(ck, exe)
    if keep:
        raw = [o for o in raw if keep(o)]
    scripts = spec_scripts(ck, exe, expand_dyn([o for o in raw if o["op"] not in LIFE]), cfg=mc, deep=deep, limit=limit, module=module)
    cases = ck.conform(MODULE, exe, scripts, "spec-behaviour", cfg=cfg, sig=sig)
    types = result_types(cases)
    rnd = [chain(ck.rng, raw, types, n=n, views=views, dim=ck.rng.choice([2, 3, 4, 5]), **how) for _ in range(chains * (12 if ck.thorough else 1))]
    cases += ck.conform(MODULE, exe, rnd, "random-history", cfg=cfg, sig=sig)
    if long:
        lines = long_lines(ck.rng, expand_dyn(raw), long * (8 if ck.thorough else 1), group=3)
        cases += ck.conform(MODULE, exe, lines, "long-lines", cfg=cfg, sig=sig)
        reps = stretched(ck.rng, raw, types, 16 * (8 if ck.thorough else 1), n=9) if structure else []
        reps += stretched_mul(ck.rng, [o for o in expand_dyn(raw) if "V" not in (o["a"], o["b"]) and "W" not in (o["a"], o["b"])], 24 * (8 if ck.thorough else 1))
        cases += ck.conform(MODULE, exe, reps, "repeated", cfg=cfg, sig=sig) if reps else []
    ck.extra["operation_pairs"] = len(raw)
    if not ck.violations:
        ck.demonstrate_binding(MODULE, cases, corrupt, cfg=cfg)
    return cases
