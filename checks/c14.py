"""C14: views, cursors and strided iterators visit exactly the right elements in order."""
import matlab as ml
ASSUMPTIONS = ["places are compared with places of the same line only (iterators of one object, inner cursors of one row or column)",
               "iterators do not leave the line they walk: one place before its first and one behind its last element",
               "row-major submatrices cannot be instantiated (their constructor does not compile) and are not covered"]
DIRS = ["Row", "Column", "Major", "Minor"]

def is_row(row, d):
    return d == "Row" or d == ("Minor" if row else "Major")

class Obj:
    def __init__(self, kind, r, c, row=False):
        self.kind, self.r, self.c, self.row = kind, r, c, row
    def length(self, p):
        if p["k"] == "iter":
            return self.r * self.c
        return self.r if is_row(self.row, p["d"]) else self.c

HOW = ["", "", "copied", "moved", "assigned", "assigned", "handed", "swapped", "itself"]

def settled(rng, lines):
    """the objects may be copies of others, or have been other objects before"""
    out = []
    for line in lines:
        # a copy of a matrix has memory of its own
        how = rng.choice([h for h in HOW if h != "copied" or not line.startswith("matrix")])
        out.append((line + " " + how).strip())
    return out

def decl(rng, x):
    lines, o = declared(rng, x)
    return settled(rng, lines), o

def declared(rng, x):
    h = x["how"]
    if h == "range":
        return ["range %d %d %d %d" % (x["a"], x["b"], x["c"], x["d"])], Obj("range", x["b"], x["c"])
    if h in ("col", "row"):
        return ["matrix %s %d %d %d" % (h, x["a"], x["b"], x["c"])], Obj("matrix", x["b"], x["c"], h == "row")
    w = (x["r0"], x["c0"], x["r"], x["cc"])
    out = ["matrix col %d %d %d" % (x["a"], x["b"], x["c"])]
    if rng.random() < .5:
        out.append("window %d %d %d %d" % w)
    else:           # the same window as a window of a window
        r0, c0 = rng.randint(0, w[0]), rng.randint(0, w[1])
        out.append("window %d %d %d %d" % (r0, c0, rng.randint(w[0] + w[2], x["b"]) - r0, rng.randint(w[1] + w[3], x["c"]) - c0))
        out.append("window %d %d %d %d" % (w[0] - r0, w[1] - c0, w[2], w[3]))
    return out, Obj("window", w[2], w[3])

def start(rng, o, s, const, slot=1):
    """lines that put a place, its kind and position"""
    cs = " c" if const else ""
    if s["k"] == "iter":
        pos = {"begin": 0, "end": o.r * o.c, "rbegin": o.r * o.c - 1, "rend": -1}[s["from"]]
        return ["it %d %s%s" % (slot, s["from"], cs)], {"k": "iter", "pos": pos}
    if s["k"] == "outer":
        n = o.length({"k": "outer", "d": s["d1"]})
        pos = 0 if s["from"] == "begin" else n
        return ["outer %d %s %d%s" % (slot, s["d1"], pos, cs)], {"k": "outer", "d": s["d1"], "pos": pos}
    n = o.length({"k": "inner", "d": s["d2"]})
    return ["outer 5 %s %d%s" % (s["d1"], s["line"], cs), "inner %d 5 %s %s" % (slot, s["d2"], s["from"])], {"k": "inner", "d": s["d2"], "line": s["line"], "pos": 0 if s["from"] == "begin" else n}

def look(rng, o, p, slot, const, out):
    n = o.length(p)
    if p["k"] == "outer":
        out.append("index %d" % slot)
    elif 0 <= p["pos"] < n:
        out.append("read %d" % slot if const or rng.random() < .7 else "write %d %d" % (slot, rng.randint(50, 99)))

def walk(rng, v):
    """a behaviour of MCTraversal"""
    lines, o = decl(rng, v["x"])
    const = rng.random() < .4
    out = ["memory " + rng.choice("dfi")] + lines
    st, p = start(rng, o, v["s"], const)
    out += st
    if v["s"]["k"] == "inner":      # where the line ends
        out += ["inner 2 5 %s begin" % v["s"]["d2"], "inner 3 5 %s end" % v["s"]["d2"]]
    elif v["s"]["k"] == "iter":
        out += ["it 2 begin" + (" c" if const else ""), "it 3 end" + (" c" if const else "")]
    else:
        out += ["outer 2 %s 0%s" % (v["s"]["d1"], " c" if const else ""), "outer 3 %s %d%s" % (v["s"]["d1"], o.length(p), " c" if const else "")]
    n = o.length(p)
    low = -1 if p["k"] == "iter" and o.kind != "matrix" else 0
    if p["k"] == "iter" and n == 0:     # nothing to step over
        low, n = p["pos"], p["pos"]
    look(rng, o, p, 1, const, out)
    fwd = v["fwd"]
    for g in v["g"]:
        for _ in range(g):
            if (p["pos"] >= n) if fwd else (p["pos"] <= low):
                break
            out.append("next 1" if fwd else "prev 1")
            p["pos"] += 1 if fwd else -1
            look(rng, o, p, 1, const, out)
            if p["pos"] in (-1, 0, n - 1, n):
                out.append("eq 1 %d" % rng.choice([2, 3]))
        out.append("eq 1 %d" % rng.choice([2, 3]))
        fwd = not fwd
    return out

def wide(rng):
    """more than 255 blocks, rows or columns"""
    how = rng.choice(["range", "col", "row", "window"])
    b, c = rng.choice([(1, rng.randint(128, 330)), (2, rng.randint(128, 330)), (rng.randint(128, 330), 1), (rng.randint(128, 330), 2)])
    x = {"how": how, "a": rng.randint(1, 4), "b": b, "c": c, "d": rng.randint(0, 1) if how == "range" and b == 1 else 0, "r0": 0, "c0": 0, "r": 0, "cc": 0}
    if how == "window":
        x["r0"], x["c0"] = rng.randint(0, min(1, b - 1)), rng.randint(0, min(1, c - 1))
        x["r"], x["cc"] = b - x["r0"], c - x["c0"] - rng.randint(0, 0 if c < 3 else 1)
    return x

def anything(rng):
    how = rng.choice(["range", "range", "col", "row", "window", "window"])
    while True:
        x = {"how": how, "a": rng.randint(1, 4), "b": rng.randint(0, 6), "c": rng.randint(0, 6), "d": rng.randint(0, 4), "r0": 0, "c0": 0, "r": 0, "cc": 0}
        if how == "range" and x["a"] + (x["b"] + x["d"]) * x["c"] < 39 or how != "range" and x["a"] + x["b"] * x["c"] < 39:
            break
    if how == "window":
        x["r0"], x["c0"] = rng.randint(0, x["b"]), rng.randint(0, x["c"])
        x["r"], x["cc"] = rng.randint(0, x["b"] - x["r0"]), rng.randint(0, x["c"] - x["c0"])
    return x

def history(rng, n=40, shape=None):
    out = ["memory " + rng.choice("dfi")]
    o, st = None, {}
    while len(out) < n:
        k = rng.random()
        if o is None or k < .06:
            lines, o = decl(rng, (shape or anything)(rng))
            out += lines
            st = {}
            continue
        if k < .2:
            out.append("walk %s%s" % (rng.choice(["begin", "end"] + (["rbegin"] if o.kind != "matrix" else [])), rng.choice(["", " c"])))
            continue
        if k < .3 and o.kind != "range":
            d1 = rng.choice(DIRS)
            d2 = rng.choice([d for d in DIRS if is_row(o.row, d) != is_row(o.row, d1)])
            out.append("loops %s %s%s" % (d1, d2, rng.choice(["", " c"])))
            continue
        if k < .34:
            out.append("fill %d" % rng.randint(100, 120))
            continue
        if k < .4 and o.kind != "range":
            out.append("copyin %s %d" % (rng.choice(["col", "row", "window"]), rng.randint(100, 200)))
            continue
        free = [s for s in range(1, 5) if s not in st]
        if (not st or k < .5) and free:
            kind = rng.choice(["iter"] if o.kind == "range" else ["iter", "outer", "inner", "inner"])
            const = rng.random() < .4
            if kind == "iter":
                s = {"k": "iter", "from": rng.choice(["begin", "end"] + (["rbegin", "rend"] if o.kind != "matrix" else []))}
            else:
                d1 = rng.choice(DIRS)
                d2 = rng.choice([d for d in DIRS if is_row(o.row, d) != is_row(o.row, d1)])
                m = o.length({"k": "outer", "d": d1})
                if kind == "inner" and m == 0:
                    continue
                s = {"k": kind, "from": rng.choice(["begin", "end"]), "d1": d1, "d2": d2, "line": rng.randrange(m) if m else 0}
            lines, p = start(rng, o, s, const, free[0])
            out += lines
            p.update(const=const, d1=s.get("d1"))
            st[free[0]] = p
            continue
        if not st:
            continue
        s = rng.choice(list(st))
        p = st[s]
        n_ = o.length(p)
        low = -1 if p["k"] == "iter" and o.kind != "matrix" else 0
        if p["k"] == "iter" and n_ == 0:
            low, n_ = p["pos"], p["pos"]
        if k < .58 and free:
            c = p["k"] == "iter" and rng.random() < .3
            q = [t for t in st if t != s and p["k"] == "iter" and st[t]["k"] == "iter" and st[t]["const"] == p["const"]]
            if q and rng.random() < .3:
                q = rng.choice(q)
                out.append("assign %d %d" % (q, s))
                st[q] = dict(p)
                continue
            out.append("copy %d %d%s" % (free[0], s, " c" if c else ""))
            st[free[0]] = dict(p, const=p["const"] or c)
        elif k < .68:
            q = [t for t in st if all(st[t].get(x) == p.get(x) for x in ("k", "d", "line", "d1", "const"))]
            out.append("eq %d %d" % (s, rng.choice(q)))
        elif k < .85 and p["pos"] < n_:
            out.append("next %d" % s)
            p["pos"] += 1
        elif p["pos"] > low:
            out.append("prev %d" % s)
            p["pos"] -= 1
        look(rng, o, p, s, p["const"], out)
        if rng.random() < .04:
            del st[s]
    return out

def sig(tr, i):
    e = tr[i]
    k = [x for x in tr[:i + 1] if x["ev"] in ("range", "matrix", "window")]
    return "%s:%s:%s" % (k[-1]["ev"] if k else "", e.get("ev"), e.get("from", ""))

def corrupt(c, rng):
    es = [e for e in c if e["ev"] in ("read", "walk") and (e["ev"] == "read" or len(e["offs"]) > 1)]
    if es:
        e = rng.choice(es)
        if e["ev"] == "read":
            e["off"] += 1
        else:
            e["offs"][0] += 1
        return c

def run(ck):
    f = 12 if ck.thorough else 1
    exe = ck.build(["traverse.cpp"], defs=ml.DEFS, opt="-O0", flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    env = {"ASAN_OPTIONS": "detect_leaks=0"}
    vs = ck.model_check("MCTraversal", "MCTraversal_deep" if ck.thorough else None)
    vs.sort(key=str)
    ck.extra["behaviours_from_spec"] = len(vs)
    vs = ck.rng.sample(vs, min(len(vs), 4000 * f))
    ck.extra["behaviours_executed"] = len(vs)
    sc = [walk(ck.rng, v) for v in vs]
    cases = ck.conform("TraversalTrace", exe, [sum(sc[i:i + 10], []) for i in range(0, len(sc), 10)], "spec-walk", sig=sig, denv=env)
    cases += ck.conform("TraversalTrace", exe, [history(ck.rng, 40) for _ in range(600 * f)], "random-history", sig=sig, denv=env)
    ck.conform("TraversalTrace", exe, [history(ck.rng, 24, wide) for _ in range(60 * f)], "wide", cfg="TraversalTrace_wide", sig=sig, denv=dict(env, MEMORY="720"))
    if not ck.violations:
        ck.demonstrate_binding("TraversalTrace", cases, corrupt)
