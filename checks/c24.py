"""C24: violated preconditions are rejected, without effect; admissible calls are accepted."""
import json
import blocks as bl, matlab as ml
ASSUMPTIONS = ["the library is built with failures as exceptions (BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION), its documented way of reporting them",
               "any exception counts as a rejection"]
PARTS = [("mat/ops_reject.cpp", None), ("mat/ops_life.cpp", None)] + [("mat/ops_add.cpp", p) for p in (1, 2, 3, 4, 5, 6, 7)] + \
        [("mat/ops_mul.cpp", p, "BACKEND=0") for p in (1, 2, 3, 4, 5, 6)] + [("mat/ops_mul.cpp", 7, "BACKEND=2"), ("mat/ops_conv.cpp", 1)]
BIN = ("add", "sub", "mul", "iadd", "isub")

def ramp(v):
    return " ".join("%d 0" % h for h in v["hi"])

def fits(op, p, q):
    return p[1] == q[0] if op == "mul" else tuple(p) == tuple(q)

def script(rng, v):
    o, k, a, b = v["o"], v["k"], v["a"], v["b"]
    if k in BIN:
        return ml.operand(rng, 1, o["a"], a) + ml.operand(rng, 2, o["b"], b) + ["bin %s %d 1 2" % (ml.opname(o), 0 if k in ("iadd", "isub") else 3)]
    if k == "view":
        return ml.operand(rng, 1, o["a"], a) + ["view 3 1 %d %d %d %d" % tuple(v["w"])]
    if k == "diag":
        return ml.operand(rng, 1, o["a"], a) + ["diag 1 5 0"]
    if k in ("extresize", "extassign"):
        out = ["ext 1 %d %d %s" % (a["r"], a["c"], ramp(a))]
        if k == "extassign":
            return out + [ml.make(rng, 2, "DC", b), "bin assign 0 1 2"]
        return out + ["resize 1 %d %d e %s" % (b["r"], b["c"], ramp(b))]
    if k in ("pair", "preset"):
        line = "%s 1 %s %d %d %d %d" % ((k, o["a"]) + tuple(v["p"]) + tuple(v["q"]))
        return [line] if k == "pair" else ["pair 1 %s 1 2 1 2" % o["a"], line]
    if k == "literal":
        return ["literal 1 %s %s" % (o["a"], " ".join(map(str, v["rows"])))]

def grid_script(rng, v):
    if v["k"] == "block":
        x = {"r": 3, "c": 2, "hi": [1 + i + 2 * j for j in range(2) for i in range(3)], "lo": [0] * 6}
        t = {"d": [0, 0], "s": [3, 0], "den": 1, "occ": [[0, 0]] * 6 + [[1, 1]]}
        return [ml.make(rng, 1, rng.choice(["DC", "FC"]), x), "block 5 1 %s %s %s" % (bl.seq(v["rows"]), bl.seq(v["cols"]), bl.th(t)), "? un conv.DC 6 5"] + ["drop 1", "drop 5", "drop 6"]
    n, k, sh = v["br"], v["bc"], v["sh"]
    out = []
    for p, (r, c) in enumerate(sh):
        e = [p + 1 + 2 * i + 3 * j for j in range(c) for i in range(r)]
        out.append(bl.make(rng, p + 1, rng.choice(["Y.DC", "Y.DC", "Y.FC", "Y.SC", "Y.GC"]), {"r": r, "c": c, "hi": e, "lo": [0] * (r * c)}))
    out.append("grid 5 l %s %s %s" % (bl.seq([s[0] for s in sh[:n]]), bl.seq([sh[j * n][1] for j in range(k)]), " ".join(str(p + 1) for p in range(n * k))))
    return out + ["? un conv.DC 6 5"] + ["drop %d" % s for s in range(1, 7)]

def corrupt(c, rng):
    """a rejected call that is accepted, or the other way round"""
    es = [e for e in c if e.get("out") and e["ev"] in BIN + ("view", "diag", "pair", "preset", "literal")]
    if es:
        e = rng.choice(es)
        e["out"] = "rejected" if e["out"] == "ok" else "ok"
        return c

def history(rng, raw, n=16):
    """a few matrices, valid and invalid calls in between"""
    tags, st, out = sorted({o["a"] for o in raw} | {o["b"] for o in raw}), {}, []
    pairs = {}
    for o in raw:
        pairs.setdefault((o["a"], o["b"]), []).append(o)
    tags = [t for t in tags if t not in ("V", "W") and t[:1] != "Y"]
    pool = rng.sample(tags, min(len(tags), 4)) + ["DC", "FC"]
    dims = [rng.choice([0, 1, 2, 3, 4]) for _ in range(2)]
    free = lambda s: not any(x.get("base") == s for x in st.values())
    while len(out) < n:
        k = rng.random()
        e = [s for s in range(1, 6) if s not in st]
        if e and (len(st) < 3 or k < .15):
            s, t = e[0], rng.choice(pool)
            r, c = rng.choice(dims), rng.choice(dims)
            mt = {"r": r, "c": c, "hi": [rng.randrange(-4, 5) for _ in range(r * c)], "lo": [0] * (r * c)}
            out.append(ml.make(rng, s, t, mt))
            st[s] = {"t": t, "r": r, "c": c}
            continue
        a, b = rng.choice(list(st)), rng.choice(list(st))
        x, y = st[a], st[b]
        if k < .3 and e and x["t"] in ("DC", "FC", "V", "W"):
            w = [rng.randrange(0, x["r"] + 2), rng.randrange(0, x["c"] + 2), rng.randrange(0, x["r"] + 2), rng.randrange(0, x["c"] + 2)]
            if rng.random() < .5:
                w = [rng.randint(0, x["r"]), rng.randint(0, x["c"])]
                w += [rng.randint(0, x["r"] - w[0]), rng.randint(0, x["c"] - w[1])]
            out.append("view %d %d %d %d %d %d" % ((e[-1], a) + tuple(w)))
            if w[0] + w[2] <= x["r"] and w[1] + w[3] <= x["c"]:
                st[e[-1]] = {"t": "W" if x["t"] in ("FC", "W") else "V", "r": w[2], "c": w[3], "base": x.get("base", a)}
            continue
        if k < .4 and x["t"] in ("DC", "DR", "FC", "FR", "V", "W"):
            out.append("diag %d %d 0" % (a, rng.randrange(1, 9)))
            continue
        ops = pairs.get((x["t"], y["t"]), [])
        if not ops or ml.overlap(st, a, b):
            continue
        o = rng.choice(ops)
        ok = fits(o["op"], (x["r"], x["c"]), (y["r"], y["c"]))
        if ok and rng.random() < .5:
            continue
        if o["op"] in ("iadd", "isub"):
            out.append("bin %s 0 %d %d" % (ml.opname(o), a, b))
        elif e:
            out.append("bin %s 6 %d %d" % (ml.opname(o), a, b))
            if ok:
                out.append("drop 6")
    return out

def run(ck):
    f = 12 if ck.thorough else 1
    exe = ml.build(ck, "c24", PARTS)
    raw = [o for o in ml.ops(ck, exe) if o["op"] in BIN]
    vs = ck.model_check("MCPreconditions", "MCPreconditions_deep" if ck.thorough else None, env={"OPS": ml.ops_file(ck, ml.expand_dyn(raw))})
    vs.sort(key=lambda v: json.dumps(v, sort_keys=True))
    one = [v for v in vs if v["k"] in BIN]
    two = [v for v in vs if v["k"] not in BIN]
    ck.extra["behaviours_from_spec"] = len(vs)
    ck.rng.shuffle(one)
    ck.rng.shuffle(two)
    by = {}
    for v in one:       # every operation with some operands that fit and some that do not
        by.setdefault((json.dumps(v["o"], sort_keys=True), fits(v["k"], v["p"], v["q"])), []).append(v)
    one = [v for (o, ok), q in sorted(by.items()) for v in q[:(1 if ok else 3) * f]]
    two = two[:1800 * f]
    vs = one + two
    ck.extra["behaviours_executed"] = len(vs)
    sc = [script(ck.rng, v) + ["drop %d" % s for s in (3, 1, 2, 4, 5)] for v in vs]
    cases = ck.conform(ml.MODULE, exe, [sum(sc[i:i + 8], []) for i in range(0, len(sc), 8)], "spec-behaviour", sig=ml.sig)
    cases += ck.conform(ml.MODULE, exe, [history(ck.rng, raw) for _ in range(200 * f)], "random-history", sig=ml.sig)
    gexe = bl.build(ck, "c24b")
    gs = ck.model_check("MCGrids", "MCGrids_deep" if ck.thorough else None)
    gs.sort(key=lambda v: json.dumps(v, sort_keys=True))
    ck.rng.shuffle(gs)
    gs = [grid_script(ck.rng, v) for v in gs[:1200 * f]]
    ck.conform(bl.MODULE, gexe, [sum(gs[i:i + 8], []) for i in range(0, len(gs), 8)], "grids", sig=bl.sig)
    bexe = ck.build(["block_size.cpp"], name="c24c", defs=ml.DEFS, opt="-O0")
    ck.conform("BlockSizeTrace", bexe, [["ctor %d %d" % (a, b) for b in range(0, 24)] for a in range(0, 13)] + [["ctor 200 1000", "ctor 500 1000", "ctor 501 1000", "ctor 200 399", "ctor 1000000000 1000"]],
               "limits", sig=lambda tr, i: "ctor")
    prods = []
    for r, k, l, c in [(r, k, l, c) for r in (1, 2, 5) for k in (1, 2, 4, 5) for l in (1, 2, 4, 5) for c in (1, 3)]:
        mn = ck.rng.choice([1, 2])
        m = lambda a, b: " ".join([str(a), str(b)] + [str(ck.rng.randrange(-3, 4)) for _ in range(a * b)])
        prods.append(["mult %s %d %d %s %s" % (ck.rng.choice(["dc", "fc", "dr", "fr"]), mn, ck.rng.choice([2 * mn, 7]), m(r, k), m(l, c))])
    ck.conform("BlockSizeTrace", bexe, prods, "block sizes of a product", sig=lambda tr, i: str(tr[i].get("ev")))
    if not ck.violations:
        ck.demonstrate_binding(ml.MODULE, cases, corrupt)
