"""C22: fillers and generators produce the documented contents."""
import os, vlib
ASSUMPTIONS = ["a sparse matrix is filled when it holds every position (constructed for all of them); its positions are set by the filler of increasing numbers",
               "random matrices: seeds 1, 2, ... below the period of the standard engine are told apart, seed 0 is not (it may equal another seed); the occupation setting is not used by the generator",
               "numbers are random up to the sign, both halves of the range of exponents and dependence on the seed; their distribution is not tested further",
               "a filler that does not fit the shape is only tried on construction and on existing matrices"]
KINDS = ["DC", "DR", "FC", "FR", "IC", "IR", "SC", "SR", "GC", "GR"]

def t(rng):
    return rng.choice("df")

def fil(rng, kind, square):
    f = ["all", "all", "increasing"]
    if kind[0] in "DF":
        f.append("hilbert")
    if kind[0] in "DFI" and (square or rng.random() < .15):
        f += ["diagonal", "diagonal"]
    v, n = rng.randint(-9, 99), t(rng)
    if kind[0] != "I" and rng.random() < .15:
        v = rng.choice([3000000, 3000001, 3000002])           # infinite, undefined
    elif kind[0] in "DIS" and rng.random() < .15:
        v, n = rng.choice([16777217, -33554433, 999999937]), "d"      # not single precision
    return "%s %d %s" % (rng.choice(f), v, n)

def behaviour(rng, c):
    f = "%s %d" % (c["f"]["f"], c["f"]["v"])
    base = "increasing 0" if c["k"][0] in "SG" else "all 50"
    out = []
    if c["how"] != "new":
        out.append("new a %s %d %d %s %s" % (c["k"], c["r"], c["c"], base, t(rng)))
    if c["how"] == "new":
        out.append("new a %s %d %d %s %s%s" % (c["k"], c["r"], c["c"], f, t(rng), " %d" % c["room"] if c["room"] != c["r"] * c["c"] else ""))
    elif c["how"] == "resize":
        out.append("resize a %s %d %d %s %s" % (c["k"], c["r1"], c["c1"], f, t(rng)))
    elif c["how"] == "fill":
        out.append("fill a %s %s" % (f, t(rng)))
    else:
        w = c["w"]
        out.append("part a %d %d %d %d %s %s" % (w["r0"], w["c0"], w["r"], w["c"], f, t(rng)))
    return out

def history(rng, n=15):
    out, have = [], {}
    top = 12 if rng.random() < .2 else 5
    dim = lambda: rng.randint(0, top)
    while len(out) < n:
        s = rng.choice("ab")
        k = rng.random()
        if s not in have or k < .2:
            kind, r, c = rng.choice(KINDS), dim(), dim()
            if rng.random() < .4:
                c = r
            f = "increasing 0 d" if kind[0] in "SG" else fil(rng, kind, r == c)
            out.append("new %s %s %d %d %s" % (s, kind, r, c, f))
            if not f.startswith("diagonal") or r == c:
                have[s] = (kind, r, c)
        elif k < .5:
            kind, r, c = have[s]
            out.append("fill %s %s" % (s, fil(rng, kind, r == c)))
        elif k < .7:
            kind, r, c = have[s]
            if kind in ("DC", "FC", "IC"):
                r0, c0 = rng.randint(0, r), rng.randint(0, c)
                h, w = rng.randint(0, r - r0), rng.randint(0, c - c0)
                out.append("part %s %d %d %d %d %s" % (s, r0, c0, h, w, fil(rng, kind, h == w)))
        elif k < .85:
            kind, r, c = have[s]
            if kind[0] in "DFI":
                r, c = dim(), dim()
                f = fil(rng, kind, r == c)
                if f.startswith("diagonal"):
                    c = r
                out.append("resize %s %s %d %d %s" % (s, kind, r, c, f))
                have[s] = (kind, r, c)
        else:
            out.append(generate(rng))
    return out

def generate(rng, big=False, seed=None):
    lo = rng.choice([0, 0, 1000, -3000, 2500, -300000])
    hi = lo + rng.choice([0, 1000, 9000, 9000, 500, 300000])
    r, c = (rng.randint(8, 14), rng.randint(8, 14)) if big else (rng.randint(0, 5), rng.randint(0, 5))
    return "generate %d %d %d %d %d %s" % (r, c, rng.choice([0, 1, 2, 3, 17, 100000]) if seed is None else seed, lo, hi, rng.choice(["new", "kept"]))

def overwritten(rng):
    """whatever a matrix held before it is filled, nothing of it is left"""
    kind = rng.choice([k for k in KINDS if k[0] in "DF"])
    r = rng.randint(1, 5)
    c = r if rng.random() < .7 else rng.randint(1, 5)
    old = lambda: "all %d %s" % (rng.choice([3000000, 3000001, 3000002]), t(rng))
    out = ["new a %s %d %d %s" % (kind, r, c, old())]
    for _ in range(6):
        if kind[1] == "C" and rng.random() < .5:
            r0, c0 = rng.randint(0, r - 1), rng.randint(0, c - 1)
            h = w = rng.randint(1, min(r - r0, c - c0))
            out.append("part a %d %d %d %d %s" % (r0, c0, h, w, old() if rng.random() < .4 else fil(rng, kind, True)))
        else:
            out.append("fill a %s" % (old() if rng.random() < .4 else fil(rng, kind, r == c)))
    return out

def recipes(rng):
    """generators asked repeatedly, with settings that differ in one respect"""
    base = generate(rng, rng.random() < .3, rng.randint(1, 50)).split()
    out = []
    for _ in range(6):
        g = list(base)
        if rng.random() < .6:
            g[3] = str(rng.randint(1, 50))
        if rng.random() < .2:
            g[1], g[2] = g[2], g[1]
        if rng.random() < .15:
            g[5] = str(int(g[4]) + 1000)
        g[6] = rng.choice(["new", "kept"])
        out.append(" ".join(g))
    return out + out[:2]

def large(rng, kind, f, n):
    """matrices with more elements than can be looked at one by one"""
    r = rng.choice([1, 3, rng.randint(2, 4000), n // 2, n])
    c = n // r
    if f == "diagonal":
        r = c = int(n ** .5)
    if f == "hilbert":
        r, c = min(r, 90000), min(c, 90000)
    at = {(0, 0), (r - 1, c - 1), (0, c - 1), (r - 1, 0)}
    for k in (2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 65535, 65536):
        if k < r * c:
            at.add((k // c, k % c) if kind[1] == "R" else (k % r, k // r))
    while len(at) < 25:
        i, j = rng.randrange(r), rng.randrange(c)
        at.add((i, i) if f == "diagonal" and rng.random() < .5 else (i, j))
        if r * c < 30:
            break
    return ["large %s %d %d %s %d %s %s" % (kind, r, c, f, rng.randint(1, 9), t(rng), " ".join("%d %d" % p for p in sorted(at)))]

def larges(rng, n):
    big = 2 ** 24 + 100
    out = [large(rng, k, "increasing", big) for k in (rng.choice(["DC", "DR"]), rng.choice(["IC", "IR"]), rng.choice(["SC", "SR"]))]
    for _ in range(n):
        kind = rng.choice(KINDS)
        f = rng.choice(["all", "increasing"] + (["hilbert"] if kind[0] in "DF" else []) + (["diagonal"] if kind[0] in "DFI" else []))
        if kind[0] in "SG":
            f = "increasing"
        out.append(large(rng, kind, f, rng.choice([300, 66000, 70000, 140000, 1000000])))
    return out

def sig(tr, i):
    e = tr[i]
    if e.get("ev") == "generate":
        return "generate"
    k = e.get("kind") or ([x["kind"] for x in tr[:i] if x.get("s") == e.get("s") and "kind" in x] or ["?"])[-1]
    return "%s:%s:%s" % (e.get("ev"), k, e.get("f"))

def corrupt(c, rng):
    for e in c[1:]:
        for x in e.get("slots", []):
            if x["m"]["e"]:
                x["m"]["e"][rng.randrange(len(x["m"]["e"]))] += 1
                return c

def run(ck):
    f = 12 if ck.thorough else 1
    exe = ck.build(["fill.cpp", os.path.join(vlib.REPO, "src/MatrixFactory/MatrixGenerator.cpp")],
                   defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"], opt="-O0",
                   flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-include", "boost/serialization/base_object.hpp"],
                   libs=["-lboost_serialization", "-lboost_filesystem", "-lboost_system"])
    env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}
    cs = ck.model_check("MCFill") + (ck.model_check("MCFill", "MCFill_deep") if ck.thorough else [])
    cs.sort(key=str)
    ck.extra["behaviours_from_spec"] = len(cs)
    pick = cs if ck.thorough else [c for c in cs if c["how"] in ("new", "fill")] + ck.rng.sample([c for c in cs if c["how"] not in ("new", "fill")], 1500)
    ck.extra["behaviours_executed"] = len(pick)
    cases = ck.conform("FillTrace", exe, [behaviour(ck.rng, c) for c in pick], "spec-fill", sig=sig, denv=env)
    cases += ck.conform("FillTrace", exe, [history(ck.rng) for _ in range(400 * f)], "random-history", sig=sig, denv=env)
    cases += ck.conform("FillTrace", exe, [overwritten(ck.rng) for _ in range(100 * f)], "overwritten", sig=sig, denv=env)
    ck.conform("FillTrace", exe, [recipes(ck.rng) for _ in range(100 * f)], "generators", sig=sig, denv=env)
    ck.conform("FillTrace", exe, larges(ck.rng, 40 * f), "large", sig=sig, denv=env)
    if not ck.violations:
        ck.demonstrate_binding("FillTrace", cases, corrupt)
