"""C30: the command line tools do what was asked for."""
import os, vlib, blocks
ASSUMPTIONS = ["the absent third-party headers (command line parser, JSON reader, records, timing, Blaze) are replaced by stand-ins; the stand-in for timing runs every action three times",
               "matrices that are rendered as blocks have at least one row and column; blocked products of numbers of very different magnitude are compared up to single precision",
               "the fixed matrix of 4000 rows that generate_matrix writes for other types, help texts and measured times are not inspected",
               "Intel MKL is not installed: its actions are not available"]
ACTIONS = ["openblas_dgemm", "openblas_sgemm", "eigen_dgemm", "eigen_sgemm", "blaze_dgemm", "blaze_sgemm", "blaze_sdgemm", "blaze_dsgemm", "native_dense", "blasbooster_block"]
STYLES = ["short", "long", "eq"]
BAD = ["unknown", "missing", "word", "help", "nowhere", "extra"]
TH = "0 0 1 0 4 0 0 2 0 4 0 2 2 2 2 4 2 4 4"

def flat(hi, lo):
    return " ".join("%d %d" % x for x in zip(hi, lo))

def band(x):
    return "band:%s:%s:%d:%d" % (",".join(map(str, x["dims"])), ",".join(map(str, x["bws"])), x["v"][0], x["v"][1])

def behaviour(rng, c):
    if c["w"] == "generate":
        return ["generate a %d %d %d %d %d %s %s" % (c["r"], c["c"], c["b"], c["v"][0], c["v"][1], rng.choice(STYLES), c["how"])]
    if c["w"] == "show":
        m = c["m"]
        pal = " ".join("%s 111111 %d" % ("pqstuvx"[k], e) for k, e in enumerate(c["pal"]))
        return ["put a " + flat(m["hi"], m["lo"]),
                "show a %d %d %s %s ok %d %d %s k 000000 %d %s" % (m["r"], m["c"], c["mode"], c["bw"] if c["bw"] else rng.choice(["0", "-"]), c["mn"], c["mx"], TH, len(c["pal"]), pal)]
    acts = ",".join(a + ("/1/2" if a == "blasbooster_block" else "") for a in c["acts"]) or "-"
    one = lambda x: x if isinstance(x, list) else [x]
    A, B = one(c["A"]), one(c["B"])
    return ["bench %d ok %s A %s B %s" % (c["diff"], acts, " ".join(map(band, A)), " ".join(map(band, B)))]

def palette(rng, full):
    es = list(range(7)) if full else [rng.randint(-2, 7) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    if full and rng.random() < .3:
        rng.shuffle(es)
    if full and rng.random() < .3:
        es = es[:rng.randint(0, 7)]
    sym = rng.sample("abcdefghijlmnopqrstuvwxyz.#+", len(es))
    return "k %s %d %s" % (rng.choice(["000000", "ffffff"]), len(es), " ".join("%s %06x %d" % (s, rng.randrange(1 << 24), e) for s, e in zip(sym, es)))

def th(t):
    return blocks.th(t)

def number(rng, tame):
    k = rng.random()
    if k < .4:
        return (0, 0)
    if tame or k < .6:
        return (rng.choice([1, 2, -3, 9, -10, 12, 99, 100, 256, -1024]), 0)
    if k < .8:
        return (0, rng.choice([1, -2, 3, 8, -14]))
    return (rng.choice([1, -2, 4, 10, -100]), rng.choice([1, -1, 3, -7]))

def history(rng, thorough, n=9):
    """data files are generated, rendered and multiplied"""
    out, have = [], {}                 # name -> (rows, columns, kind): kind n no low parts, d diagonal (low parts), l low parts
    top = 12 if rng.random() < .2 else 6
    dim = lambda lo=0: rng.randint(lo, top)
    while len(out) < n:
        k = rng.random()
        if not have or k < .3:
            f = rng.choice("abc")
            if rng.random() < .5:
                r, c, b = dim(), dim(), rng.choice([0, 1, 1, 2, 3, 20])
                v = number(rng, rng.random() < .6)
                how = "ok" if rng.random() < .8 else rng.choice(BAD)
                bw = "-" if rng.random() < .1 else str(b)
                out.append("generate %s %d %d %s %s %s %s" % (f, r, c, bw, "%d %d" % v if rng.random() < .9 or v != (1, 0) else "- -", rng.choice(STYLES), how))
                if how == "ok":
                    w = 1 if bw == "-" else b
                    have[f] = (r, c, "n" if v[1] == 0 or w == 0 else "d" if w == 1 else "l")
            else:
                r, c, tame = dim(1), dim(1), rng.random() < .5
                q = [number(rng, tame) for _ in range(r * c)]
                if rng.random() < .4:            # zero and dense regions
                    a, b = rng.randint(0, r), rng.randint(0, c)
                    q = [(0, 0) if (p % r < a) != (p // r < b) else x for p, x in enumerate(q)]
                out.append("put %s %s" % (f, " ".join("%d %d" % x for x in q)))
                have[f] = (r, c, "n" if all(x[1] == 0 for x in q) else "l")
        elif k < .65:
            f = rng.choice(sorted(have)) if rng.random() < .95 else rng.choice("abc")
            r, c, _ = have.get(f, (2, 2, ""))
            if rng.random() < .1:
                r, c = rng.randint(1, top), rng.randint(1, top)     # another view of the same data, or more than there is
            blk = rng.random() < .7 and r and c and r <= 8 and c <= 8
            how = "ok" if rng.random() < .9 else rng.choice(BAD)
            mn = rng.choice([1, 1, 1, 2, 3])
            mx = rng.choice([2 * mn, 2 * mn, 2 * mn + 1, 8, 2 * mn - 1 if rng.random() < .2 else 2 * mn])
            out.append("show %s %d %d %s %s %s %d %d %s %s" % (f, r, c, "bogus" if rng.random() < .03 else "type-blocks" if blk else "elements",
                       rng.choice(["-", "0", "1", "1", "2", "3", "9", "-1"]), how, mn, mx, th(blocks.thresholds(rng)), palette(rng, blk)))
        else:
            out.append(bench(rng, have, top))
    return out

def bench(rng, have, top):
    nact = rng.choice([0, 1, 2, 3, 4, 6]) if rng.random() < .3 else rng.choice([2, 3, 4])
    acts = []
    for _ in range(nact):
        a = rng.choice(ACTIONS)
        if a == "blasbooster_block" and rng.random() < .8:
            mn = rng.choice([1, 1, 2, 3])
            a += "/%d/%d" % (mn, rng.choice([2 * mn, 2 * mn + 1, 10, 2 * mn, 2 * mn - 1 if rng.random() < .1 else 2 * mn]))
        acts.append(a)
    if rng.random() < .04:
        acts.insert(rng.randint(0, len(acts)), "bogus")
    block = any(a.startswith("blas") for a in acts)
    A, B = [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        full = [f for f in sorted(have) if have[f][0] and have[f][1]]
        if k < .4 or not full:
            n = [rng.randint(1, top) for _ in range(rng.choice([1, 1, 2]))]
            s = rng.random() < .5               # which side carries the low parts
            low, plain = (rng.choice([1, 2, -3, 100]), rng.choice([0, 1, 3, -5])), (rng.choice([1, 2, -4]), 0)
            ws = [rng.choice([0, 1, 2, 3, 20]) for _ in range(rng.choice([1, 1, 2]))]
            x = "band:%s:%s:%d:%d" % (",".join(map(str, n)), ",".join(map(str, ws)), low[0], low[1])
            y = "band:%s:%s:%d:%d" % (",".join(map(str, n)), ",".join(["1"] * len(ws)), plain[0], plain[1])
            if low[1] == 0:
                y = "band:%s:%s:%d:%d" % (",".join(map(str, n)), ",".join(str(rng.choice([1, 2, 5])) for _ in ws), plain[0], plain[1])
            A.append(x if s else y)
            B.append(y if s else x)
        elif k < .85:
            f = rng.choice(full)
            r, c, kind = have[f]
            s = rng.random() < .5
            n = c if s else r
            x = "file:%s:%d:%d" % (f, r, c)
            y = "band:%d:%d:%d:0" % (n if rng.random() < .97 else n + 1, 1 if kind == "l" else rng.choice([1, 2]), rng.choice([1, -2, 3]))
            A.append(x if s else y)
            B.append(y if s else x)
        else:
            f, g = rng.choice(full), rng.choice(full)
            if have[f][1] == have[g][0] and have[f][2] == have[g][2] == "n":
                A.append("file:%s:%d:%d" % (f, have[f][0], have[f][1]))
                B.append("file:%s:%d:%d" % (g, have[g][0], have[g][1]))
    if rng.random() < .06 and A:
        A.pop()
    if rng.random() < .1 and all(x.startswith("band") and x.endswith(":0") for x in A):
        B = ["equal:A"]
    if rng.random() < .03:
        rng.choice([A, B]).append(rng.choice(["what", "file:%s:40:40" % rng.choice("abc")]))
    how = "ok" if rng.random() < .93 else rng.choice(BAD)
    return "bench %d %s %s A %s B %s" % (rng.random() < .4, how, ",".join(acts) or "-", " ".join(A), " ".join(B))

def sig(tr, i):
    e = tr[i]
    return "%s:%s:%s" % (e.get("ev"), e.get("how"), e.get("mode") or "+".join(sorted({a["n"] for a in e.get("actions", [])})))

def corrupt(c, rng):
    for e in c[1:]:
        if e["ev"] == "show" and e["here"] and e["image"].get("pixels") and e["image"]["pixels"][0]:
            e["image"]["pixels"][0][0] = "~"
            return c
        if e["ev"] == "bench" and len(e["rows"]) > 1:
            e["rows"][-1]["max"] += 2000000
            return c
        if e["ev"] == "generate" and e["how"] == "ok" and e["files"] and e["files"][0]["hi"]:
            e["files"][0]["hi"][0] += 1
            return c

def run(ck):
    f = 10 if ck.thorough else 1
    src = lambda *x: [os.path.join(vlib.REPO, "src", y) for y in x]
    common = dict(defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION", "WITH_OPENBLAS", "WITH_EIGEN"], opt="-O0",
                  flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-I/usr/include/eigen3", "-include", "boost/serialization/base_object.hpp"])
    bl = ["-lboost_serialization", "-lboost_filesystem", "-lboost_system"]
    exe, gen, show, bench_ = ck.build_all(
        dict(sources=["tools.cpp"], opt="-O1"),
        dict(sources=src("Benchmark/generate_matrix.cpp"), name="generate_matrix", libs=bl, **common),
        dict(sources=src("Benchmark/show_pattern.cpp"), name="show_pattern", libs=bl, **common),
        dict(sources=src("Benchmark/benchmark.cpp", "Benchmark/ActionProvider.cpp", "Benchmark/MatrixProvider.cpp", "Benchmark/time.cpp", "Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"),
             name="benchmark_tool", libs=bl + ["-lopenblas"], **common))
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1", "TOOL_GENERATE": gen, "TOOL_SHOW": show, "TOOL_BENCH": bench_, "OPENBLAS_NUM_THREADS": "1"}
    cs = ck.model_check("MCTools") + (ck.model_check("MCTools", "MCTools_deep") if ck.thorough else [])
    cs.sort(key=str)
    ck.extra["behaviours_from_spec"] = len(cs)
    pick = cs
    if not ck.thorough:
        kinds = {}
        for c in cs:
            kinds.setdefault(c["w"], []).append(c)
        pick = [c for w in sorted(kinds) for c in ck.rng.sample(kinds[w], min(len(kinds[w]), {"generate": 150, "show": 350, "bench": 250}[w]))]
    ck.extra["behaviours_executed"] = len(pick)
    scripts = [behaviour(ck.rng, c) for c in pick]
    scripts = [sum(scripts[i:i + 4], []) for i in range(0, len(scripts), 4)]
    par = vlib.NCPU
    cases = ck.conform("ToolsTrace", exe, scripts, "spec-command", sig=sig, denv=env, parallel=par, timeout=600)
    cases += ck.conform("ToolsTrace", exe, [history(ck.rng, ck.thorough) for _ in range(120 * f)], "random-history", sig=sig, denv=env, parallel=par, timeout=600)
    if not ck.violations:
        ck.demonstrate_binding("ToolsTrace", cases, corrupt)
