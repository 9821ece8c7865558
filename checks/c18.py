"""C18: the tracker register."""
import os
import vlib
ASSUMPTIONS = ["the clock is replaced by a scripted one, OpenBLAS and IntelMKL kernels by stand-ins that let the clock advance",
               "operations are tracked from one thread (the register is not synchronised and the library starts no threads)"]
OPS = ["GeneralDense_dd", "GeneralDense_ff", "GeneralDense_df", "sparse", "sparse_dense", "dense_sparse", "dense_zero", "sparse_zero", "zero_dense", "zero_sparse",
       "zero_zero", "openblas_d", "openblas_s", "mkl_d", "mkl_s", "eigen_d", "eigen_s", "detect", "block"]
TIMED = ["openblas_d", "openblas_s", "mkl_d", "mkl_s"]

def dur(rng):
    return rng.choice([1, 17, 999, 1000, 999999, 1000000, 4294967296, 2147483648, 60000000000, rng.randrange(1, 10**6), rng.randrange(1, 10**10)])

def prog(rng, n, ids):
    ops, depth = [], 0
    for _ in range(n):
        k = rng.random()
        if k < 0.4 and depth < 12:
            ops.append("B%d" % rng.choice(ids)); depth += 1
        elif k < 0.65:
            ops.append("A%d" % dur(rng))
        elif k < 0.85 and depth:
            ops.append("E"); depth -= 1
        elif k < 0.93 and depth:
            x = rng.randrange(1, depth + 1); ops.append("X%d" % x); depth -= x
        elif k > 0.96:
            ops.append("P")
    return "prog " + " ".join(ops + ["E"] * depth + ["P"])

def run(ck):
    I = os.path.join(vlib.REPO, "src/Interfaces")
    exe = ck.build(["tracker.cpp", os.path.join(vlib.REPO, "src/Utilities/tracker.cpp"), I + "/OpenBLAS/BlasInterface_OpenBLAS.cpp", I + "/IntelMKL/BlasInterface_IntelMKL.cpp"],
                   name="tracker", defs=["BLASBOOSTER_USE_TRACKER", "NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"], opt="-O0",
                   flags=["-I/usr/include/eigen3"], libs=["-Wl,--unresolved-symbols=ignore-all"])
    N = 25
    scripts = [["boot"]]
    for b in ck.model_check("MCTracker", "MCTracker_nested"):
        p = []
        for op, x, y in b:
            p.append({"B": "B%d" % (y * 7 + 3), "A": "A%d" % (x * 10**6 + y), "E": "E", "X": "X%d" % x}[op])
        scripts.append("prog " + " ".join(p + ["P"]))
    nested = [s for s in scripts if isinstance(s, str)]
    scripts = [["boot"]] + [nested[i:i + 1] for i in range(len(nested))]
    over = []
    for b in ck.model_check("MCTracker", "MCTracker_overlap"):
        over.append([{"B": "open %d %d" % (x, y * 11 + 4), "A": "advance %d" % (x * 10**6 + y), "E": "close %d" % x}[op] for op, x, y in b] + ["report"])
    ck.extra["behaviours_from_spec"] = len(nested) + len(over)
    cap = None if ck.thorough else 400
    if cap:
        scripts = scripts[:1] + ck.rng.sample(scripts[1:], min(cap, len(scripts) - 1))
        over = ck.rng.sample(over, min(cap, len(over)))
    cases = ck.conform("TrackerTrace", exe, scripts + over, "spec-behaviour", sig=sig)
    rnd = []
    for i in range(N):                      # every identity alone and in company
        rnd.append([prog(ck.rng, 14, [i]), prog(ck.rng, 20, [i, (i + 1) % N, ck.rng.randrange(N)])])
    for _ in range(300 if ck.thorough else 30):
        rnd.append([prog(ck.rng, ck.rng.randrange(5, 60), range(N)) for _ in range(2)])
    for _ in range(200 if ck.thorough else 20):   # real operations inside and beside handles
        sc, openh = [], []
        for _ in range(25):
            k = ck.rng.random()
            if k < 0.5:
                m, kk, n = (ck.rng.randrange(1, 4) for _ in range(3))
                op = ck.rng.choice(OPS)
                if op == "detect":
                    m, kk = m + 1, kk + 1
                sc.append("real %s %d %d %d" % (op, m, kk, n) + (" %d" % dur(ck.rng) if op in TIMED and ck.rng.random() < 0.7 else ""))
            elif k < 0.6:
                mx = ck.rng.choice([2, 4, 6])
                sc.append("blocks %d %d %d" % (ck.rng.randrange(2, 9), ck.rng.randrange(2, 9), mx))
            elif k < 0.75:
                h = ck.rng.randrange(1, 6)
                if h in openh:
                    openh.remove(h); sc.append("close %d" % h)
                else:
                    openh.append(h); sc.append("open %d %d" % (h, ck.rng.randrange(N)))
            elif k < 0.9:
                sc.append("advance %d" % dur(ck.rng))
            else:
                sc.append("report")
        rnd.append(sc + ["close %d" % h for h in openh] + ["report"])
    for op in OPS:
        rnd.append(["real %s 2 2 2" % op, "report", "real %s 2 2 2" % op])
    cases += ck.conform("TrackerTrace", exe, rnd, "random", sig=sig)
    if not ck.violations:
        ck.demonstrate_binding("TrackerTrace", cases, corrupt)

def sig(tr, i):
    e = tr[i]
    return "%s:%s" % (e.get("ev"), e.get("op", "thrown" if e.get("thrown") else ""))

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "complete"]
    if not es:
        return None
    e = rng.choice(es)
    i = rng.randrange(25)
    if rng.random() < 0.5:
        e["count"][i] += 1
    else:
        e["time"][i][1] += 1
    return c
