"""C19: names and identifiers correspond one to one."""
ASSUMPTIONS = ["each name and each identifier is registered once"]

def run(ck):
    exe = ck.build(["names.cpp", "names_matrix.cpp"], opt="-O0", defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"])
    beh = ck.model_check("MCNames")
    scripts = []
    for b in beh:
        sc = ["kind " + ck.rng.choice(["plain", "scoped"])]
        for k, (n, i) in enumerate(b):
            sc.append("reg %s %d" % (n, i))
            for n2, i2 in b:                     # the later ones are not known yet
                sc += ["print %d" % i2, "parse %s" % n2]
        scripts.append(sc)
    ck.extra["behaviours_from_spec"] = len(beh)
    if not ck.thorough:
        ck.rng.shuffle(scripts)
        scripts = scripts[:160]
    cases = ck.conform("NamesTrace", exe, scripts, "spec-behaviour", sig=sig)
    rnd = [["tracker", "types"] + strangers(ck.rng)]
    for _ in range(400 if ck.thorough else 60):
        base = "".join(ck.rng.choice("abAB_0") for _ in range(ck.rng.randrange(1, 30)))
        names = {base, base + "x", base[:-1] or "q", base.swapcase() or "w", base + base, "x" + base, base.lower(), base.upper()}
        while len(names) < ck.rng.randrange(8, 24):
            names.add("".join(ck.rng.choice("abcXYZ_:<>,.-") for _ in range(ck.rng.randrange(1, 8))))
        names = sorted(names)
        ck.rng.shuffle(names)
        ids = ck.rng.sample(range(0, 60), len(names)) if ck.rng.random() < .7 else ck.rng.sample(range(-2 ** 31, 2 ** 31 - 1), len(names))
        ids = [i for i in ids]
        sc = ["kind " + ck.rng.choice(["plain", "scoped"])] + ["reg %s %d" % p for p in zip(names, ids)]
        for n, i in zip(names, ids):
            sc += ["print %d" % i, "parse %s" % n]
        some = list(zip(names, ids))
        for n, i in ck.rng.sample(some, min(6, len(some))):     # near misses of names and identifiers
            sc += ["parse %s" % (x or '""') for x in (n + "x", n[:-1], n[1:], n.swapcase(), n + n, "a", "~")]
            sc += ["print %d" % x for x in (i + 1, i - 1, -i, i ^ 256) if -2 ** 31 < x < 2 ** 31]
        rnd.append(sc)
    cases += ck.conform("NamesTrace", exe, rnd, "random", sig=sig)
    if not ck.violations:
        ck.demonstrate_binding("NamesTrace", cases, corrupt)

TRACKER = "OpenBLAS_dgemm OpenBLAS_sgemm IntelMKL_dcsrmm Eigen_sdgemm Blaze_dsgemm Native_GeneralDense Native_sparse Native_sparse_dense Native_zero_zero get_detection_arrays get_block_size".split()
def strangers(rng):
    ns = set(TRACKER) | {"A", "size", "zzz", "_"}
    for n in TRACKER:
        ns |= {n + "_", n[:-1], n.lower(), n.upper(), n[1:], n.replace("_", "")}
    return ["trackerParse %s" % n for n in sorted(ns)] + ["trackerPrint %s" % i for i in [0, 1, 24, "size", -1, 1000, 2 ** 31 - 1, -2 ** 31, 256, 65536]]

def sig(tr, i):
    e = tr[i]
    return "%s:%s" % (e.get("ev"), e.get("sym", ""))

def corrupt(c, rng):
    es = [e for e in c if e["ev"] in ("print", "typename", "tracker", "matname") and e.get("out", "ok") == "ok"]
    if not es:
        return None
    rng.choice(es)["name"] += "x"
    return c
