"""C17: runtime type dispatch."""
ASSUMPTIONS = ["built with failure reporting by exception (BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION)"]
LISTS = [[0], [3], [0, 1], [4, 2], [0, 1, 2], [2, 0, 5], [3, 1, 0, 2], [0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [5, 4, 0, 3, 1, 2]]

def run(ck):
    D = ["BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"]
    exe, real = ck.build_all(dict(sources=["dispatch.cpp"], defs=D), dict(sources=["dispatch_real.cpp"], defs=D, opt="-O0"))
    beh = ck.model_check("MCDispatch")
    ck.extra["behaviours_from_spec"] = len(beh)
    lines = []
    for which, d, w1, w2 in sorted(beh):
        L, s = which - 1, len(lines) % 7 + 1
        if d == 1:
            lines.append("if1 %d %d %s" % (L, s, " ".join(map(str, w1))))
        else:
            lines.append("if2 %d %d %d %s" % (L, s, len(w1), " ".join(map(str, w1 + w2))))
    scripts = [lines[i:i + 40] for i in range(0, len(lines), 40)]
    cases = ck.conform("DispatchTrace", exe, scripts, "spec-behaviour", sig=sig)
    # table based dispatch and compile time queries: all positions of all lists; random predicates on longer lists
    scripts = []
    for L, ts in enumerate(LISTS):
        sc = ["list %d" % L] + ["chk %d %d" % (L, x) for x in range(7)]
        for p in range(len(ts)):
            sc.append("dyn1 %d %d %d" % (L, p, ck.rng.randrange(1, 9)))
            for q in range(len(ts)):
                sc.append("dyn2 %d %d %d %d %d" % (L, p, ck.rng.randrange(1, 9), q, ck.rng.randrange(1, 9)))
        scripts.append(sc)
    for _ in range(200 if ck.thorough else 30):
        sc = []
        for _ in range(30):
            L = ck.rng.randrange(len(LISTS))
            m1 = ck.rng.sample(range(6), ck.rng.randrange(0, 7))
            m2 = ck.rng.sample(range(6), ck.rng.randrange(0, 7))
            s = ck.rng.randrange(1, 50)
            sc.append(ck.rng.choice(["if1 %d %d %s" % (L, s, " ".join(map(str, m1))),
                                     "if2 %d %d %d %s" % (L, s, len(m1), " ".join(map(str, m1 + m2)))]))
        scripts.append(sc)
    cases += ck.conform("DispatchTrace", exe, scripts, "random", sig=sig)
    scripts = []
    for _ in range(40 if ck.thorough else 10):
        scripts.append(["one %d %d %d" % (k, ck.rng.randrange(1, 6), ck.rng.randrange(1, 6)) for k in range(7)] +
                       ["two %d %d" % (p, q) for p in range(7) for q in range(7)])
    cases += ck.conform("DispatchTrace", real, scripts, "library-type-list", sig=sig)
    if not ck.violations:
        ck.demonstrate_binding("DispatchTrace", cases, corrupt)

def sig(tr, i):
    return "%s:%s" % (tr[i].get("ev"), len(tr[i].get("types", [])))

def corrupt(c, rng):
    es = [e for e in c if e.get("ran") and e["ev"] in ("if1", "if2", "dyn2")]
    if not es:
        return None
    e = rng.choice(es)
    e["ran"][0]["a"] = (e["ran"][0]["a"] + 1) % 6
    return c
