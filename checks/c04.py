"""C04: block sizes."""
ASSUMPTIONS = ["elements are finite and chosen by binary exponent, detection values are exact integers",
               "ties among equally large and equally balanced borders may be broken in any way, but always in the same way"]

def mat(rng, r, c, kind):
    """exponents with block structure"""
    if r < 2 or c < 2: kind = 0
    if kind == 0:
        return [[rng.randrange(-4, 5) for _ in range(c)] for _ in range(r)]
    rb = sorted(rng.sample(range(1, r), min(r - 1, rng.randrange(0, 4)))) + [r]
    cb = sorted(rng.sample(range(1, c), min(c - 1, rng.randrange(0, 4)))) + [c]
    val = {(a, b): rng.choice([0, 0, 5, -3, 9]) for a in range(len(rb)) for b in range(len(cb))}
    return [[val[(next(k for k, x in enumerate(rb) if i < x), next(k for k, x in enumerate(cb) if j < x))] for j in range(c)] for i in range(r)]

def flat(m, r, c):
    return "%d %d %s" % (r, c, " ".join(str(x) for r in m for x in r))

def fmat(rng, r, c):
    return flat(mat(rng, r, c, rng.randrange(3)), r, c)

def long(rng):
    """dimensions beyond what fits into a byte, with few places where the profile changes or all alike"""
    n = rng.choice([255, 256, 257, 300, 513, rng.randrange(200, 700)])
    mn = rng.choice([1, 5, 20, 40, n // 3])
    mx = rng.choice([2 * mn, 2 * mn + 1, 3 * mn, 255, 256]) 
    mx = max(mx, 2 * mn, n // 12)
    if rng.random() < .5:
        k = rng.randrange(1, 12)
        d = [0] * (n - 1)
        for _ in range(k): d[rng.randrange(n - 1)] = rng.randrange(1, 1000)
        d = [x or (17 * i * i + 3 * i) % 65521 / 65521. for i, x in enumerate(d)]
        order = {x: i for i, x in enumerate(sorted(set(d)))}
        d = [order[x] for x in d]
    else:
        d = rng.sample(range(10 * n), n - 1)
    return "size %s %d %d %s" % (rng.choice("dfi"), mn, mx, " ".join(map(str, d)))

def run(ck):
    exe = ck.build(["block_size.cpp"], defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"], opt="-O0")
    beh = ck.model_check("MCBlockSize", "MCBlockSize_deep" if ck.thorough else None)
    lines = ["size %s %d %d %s" % (ck.rng.choice("dfi"), mn, mx, " ".join(map(str, d))) for d, mn, mx in beh]
    ck.extra["behaviours_from_spec"] = len(lines)
    if len(lines) > (60000 if ck.thorough else 4000):
        lines = ck.rng.sample(lines, 60000 if ck.thorough else 4000)
    cases = ck.conform("BlockSizeTrace", exe, [lines[i:i + 50] for i in range(0, len(lines), 50)], "spec-behaviour", sig=sig)
    rng, rnd = ck.rng, []
    rnd.append(["ctor %d %d" % (a, b) for a in range(0, 8) for b in range(0, 17)] + ["ctor 200 1000", "ctor 500 1000", "ctor 501 1000", "ctor 200 399"])
    for _ in range(600 if ck.thorough else 60):
        sc = []
        for _ in range(6):
            mn = rng.choice([0, 1, 1, 2, 3, 4, 5])
            mx = rng.choice([2 * mn, 2 * mn + 1, 3 * mn, 10]) or 1
            mx = max(mx, 2 * mn)
            k = rng.random()
            n = rng.randrange(1, 40 if k < 0.5 else 14)
            m = rng.randrange(1, 14)
            if rng.random() < .08: n = 0
            if rng.random() < .08: m = 0
            ty = rng.choice(["dc", "fc", "dr", "fr", "dv", "fv"])
            if k < 0.5:
                v = rng.choice([1, 2, 5, 1000])
                sc.append("size %s %d %d %s" % (rng.choice("dfi"), mn, mx, " ".join(str(rng.randrange(0, v) if rng.random() < 0.7 else 0) for _ in range(n - 1))))
            elif k < 0.65:
                sc.append("detect %s %d %d %s" % (ty, mn, mx, fmat(rng, n, m)))
            elif k < 0.85:
                sc.append("matrix %s %d %d %s" % (ty, mn, mx, fmat(rng, n, m)))
            else:
                kk = rng.choice([0] + list(range(1, 10)) * 2)
                sc.append("mult %s %d %d %s %s" % (ty, mn, mx, fmat(rng, n, kk), fmat(rng, kk, min(m, 10))))
        rnd.append(sc)
    cases += ck.conform("BlockSizeTrace", exe, rnd, "random", sig=sig)
    cases += ck.conform("BlockSizeTrace", exe, [[long(rng) for _ in range(3)] for _ in range(80 if ck.thorough else 8)], "long", sig=sig)
    if not ck.violations:
        ck.demonstrate_binding("BlockSizeTrace", cases, corrupt)

def sig(tr, i):
    e = tr[i]
    return str(e.get("ev"))

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "size" and len(e["sizes"]) > 1]
    if not es:
        return None
    e = rng.choice(es)
    k = rng.randrange(len(e["sizes"]) - 1)
    e["sizes"][k] += 1
    if rng.random() < 0.5:
        e["sizes"][k + 1] -= 1
        if len(set(e["detect"])) == 1 or e["sizes"][k + 1] < 1:
            e["sizes"][k + 1] += 1
        elif len(e["sizes"]) != 2 or len(set(e["detect"])) < len(e["detect"]):
            e["sizes"][k + 1] += 1      # keep the corruption certain: no partition any more
    return c
