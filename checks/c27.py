"""C27: threshold settings reach exactly the matrix type they are configured for."""
ASSUMPTIONS = ["the settings record class of the absent BrainTwister/record library is replaced by a stand-in with the same member/setter interface"]
SETTINGS = None

def run(ck):
    global SETTINGS
    exe = ck.build(["threshold.cpp"], opt="-O0", defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"])
    beh = ck.model_check("MCThresholds")
    SETTINGS = sorted({h[2] for b in beh for h in b if h[0] == "make"})
    if ck.thorough:
        ck.model_check("MCThresholds", "MCThresholds_deep")
    # merge: behaviours become segments; only a sample of two-make pairs is needed beyond each single one
    scripts = [[line(h, i) for i, h in enumerate(b)] for b in beh]
    if not ck.thorough:
        keep = [s for s in scripts if any(not l.startswith("make") for l in s)]
        rest = [s for s in scripts if s not in keep]
        ck.rng.shuffle(rest)
        scripts = keep + rest[:150]
    scripts = [sum(scripts[i:i + 6], []) for i in range(0, len(scripts), 6)]
    ck.extra["behaviours_from_spec"] = len(beh)
    cases = ck.conform("ThresholdsTrace", exe, scripts, "spec-behaviour", sig=sig)
    rnd = []
    for _ in range(300 if ck.thorough else 40):
        sc, live = [], []
        for _ in range(12):
            k = ck.rng.random()
            s = ck.rng.randrange(3)
            if k < .5 or not live:
                # every setting its own value
                vals = ck.rng.sample(range(1, 400), len(SETTINGS))
                some = SETTINGS if ck.rng.random() < .7 else ck.rng.sample(SETTINGS, ck.rng.randrange(0, 6))
                sc.append("make %d %s" % (s, " ".join("%s %d" % (n, v) for n, v in zip(some, vals))))
                live.append(s)
            else:
                sc.append("%s %d %d" % (ck.rng.choice(["copy", "assign"]), ck.rng.choice(live), s))
                live.append(s)
        rnd.append(sc)
    cases += ck.conform("ThresholdsTrace", exe, rnd, "random", sig=sig)
    if not ck.violations:
        ck.demonstrate_binding("ThresholdsTrace", cases, corrupt)

def line(h, i):
    return "make %d %s %d" % (h[1], h[2], h[3] + 100) if h[0] == "make" else "%s %d %d" % (h[0], h[1], h[2])

def sig(tr, i):
    e = tr[i]
    return e.get("ev", "?")

def corrupt(c, rng):
    es = [e for e in c if any(e["all"])]
    if not es:
        return None
    a = rng.choice([x for x in rng.choice(es)["all"] if x])
    rng.choice(a)["v"] += 1
    return c
