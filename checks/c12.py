"""C12: filter ordering is a strict weak order identifying equal filters; maps keyed by filters."""
from c11 import noskip, ALL, FLOAT, INT
ASSUMPTIONS = ["thresholds abstracted to ranks in a strictly increasing palette"]

def run(ck):
    exe = ck.build(["value_checker.cpp"])
    beh = ck.model_check("MCValueChecker", "MCValueChecker_order")
    # rank -> palette position: adjacent doubles and tiny values, so a lossy comparison shows
    spreads = [[0, 8, 9], [0, 1, 2], [0, 14, 15]]
    scripts = []
    for n, h in enumerate(beh):
        for sp in spreads if ck.thorough else [spreads[n % 3]]:
            sc = []
            for e in h:
                sc.append("make %d %s double %d %d" % (e[1], e[2], sp[e[4]], sp[e[5]]) if e[0] == "make" else "less %d %d" % (e[1], e[2]))
            scripts.append(sc)
    ck.extra["behaviours_from_spec"] = len(scripts)
    cases = ck.conform("ValueCheckerTrace", exe, scripts, "spec-behaviour", post=noskip)
    scripts = []
    for _ in range(600 if ck.thorough else 90):
        sc = []
        n = 9
        few = sorted(ck.rng.sample(ALL, 4))
        for s in range(n):
            tt = ck.rng.choice(["double", "double", "float", "int"])
            rk = {"double": few, "float": FLOAT[:4], "int": INT[:4]}[tt]
            lo, hi = sorted([ck.rng.choice(rk), ck.rng.choice(rk)])
            k = ck.rng.choice(["EN", "EI", "II", "EE"])
            sc.append("make %d %s %s %d %d" % (s, k, tt, lo, hi))
        prs = [(a, b) for a in range(n) for b in range(n)]
        ck.rng.shuffle(prs)
        sc += ["less %d %d" % p for p in prs[:60]]
        for _ in range(25):
            s = ck.rng.randrange(n)
            sc.append(ck.rng.choice(["put %d %d" % (s, ck.rng.randrange(100)), "get %d" % s]))
        scripts.append(sc)
    cases += ck.conform("ValueCheckerTrace", exe, scripts, "random", post=noskip)
    if not ck.violations:
        ck.demonstrate_binding("ValueCheckerTrace", cases, corrupt)

def corrupt(c, rng):
    ts = [e for e in c if e["ev"] == "less" and any(f["ev"] == "less" and f["a"] == e["b"] and f["b"] == e["a"] for f in c) and e["r"]]
    if not ts:
        return None
    e = rng.choice(ts)
    e["r"] = e["r2"] = False
    return c
