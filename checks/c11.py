"""C11: value filters accept exactly the configured interval."""
ASSUMPTIONS = ["numbers are abstracted to ranks in a strictly increasing palette of 21 magnitudes (smallest denormal to infinity, adjacent doubles, float neighbours, limits of integers); integers are exact in double precision"]
FLOAT = [0, 3, 6, 8, 10, 11, 12, 13, 14, 17, 20]        # ranks exactly representable in float
INT = [0, 8, 11, 13, 14, 15, 16]
ALL = list(range(21))
LONG = INT + [17, 18]

def run(ck):
    exe = ck.build(["value_checker.cpp"])
    # spec -> code: exhaustive small behaviours; small ranks are spread over the palette
    beh = ck.model_check("MCValueChecker", "MCValueChecker_accept")
    by = {}
    for mk, te in beh:
        by.setdefault(tuple(mk), []).append(te)
    scripts = []
    spread = [[0, 8, 9, 11], [0, 1, 2, 3], [0, 14, 15, 19], [0, 16, 17, 20]]
    for mk, tests in sorted(by.items()):
        for sp in spread:
            m = lambda r: str(-sp[-r]) if r < 0 else str(sp[r])
            sc = ["make 1 %s double %s %s" % (mk[2], m(mk[4]), m(mk[5]))]
            sc += ["test 1 double %s" % m(t[3]) for t in tests]
            scripts.append(sc)
    ck.extra["behaviours_from_spec"] = len(scripts)
    cases = ck.conform("ValueCheckerTrace", exe, scripts, "spec-behaviour", post=noskip)
    # code -> spec: random thresholds/types/values
    scripts = []
    for _ in range(4000 if ck.thorough else 400):
        sc = []
        for s in range(3):
            tt = ck.rng.choice(["double", "double", "float", "int"])
            rk = {"double": ALL, "float": FLOAT, "int": INT}[tt]
            lo, hi = ck.rng.choice(rk), ck.rng.choice(rk)
            if ck.rng.random() < .6 and hi < lo:
                lo, hi = hi, lo
            if ck.rng.random() < .1:
                lo = -lo
            if ck.rng.random() < .1:
                hi = -hi
            lo = "-0" if lo == 0 and ck.rng.random() < .2 and tt != "int" else lo
            sc.append("make %d %s %s %s %s" % (s, ck.rng.choice(["EN", "EI", "II", "EE"]), tt, lo, hi))
            for _ in range(6):
                vt = ck.rng.choice(["double", "float", "int", "long", "longlong"])
                v = ck.rng.choice({"double": ALL, "float": FLOAT, "int": INT, "long": LONG, "longlong": LONG}[vt])
                near = [x for x in (lo, hi) if x != "-0"]
                if ck.rng.random() < .5 and near and vt == "double":
                    v = max(0, min(20, abs(ck.rng.choice(near)) + ck.rng.choice([-1, 0, 0, 1])))
                elif ck.rng.random() < .4 and near and abs(near[-1]) in {"float": FLOAT, "double": ALL, "int": INT}.get(vt, LONG):
                    v = abs(near[-1])
                if ck.rng.random() < .4:
                    v = -v
                if vt == "int" and ck.rng.random() < .1:
                    v = -17                                   # the smallest number has no positive counterpart
                v = "-0" if v == 0 and ck.rng.random() < .3 and vt in ("double", "float") else v
                sc.append("test %d %s %s" % (s, vt, v))
        scripts.append(sc)
    cases += ck.conform("ValueCheckerTrace", exe, scripts, "random", post=noskip)
    if not ck.violations:
        ck.demonstrate_binding("ValueCheckerTrace", cases, corrupt)

def noskip(c):
    return [e for e in c if e.get("ev") != "skip"]

def corrupt(c, rng):
    ts = [e for e in c if e["ev"] == "test"]
    if not ts:
        return None
    e = rng.choice(ts)
    e["r"] = not e["r"]
    return c
