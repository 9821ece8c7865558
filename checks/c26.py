"""C26: approximate equality means same shape and every element within tolerance."""
import struct
ASSUMPTIONS = ["finite elements; a tolerance is that of the less precise scalar type (1e-4, 1e-12, 0), compared on values it does not hit exactly"]
FLOAT = {"FC", "FR", "W", "sf", "hf", "ff"}
INT = {"I", "IR"}
MATRICES = ["DC", "DR", "FC", "FR", "I", "IR", "V", "W"]
STORAGES = ["sd", "hd", "fd", "sf", "hf", "ff"]

def operand(o):
    return "%s %d %d %s" % (o["t"], o["r"], o["c"], " ".join("%d %d %d" % tuple(x) for x in o["e"]))

def line(v):
    return "eq %s %s" % (operand(v["a"]), operand(v["b"]))

def sig(tr, i):
    e = tr[i]
    return "%s:%s:%s:%s" % (e["a"]["t"], e["b"]["t"], e["out"], e["eq"])

def hold(t, x):
    return [x[0], 0, 0] if t in INT else [x[0], x[1], 0] if t in FLOAT else x

def pair(rng):
    s, t = (rng.choice(MATRICES), rng.choice(MATRICES)) if rng.random() < .8 else (rng.choice(STORAGES), rng.choice(STORAGES))
    st = s in STORAGES
    r, c = (3, 1) if st else (rng.randint(0, 6), rng.randint(0, 6))
    r2, c2 = (r, c)
    if st and s[0] == "f": r = rng.choice([3, 3, 3, rng.randint(0, 5)])
    if st and t[0] == "f": r2 = rng.choice([r, 3, rng.randint(0, 5)])
    if not st and rng.random() < .15:
        r2, c2 = rng.choice([(c, r), (r, c + 1), (r + 1, c), (r, 0)])
    lows = [0, 0, 1, -1, 2, 42842298, -42842298, 42842299, 49999999]
    val = lambda: [rng.randint(-4, 4), rng.choice([0, 0, rng.randint(-20, 20)]), rng.choice(lows)]
    base = [val() for _ in range(max(r * c, r2 * c2))]
    a = [hold(s, x) for x in base[:r * c]]
    b = [hold(t, x) for x in base[:r2 * c2]]
    if rng.random() < .7:                       # as close as they can be: the same values
        k = [hold(t, hold(s, x)) for x in base]
        a, b = k[:r * c], [list(x) for x in k[:r2 * c2]]
    if (r, c) == (r2, c2) and r > 1 and c > 1 and rng.random() < .2:
        b = [b[(p % r) * c + p // r] for p in range(r * c)]
    for e, k in ((a, s), (b, t)):
        if e and rng.random() < .5:
            p = rng.choice([0, len(e) - 1, rng.randrange(len(e))])
            d = rng.choice([[0, 0, 1], [0, 0, -1], [0, 0, 2], [0, 1, 0], [0, -1, 0], [0, 2, 0], [0, 1, 42842298], [0, 1, 42842299], [1, 0, 0], [-1, 0, 0]])
            e[p] = hold(k, [x + y for x, y in zip(e[p], d)])
            if abs(e[p][2]) > 50000000:
                e[p][2] = 0
    return {"a": {"t": s, "r": r, "c": c, "e": a}, "b": {"t": t, "r": r2, "c": c2, "e": b}}

BIG = [-2147483648, 2147483647, -2147483647, 1073741824, -1073741824, 16777216, 16777217, -16777217, 2000000000, -2000000000, 0, 1, -1]
def large(rng):
    """Operands of the same shape with integers of the whole range; differences leave it."""
    s, t = rng.choice(MATRICES), rng.choice(["I", "IR"])
    if rng.random() < .5: s, t = t, s
    r, c = rng.randint(1, 4), rng.randint(1, 4)
    def fit(k, h):                               # what single precision can hold
        return h if k not in FLOAT else int(struct.unpack("f", struct.pack("f", min(h, 2147483520)))[0])
    base = [rng.choice(BIG) for _ in range(r * c)]
    a, b = [[fit(s, h), 0, 0] for h in base], [[fit(t, h), 0, 0] for h in base]
    if rng.random() < .8:
        if rng.random() < .5: a = [[fit(s, fit(t, h)), 0, 0] for h in base]; b = [list(x) for x in a]
        p = rng.randrange(r * c)
        h = b[p][0]
        h = rng.choice([h + 1, h - 1, h - 2 ** 31, h + 2 ** 31, -h, h - 2 ** 32 // 2 + 1])
        b[p][0] = fit(t, h) if -2 ** 31 <= h < 2 ** 31 else b[p][0]
    return {"a": {"t": s, "r": r, "c": c, "e": a}, "b": {"t": t, "r": r, "c": c, "e": b}}

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "eq"]
    if es:
        e = rng.choice(es)
        k = rng.choice(["eq", "eqr", "ne", "ner"])
        e[k] = not e[k]
        return c

def run(ck):
    exe = ck.build(["equality.cpp"])
    vs = ck.model_check("MCEquality", "MCEquality" + ("_deep" if ck.thorough else ""))
    vs.sort(key=str)
    ck.extra["behaviours_from_spec"] = len(vs)
    if not ck.thorough:
        vs = ck.rng.sample(vs, min(len(vs), 6000))
    lines = [line(v) for v in vs]
    cases = ck.conform("EqualityTrace", exe, [lines[i:i + 50] for i in range(0, len(lines), 50)], "spec-behaviour", sig=sig)
    cases += ck.conform("EqualityTrace", exe, [[line(pair(ck.rng)) for _ in range(50)] for _ in range(80 * (15 if ck.thorough else 1))], "random", sig=sig)
    cases += ck.conform("EqualityTrace", exe, [[line(large(ck.rng)) for _ in range(50)] for _ in range(24 * (15 if ck.thorough else 1))], "whole-range", sig=sig)
    if not ck.violations:
        ck.demonstrate_binding("EqualityTrace", cases, corrupt)
