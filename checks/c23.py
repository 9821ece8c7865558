"""C23: rendered output shows exactly the matrix it is given."""
ASSUMPTIONS = ["values are quarters, so that the default precision shows them exactly",
               "palette symbols are single characters, thresholds dyadic", "text is read by label, number and position; spacing within a line is free except that the columns of a matrix are aligned",
               "multiple matrices are built from their parts, the printed name of a matrix is the one it reports (names are decided by C19)"]
KINDS = ["DC", "DR", "FC", "FR", "IC", "IR", "V", "SC", "SR", "GC", "GR"]
DYN = ["DC", "FC", "SC", "GC", "Z", "MS", "MD"]
DENSE = ["DC", "DR", "FC", "FR", "IC", "IR", "V"]
SYMBOLS = "abcdXYZ.#+ -123"
CLOSE = [67108863, 67108864, 67108865, -67108865, 67108868, 399999999, -400000001, 400000000, 0]    # alike in single precision

def values(rng, kind, n, big=False):
    m = 4 if kind in ("IC", "IR") else 1
    pool = [0, 0, 1, -1, 2, 3, 4, 7, -9, 10, 400, -4001]
    if big and kind in ("DC", "DR", "V"):
        pool += [400000000, -123456780, 40000, 80000]
        if rng.random() < .3:
            pool = CLOSE
    return [m * rng.choice(pool) for _ in range(n)]

def make(rng, s, kind, r, c, big=True):
    n = r * c * (2 if kind[-2:] in ("MS", "MD") else 1)
    if kind == "N" or kind.endswith("Z"):
        n = 0
    return "make %s %s %d %d %s" % (s, kind, r, c, " ".join(map(str, values(rng, kind, n, big))))

def palette(pal):
    return " ".join("%s %s %d" % (x["i"], x["c"], x["q"]) for x in pal)

def behaviour(rng, c):
    p = c["p"]
    kind = p["k"]
    out = ["make a %s %d %d %s" % (kind, p["r"], p["c"], " ".join(map(str, p["e"])))]
    if c["w"] == "image":
        return out + ["pattern a %s %s b 000000 %s" % (rng.choice(["ok", "ok", "old"]), rng.choice(["set", "tree"]), palette(c["pal"]))]
    if c["on"]:
        out.append("mode x full")
    return out + ["print x a"]

def pal(rng):
    sy = rng.sample("abcdefgXYZ.#+123", 8)
    col = lambda: "%06X" % rng.randrange(1 << 24)
    q = [rng.choice([0, 1, 2, 3, 4, 8, 400, 4000, 40]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    if rng.random() < .3:
        q = [abs(rng.choice(CLOSE)) for _ in range(rng.randint(1, 5))]
    if rng.random() < .6:
        q.sort(reverse=True)
    return "%s %s %s" % (sy[7], col(), " ".join("%s %s %d" % (sy[k], col(), x) for k, x in enumerate(q)))

def shape(rng):
    if rng.random() < .06:
        return rng.choice([(100, 1), (101, 1), (1, 100), (1, 101), (10, 10), (11, 10), (50, 2), (2, 51), (100, 2), (99, 3)])
    return rng.randint(0, 5), rng.randint(0, 5)

def history(rng, n=14):
    out, have = [], {}
    while len(out) < n:
        s, x = rng.choice("abc"), rng.choice("xy")
        k = rng.random()
        if s not in have or k < .2:
            kind = rng.choice(KINDS + ["Y." + d for d in DYN] + ["Z", "MS", "MD", "N"])
            r, c = shape(rng) if kind != "N" else (0, 0)
            out.append(make(rng, s, kind, r, c))
            have[s] = (kind, r, c)
        elif k < .3:
            kind, r, c = have[s]
            if kind in DENSE and r * c:
                out.append("set %s %d %d" % (s, rng.randint(1, r * c), values(rng, kind, 1, True)[0]))
        elif k < .4:
            out.append("mode %s %s" % (x, rng.choice(["full", "short"])))
        elif k < .75:
            out.append("print %s %s" % (x, s))
        elif have[s][0] in DENSE:
            out.append("pattern %s %s %s %s" % (s, rng.choice(["ok", "ok", "ok", "old", "old", "lost", "full"]), rng.choice(["set", "tree"]), pal(rng)))
    return out

def sig(tr, i):
    e = tr[i]
    k = [x for x in tr[:i + 1] if x["ev"] == "make" and x["s"] == e.get("s")]
    k = "+".join(p["k"] for p in k[-1]["parts"]) if k else ""
    return "%s:%s:%s" % (e.get("ev"), k, e.get("place", ""))

def corrupt(c, rng):
    for e in c[1:]:
        if e["ev"] == "print":
            for l in e["lines"]:
                if l["t"] == "" and l["n"]:
                    l["n"][rng.randrange(len(l["n"]))] += 1
                    return c
        if e["ev"] == "pattern" and e["place"] and e["image"]["pixels"] and e["image"]["pixels"][0]:
            e["image"]["pixels"][0][0] += "!"
            return c

def run(ck):
    f = 12 if ck.thorough else 1
    exe = ck.build(["render.cpp"], defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"], opt="-O0",
                   flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-include", "boost/serialization/base_object.hpp"],
                   libs=["-lboost_serialization", "-lboost_filesystem", "-lboost_system"])
    env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}
    cs = ck.model_check("MCRender") + (ck.model_check("MCRender", "MCRender_deep") if ck.thorough else [])
    cs.sort(key=str)
    ck.extra["behaviours_from_spec"] = len(cs)
    pick = cs if ck.thorough else ck.rng.sample(cs, 2500)
    ck.extra["behaviours_executed"] = len(pick)
    cases = ck.conform("RenderTrace", exe, [behaviour(ck.rng, c) for c in pick], "spec-output", sig=sig, denv=env)
    cases += ck.conform("RenderTrace", exe, [history(ck.rng) for _ in range(600 * f)], "random-history", sig=sig, denv=env)
    if not ck.violations:
        ck.demonstrate_binding("RenderTrace", cases, corrupt)
