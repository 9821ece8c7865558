"""C21: importing a matrix reads exactly the described window."""
import os, vlib
ASSUMPTIONS = ["a data file holds binary numbers of the element type of the importing matrix",
               "a window smaller than the described file is importable from any file that holds it; files of another length may be refused",
               "negative dimensions of a window without elements may be refused or give an empty matrix",
               "matrix sets name matrices of type double in column-major order; File entries name descriptor files"]
TAGS = ["DC", "DR", "FC", "FR"]
FLAWS = {"descriptor": ["empty", "half", "other", "open"], "list": ["empty", "half", "other"]}

def letter(tag):
    return "d" if tag[0] == "D" else "f"

def field(v, i):
    return {"missing": "-", "bad": "abc"}.get(i, str(v))

def behaviour(rng, c, tag):
    """a case of MCImport with a matrix of this type"""
    out = []
    if c["there"]:
        out.append("data d %s %d %d" % (letter(tag), c["n"], rng.choice([0, 0, 0, 1, 3])))
    out.append("%s x %s %s %s" % (c["k"], c["data"], c["flaw"], " ".join(map(field, c["v"], c["is"]))))
    out.append("make a %s 2 2 100" % tag)
    out.append("import %s a x" % ("text" if c["k"] == "list" else rng.choice(["stream", "path"])))
    return out

def window(rng):
    lr, lc = rng.randint(0, 7), rng.randint(0, 7)
    big = rng.random() < .1
    if big:
        lr, lc = rng.randint(20, 60), rng.randint(20, 60)
    r, c = rng.randint(0, lr), rng.randint(0, lc)
    if rng.random() < .3:
        r, c = lr, lc
    elif rng.random() < .2:
        r = lr
    if big:
        r, c = min(r, 25), min(c, 25)
    ro, co = rng.randint(0, lr - r), rng.randint(0, lc - c)
    v = [r, c, lr, lc, ro, co]
    if rng.random() < .12:
        k = rng.randrange(6)
        v[k] = rng.choice([v[k] + 1, max(0, v[k] - 1), v[k] + 5, -1])
    return v

def needed(v):
    return 0 if not v[0] or not v[1] else (v[5] + v[1] - 1) * v[2] + v[4] + v[0]

def length(rng, n, whole):
    return max(0, rng.choice([whole, whole, whole, n, n - 1, n + 1, whole + 1, whole - 1, 0]))

def history(rng, n=14):
    t = letter(rng.choice(TAGS))
    out, desc, lists = [], [], []
    for s in "abc":
        out.append("make %s %s %d %d %d" % (s, ("D" if t == "d" else "F") + rng.choice("CR"), rng.randint(0, 4), rng.randint(0, 4), rng.choice([100, 500])))
    slots = {l.split()[1]: l.split()[2] for l in out}
    names = lambda: rng.choice(["x", "y", "z"])
    datas = lambda: rng.choice(["d", "e"])
    while len(out) < n:
        k = rng.random()
        if k < .3:
            v, x, d = window(rng), names(), datas()
            if rng.random() < .8:
                out.append("data %s %s %d %d" % (d, t, length(rng, needed(v), max(0, v[2] * v[3])), rng.choice([0, 0, 2])))
            w = [str(y) for y in v]
            if rng.random() < .08:
                w[rng.randrange(6)] = rng.choice(["-", "abc"])
            out.append("descriptor %s %s %s %s" % (x, d if rng.random() < .95 else rng.choice(["-", "nowhere"]), rng.choice(FLAWS["descriptor"]) if rng.random() < .08 else "none", " ".join(w)))
            lists = [y for y in lists if y != x]
            desc.append(x)
        elif k < .4 and t == "d":
            r, c, x, d = rng.randint(0, 5), rng.randint(0, 5), names(), datas()
            out.append("data %s %s %d %d" % (d, t, length(rng, r * c, r * c), rng.choice([0, 0, 2])))
            out.append("list %s %s %s %d %d" % (x, d, rng.choice(FLAWS["list"]) if rng.random() < .1 else "none", r, c))
            desc = [y for y in desc if y != x]
            lists.append(x)
        elif k < .85:
            s = rng.choice("abc")
            if slots[s] == "DC" and lists and rng.random() < .6:
                out.append("import text %s %s" % (s, rng.choice(lists)))
            elif desc:
                out.append("import %s %s %s" % (rng.choice(["stream", "path"]), s, rng.choice(desc)))
        elif k < .92:
            x = rng.choice(["x", "y", "z", "d", "e"])
            out.append("remove " + x)
        else:
            s = rng.choice("abc")
            slots[s] = ("D" if t == "d" else "F") + rng.choice("CR")
            out.append("make %s %s %d %d %d" % (s, slots[s], rng.randint(0, 4), rng.randint(0, 4), 100))
    return out

def long_file(rng):
    """windows of files beyond 2^31 and 2^32 bytes"""
    t = rng.choice("df")
    lr = rng.choice([rng.randint(3, 9), rng.randint(1000, 70000), rng.randint(100000, 30000000)])
    n = rng.choice([2 ** 28, 2 ** 29, 2 ** 29, 2 ** 30, 2 ** 30]) + rng.randint(-2 ** 20, 2 ** 24)
    if t == "d":
        n = min(n, 2 ** 29 + 2 ** 24 + 5)
    lc = n // lr
    n = lr * lc
    out = ["make a %s 2 2 100" % (("D" if t == "d" else "F") + rng.choice("CR"))]
    for x in rng.sample("xyz", 2):
        r, c = min(lr, rng.randint(1, 4)), min(lc, rng.randint(1, 3))
        ro, co = rng.choice([0, lr - r, rng.randint(0, lr - r)]), rng.choice([lc - c, lc - c, (lc - c) // 2 + 1, rng.randint(0, lc - c)])
        co = min(co, lc - c)
        out.append("hollow d %s %d %s" % (t, n, " ".join("%d %d" % (p - min(p, 2), min(n - p, r) + min(p, 2)) for p in [(co + j) * lr + ro for j in range(c)])))
        out += ["descriptor %s d none %d %d %d %d %d %d" % (x, r, c, lr, lc, ro, co), "import %s a %s" % (rng.choice(["stream", "path"]), x)]
    return out + ["remove d"]

def entry(rng, names, wrong):
    n = rng.choice(names)
    k = rng.random()
    if k < .5:
        dims = [rng.randint(0, 7) for _ in range(rng.choice([1, 1, 2, 3, 0]))]
        bands = [rng.randint(0, 9) for _ in range(rng.choice([1, 1, 2, 3, 0]))]
        # an entry without matrices is written by an empty list
        return "%s DiagonalBand %s %s %d" % (n, ",".join(map(str, dims or [1])), ",".join(map(str, bands or [1])), rng.randint(-9, 9))
    if k < .75:
        return "%s EqualTo %s" % (n, rng.choice(names + ["Nobody"] * (rng.random() < wrong)))
    if k < .97 - wrong:
        return "%s File %s" % (n, rng.choice(["x", "y"]))
    return "%s %s y" % (n, rng.choice(["Unknown", "Random", "file", "diagonalband"]))

def provider(rng):
    out = []
    for x, d in (("x", "d"), ("y", "e")):
        v = window(rng) if rng.random() < .3 else [2, 2, 3, 3, rng.randint(0, 1), rng.randint(0, 1)]
        v = [abs(a) for a in v]
        out.append("data %s d %d 0" % (d, length(rng, needed(v), v[2] * v[3]) if rng.random() < .2 else v[2] * v[3]))
        out.append("descriptor %s %s none %s" % (x, d, " ".join(map(str, v))))
    out.append("provide A DiagonalBand 2 1 1")
    for _ in range(rng.randint(1, 3)):
        wrong = rng.choice([0, 0, .2])
        names = ["A", "B", "C"]
        es = ["A DiagonalBand %s %s %d" % (",".join(str(rng.randint(0, 6)) for _ in range(rng.randint(1, 3))), ",".join(str(rng.randint(0, 8)) for _ in range(rng.randint(1, 3))), rng.randint(-9, 9))]
        es += [entry(rng, names, wrong) for _ in range(rng.randint(0, 4))]
        # the names of a set stand together
        order = list(dict.fromkeys(e.split()[0] for e in es))
        es.sort(key=lambda e: order.index(e.split()[0]))
        out.append("provide " + " ; ".join(es))
        for s in rng.sample(["A", "B", "C", "Nobody"], 3):
            out.append("get " + s)
    return out

def sig(tr, i):
    e = tr[i]
    if e.get("ev") != "import":
        return "%s:%s" % (e.get("ev"), e.get("err"))
    f = [x for x in tr[:i] if x["ev"] in ("descriptor", "list") and x["f"] == e["f"]]
    return "import:%s:%s:%s:%s" % (e["how"], e["err"], f[-1]["flaw"] if f else "absent", "".join(sorted(set(x[0] for x in f[-1]["is"]))) if f else "")

def corrupt(c, rng):
    for e in c:
        if e["ev"] == "import" and e["err"] == "":
            x = [s for s in e["slots"] if s["s"] == e["s"]][0]["m"]
            if x["e"]:
                x["e"][rng.randrange(len(x["e"]))] += 1
                return c

def run(ck):
    f = 12 if ck.thorough else 1
    exe = ck.build(["import.cpp", os.path.join(vlib.REPO, "src/Benchmark/MatrixProvider.cpp"), os.path.join(vlib.REPO, "src/MatrixFactory/MatrixFileImporter.cpp")],
                   defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"], opt="-O0",
                   flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-include", "boost/serialization/base_object.hpp"],
                   libs=["-lboost_serialization", "-lboost_filesystem", "-lboost_system"])
    env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}
    cs = ck.model_check("MCImport") + (ck.model_check("MCImport", "MCImport_deep") if ck.thorough else [])
    cs.sort(key=str)
    ck.extra["behaviours_from_spec"] = len(cs)
    sc = []
    odd = [c for c in cs if c["k"] == "list" or c["flaw"] != "none" or any(x != "number" for x in c["is"]) or min(c["v"]) < 0]
    plain = [c for c in cs if c not in odd]
    for c in odd:
        for t in (["DC"] if c["k"] == "list" else TAGS):
            sc.append(behaviour(ck.rng, c, t))
    for c in (plain if ck.thorough else ck.rng.sample(plain, min(len(plain), 1500))):
        sc.append(behaviour(ck.rng, c, ck.rng.choice(TAGS)))
    ck.extra["behaviours_executed"] = len(sc)
    cases = ck.conform("ImportTrace", exe, sc, "spec-window", sig=sig, denv=env)
    cases += ck.conform("ImportTrace", exe, [history(ck.rng) for _ in range(400 * f)], "random-history", sig=sig, denv=env)
    ck.conform("ImportTrace", exe, [long_file(ck.rng) for _ in range(60 * f)], "long-files", sig=sig, denv=env)
    ck.conform("ImportTrace", exe, [provider(ck.rng) for _ in range(250 * f)], "matrix-sets", sig=sig, denv=env)
    if not ck.violations:
        ck.demonstrate_binding("ImportTrace", cases, corrupt)
