"""C20: saving and loading restores the object and protects existing files."""
import os
ASSUMPTIONS = ["an archive is only loaded into an object of the kind that was saved",
               "settings and paths are saved in XML and binary form; matrices and storages offer the binary form only (their XML form does not compile), sparse matrices only through their storage",
               "numbers are finite; the bytes of an archive are compared within one history only"]
KINDS = ["rec", "path", "DC", "DR", "FC", "I", "Z", "ST", "FX", "SS"]
NN, NS = 16, 10
FLOAT = [0, 1, 2, 3, 4, 5, 11, 12, 13, 14, 15]         # different numbers in single precision too

def value(rng, kind, big=False):
    """make arguments: r c n..."""
    pool = FLOAT if kind == "FC" else range(NN)
    n = lambda k: [rng.choice(pool) for _ in range(k)]
    if kind == "rec":
        v = n(rng.choice([0, 1, 3, 400 if big else 2]))
        m = rng.choice([0, 1, 2])
        return [0, 0, rng.randint(-5, 9), rng.randint(0, 1), rng.randrange(NN), rng.randrange(NS), rng.randrange(NS), len(v)] + v + [m] + [x for _ in range(m) for x in (rng.randrange(NS), rng.randrange(NN))]
    if kind == "path":
        return [0, 0, rng.randrange(NS)]
    if kind in ("DC", "DR", "FC", "I"):
        r, c = (rng.choice([20, 30]), 20) if big else (rng.randint(0, 4), rng.randint(0, 4))
        return [r, c] + ([rng.randint(-9, 9) for _ in range(r * c)] if kind == "I" else n(r * c))
    if kind == "Z":
        return [rng.randint(0, 9), rng.randint(0, 9)]
    if kind == "ST":
        return [0, 0] + n(600 if big else rng.randint(0, 6))
    if kind == "FX":
        return [0, 0] + n(4)
    o, v = rng.randint(0, 4), rng.randint(0, 4)
    return [o, 0] + n(v) + [rng.randrange(5) for _ in range(v)] + [rng.randrange(5) for _ in range(o)]

def make(rng, s, kind, big=False):
    return "make %s %s %s" % (s, kind, " ".join(map(str, value(rng, kind, big))))

def over(rng, yes):
    return rng.choice(["over", "default"]) if yes else "keep"

def cut(rng):
    return rng.choice([0, 999, 1000, rng.randrange(1000), rng.randrange(1000)])

def behaviour(rng, h, kind):
    """a history of MCFileIO with objects of this kind"""
    big = rng.random() < .08
    out = [make(rng, "x", kind, big), make(rng, "y", kind, big)]
    for e in h:
        a = e["a"]
        if a == "write":
            out.append("write %s %s %s n %s" % (e["s"], e["f"], e["fmt"], over(rng, e["over"])))
        elif a == "read":
            out.append("read %s %s %s n" % (e["s"], e["f"], e["fmt"]))
        elif a == "junk":
            out.append("junk %s %d" % (e["f"], rng.randrange(NS)))
        elif a == "cut":
            out.append("cut %s %d" % (e["f"], cut(rng)))
        elif a == "remove":
            out.append("remove " + e["f"])
        elif a == "duplicate":
            out.append("duplicate a b")
    return out + ["end"]

def history(rng, n=25):
    """objects of two kinds, three files"""
    k1, k2 = rng.sample(KINDS, 2)
    kind = {"p": k1, "q": k1, "x": k2, "y": k2}
    out, have, files = [], set(), {}
    fmt = lambda k: rng.choice(["xml", "bin"]) if k in ("rec", "path") else "bin"
    while len(out) < n:
        s = rng.choice(list(kind))
        f = rng.choice(["a", "b", "c"])
        k = rng.random()
        if s not in have or k < .1:
            out.append(make(rng, s, kind[s], rng.random() < .05))
            have.add(s)
        elif k < .15:
            out.append("drop " + s)
            have.discard(s)
        elif k < .45:
            if rng.random() < .1:
                f = rng.choice(["lost", "full"])
            known = [t for t in have if t not in broken(out)]
            if s not in known:
                continue
            m, o = fmt(kind[s]), rng.random() < .6
            out.append("write %s %s %s %s %s" % (s, f, m, rng.choice(["n", "n", "other_name"]), over(rng, o)))
            if f in "abc" and (o or f not in files):
                files[f] = (kind[s], m)
        elif k < .8:
            if rng.random() < .05:
                f = "lost"
            if f in files and files[f] and files[f][0] != kind[s]:
                continue
            m = files[f][1] if files.get(f) and rng.random() < .85 else fmt(kind[s])
            if m == "xml" and kind[s] not in ("rec", "path"):
                continue
            out.append("read %s %s %s %s" % (s, f, m, rng.choice(["n", "n", "other_name"])))
        elif k < .84:
            out.append("junk %s %d" % (f, rng.randrange(NS)))
            files[f] = None
        elif k < .9:
            if f in files:
                out.append("cut %s %d" % (f, cut(rng)))
                out.append("touched " + f)
        elif k < .94:
            if f in files:
                out.append("remove " + f)
                del files[f]
        else:
            g = rng.choice(["a", "b", "c"])
            if f in files:
                out.append("duplicate %s %s" % (f, g))
                files[g] = files[f]
    return [x for x in out if not x.startswith("touched")] + ["end"]

def broken(out):
    """slots a load may have failed on since they were made"""
    bad = set()
    for l in out:
        t = l.split()
        if t[0] in ("make", "drop"):
            bad.discard(t[1])
        elif t[0] == "read":
            bad.add(t[1])         # possibly; only certain loads are written again
    return bad

def sig(tr, i):
    e = tr[i]
    k = [x["kind"] for x in tr[:i + 1] if x["ev"] == "make" and x["s"] == e.get("s")]
    return "%s:%s:%s:%s" % (e.get("ev"), e.get("fmt", ""), e.get("f", "") if e.get("f") in ("lost", "full") else "", k[-1] if k else "")

def corrupt(c, rng):
    for i in range(1, len(c)):
        e = c[i]
        if e["ev"] == "read" and e["err"] == "":
            k = [x for x in e["slots"] if x["s"] == e["s"]][0]
            if k["n"]:
                k["n"][rng.randrange(len(k["n"]))] += 1
                return c
        if e["ev"] == "write" and e["err"] == "refused" and e["f"] in "abc":
            e["ids"]["abc".index(e["f"])] += 50
            return c

def run(ck):
    f = 12 if ck.thorough else 1
    exe = ck.build(["fileio.cpp"], defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"], opt="-O0", flags=["-fsanitize=address", "-fno-omit-frame-pointer"],
                   libs=["-lboost_serialization", "-lboost_filesystem", "-lboost_system"])
    env = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}
    hs = ck.model_check("MCFileIO") + (ck.model_check("MCFileIO", "MCFileIO_deep") if ck.thorough else [])
    if not os.path.exists("/dev/full"):
        hs = [h for h in hs if all(e["f"] != "full" for e in h)]
        ck.notes.append("/dev/full is missing: writes to a full device are not covered")
    hs.sort(key=str)
    ck.extra["behaviours_from_spec"] = len(hs)
    binary = [h for h in hs if all(e["fmt"] != "xml" for e in h)]
    sc = []
    for kind in KINDS:
        pool = hs if kind in ("rec", "path") else binary
        sc += [behaviour(ck.rng, h, kind) for h in ck.rng.sample(pool, min(len(pool), (400 if kind in ("rec", "path") else 200) * f))]
    ck.extra["behaviours_executed"] = len(sc)
    cases = ck.conform("FileIOTrace", exe, sc, "spec-history", sig=sig, denv=env)
    cases += ck.conform("FileIOTrace", exe, [history(ck.rng) for _ in range(400 * f)], "random-history", sig=sig, denv=env)
    if not ck.violations:
        ck.demonstrate_binding("FileIOTrace", cases, corrupt)
