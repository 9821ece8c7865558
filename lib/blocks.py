"""Adaptive conversion and blocked matrices: behaviours of Blocks as scripts, random histories."""
import os
import matlab as ml, vlib
MODULE = "BlocksTrace"
PARTS = [("mat/ops_block.cpp", None)]
SRC = [(os.path.join(vlib.REPO, "src/Utilities/tracker.cpp"), None), (os.path.join(vlib.REPO, "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"), None)]

def build(ck, name, openblas=False):
    if openblas:
        return ml.build(ck, name + "-openblas", [("mat/ops_block.cpp", None)] + SRC, defs=["WITH_OPENBLAS"], libs=["-lopenblas"])
    return ml.build(ck, name, PARTS, libs=["-lopenblas"])

def th(t):
    return " ".join(str(x) for x in t["d"] + t["s"] + [t["den"]] + [y for o in t["occ"] for y in o])

def seq(q):
    return " ".join(str(x) for x in [len(q)] + list(q))

def vals(rng, m):
    return " ".join("%d %d" % e for e in zip(m["hi"], m["lo"]))

def fit(tag, m):
    """as that representation can hold it"""
    if ml.is_float(tag):
        m = dict(m, lo=[0 if h else l for h, l in zip(m["hi"], m["lo"])])
    return m

def make(rng, s, tag, m):
    return ml.make(rng, s, tag, fit(tag, m))

def behaviours(ck, kind, limit):
    vs = ck.model_check("MCBlocks", "MCBlocks_" + kind + ("_deep" if ck.thorough else ""))
    ck.extra["behaviours_from_spec"] = ck.extra.get("behaviours_from_spec", 0) + len(vs)
    vs.sort(key=str)
    if not ck.thorough and len(vs) > limit:
        vs = ck.rng.sample(vs, limit)
    ck.extra["behaviours_executed"] = ck.extra.get("behaviours_executed", 0) + len(vs)
    return vs

def script(rng, v, src=("DC", "DC", "DC", "FC", "DR", "V")):
    k, t = v["k"], th(v["th"])
    out = []
    tag = rng.choice(src)
    if tag in ("FC", "DR") and k != "adapt" or tag == "V" and k != "adapt":
        tag = rng.choice(["DC", "DC", "FC"])
    x = v["x"]
    if k == "mul" and rng.random() < .35:      # tiny numbers times integers: exact in every precision
        x = dict(x, hi=x["lo"], lo=x["hi"])
        t = th(dict(v["th"], d=[0, 0]))
    out += ml.operand(rng, 1, tag, x) if tag == "V" else [make(rng, 1, tag, x)]
    if k == "adapt":
        out += ["adapt 2 1 " + t, "un conv.DC 3 2"]
    elif k == "block":
        out += ["block 2 1 %s %s %s" % (seq(v["rows"]), seq(v["cols"]), t), "un stat 0 2", "un conv.%s 3 2" % rng.choice(["DC", "DC", "FC"])]
        op = rng.choice(["un copy 5 2", "un move 5 2", "none"])
        if op != "none":
            out += [op, "un conv.DC 6 5", "un stat 0 5"]
    else:
        out += [make(rng, 2, rng.choice(["DC", "DC", "FC"]), v["y"]),
                "block 3 1 %s %s %s" % (seq(v["rows"]), seq(v["mid"]), t), "block 4 2 %s %s %s" % (seq(v["mid"]), seq(v["cols"]), t),
                "bin mul%s 5 3 4" % rng.choice(["", ".best"]), "un conv.DC 6 5"]
        if rng.random() < .5:
            out.append("un stat 0 5")
    out = [o if o.split()[0] not in ("un", "bin") else "? " + o for o in out]
    return out + ["drop %d" % s for s in range(1, 7)]

def thresholds(rng, integer=False):
    d = (0, 0) if rng.random() < .4 else rng.choice([(0, 2), (0, 8), (1, 0)] if not integer else [(1, 0), (2, 0)])
    s = rng.choice([(2, 0), (3, 0), (5, 0)] + ([] if integer or d[0] else [(0, 12), (1, 0)]))
    if s[0] <= d[0] and (s[0] < d[0] or s[1] <= d[1]):
        s = (7, 0)
    den = rng.choice([20, 20, 7, 12])
    q = lambda: rng.choice([0, 0, rng.randint(0, den), rng.randint(0, den // 2), den])
    k = rng.random()
    if k < .35:
        f = lambda x: int(den * x)
        occ = [[0, 0], [f(.4), 0], [den, 0], [f(.4), f(.4)], [f(.7), f(.3)], [den, f(.5)], [den, den]]
    elif k < .7:
        occ = [[0, 0], [q(), 0], [q(), 0], [q(), q()], [q(), q()], [q(), q()], [den, den]]
    else:
        occ = [[q(), q()] for _ in range(7)]
        if rng.random() < .8:
            occ[6] = [den, den]
    return {"d": list(d), "s": list(s), "den": den, "occ": occ}

def fine(rng, r, c):
    """thresholds and elements with many binary digits"""
    d = (0, rng.randrange(2 ** 24, 2 ** 27) | 1)
    s = rng.choice([(0, d[1] + rng.choice([2, 1000, 2 ** 26])), (1, rng.randrange(2 ** 27) | 1), (3, -(rng.randrange(2 ** 27) | 1)), (7, 0)])
    el = [ml.fine_number(rng, (d, s)) if rng.random() < .8 else (0, 0) for _ in range(r * c)]
    return dict(thresholds(rng), d=list(d), s=list(s)), dict(r=r, c=c, hi=[e[0] for e in el], lo=[e[1] for e in el])

def partition(rng, n, top=None):
    k = rng.randint(1, top or rng.choice([4, 4, 4, 9]))
    cuts = sorted(rng.randint(0, n) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]

def matrix(rng, r, c, integer=False):
    """with regions of different density and magnitude"""
    hi, lo = [0] * (r * c), [0] * (r * c)
    for _ in range(rng.randint(0, 4)):
        r0, c0 = rng.randint(0, r), rng.randint(0, c)
        r1, c1 = rng.randint(r0, r), rng.randint(c0, c)
        dens, style = rng.choice([.1, .3, .6, 1]), rng.choice(["small", "big", "low", "mixed"] if not integer else ["small", "big"])
        for j in range(c0, c1):
            for i in range(r0, r1):
                if rng.random() < dens:
                    hi[j * r + i] = 0 if style == "low" else rng.choice([1, -1, 2]) if style == "small" else rng.choice([3, -4, 5, 7, -8, 2, 1])
                    lo[j * r + i] = rng.randint(-12, 12) if style in ("low", "mixed") else 0
    return {"r": r, "c": c, "hi": hi, "lo": lo}

def history(rng, n=10, top=8, integer=False):
    """blocked matrices created, copied, moved, multiplied, reassembled"""
    out, st = [], {}          # st: slot -> ("M", r, c, int) | ("B", rows, cols, int) | ("Y", r, c, int)
    parts = {}
    dims = [rng.randint(0, top) for _ in range(3)]
    if rng.random() < .6:
        dims = [rng.randint(2, top)] * 3
    for d in dims:
        parts.setdefault(d, [partition(rng, d) for _ in range(2)])
    t = thresholds(rng, integer)
    def target():
        e = [s for s in range(1, 9) if s not in st]
        return rng.choice(e) if e else rng.randint(1, 8)
    def sel(kind):
        c = [s for s in st if st[s][0] == kind]
        return rng.choice(c) if c else None
    while len(out) < n:
        k = rng.random()
        if k < .2 or not st:
            r, c = rng.choice(dims), rng.choice(dims)
            s = target()
            m = matrix(rng, r, c, integer)
            out.append(make(rng, s, rng.choice(["DC", "DC", "FC"]), m))
            st[s] = ("M", r, c, max([abs(v) for v in m["hi"]] + [1]))
        elif k < .4 and sel("M"):
            a = sel("M")
            d = target()
            if d == a:
                continue
            r, c = rng.choice(parts[st[a][1]]), rng.choice(parts[st[a][2]])
            if rng.random() < .1:
                t = thresholds(rng, integer)
                t["occ"][6] = [t["den"], t["den"]]
            t["occ"][6] = [t["den"], t["den"]]
            out.append("block %d %d %s %s %s" % (d, a, seq(r), seq(c), th(t)))
            st[d] = ("B", r, c, st[a][3])
        elif k < .5 and sel("B"):
            a, d = sel("B"), target()
            if d == a:
                continue
            out.append("un conv.%s %d %d" % (rng.choice(["DC", "DC", "FC"]), d, a))
            st[d] = ("M", sum(st[a][1]), sum(st[a][2]), st[a][3])
        elif k < .6 and sel("B"):
            a, d = sel("B"), target()
            if d == a:
                continue
            op = rng.choice(["copy", "move"])
            out.append("un %s %d %d" % (op, d, a))
            st[d] = st[a]
            if op == "move":
                out.append("drop %d" % a)
                del st[a]
        elif k < .68 and sel("B"):
            a, b = sel("B"), sel("B")
            op = rng.choice(["cassign", "massign", "swap"])
            if a == b and op == "massign":
                continue
            out.append("bin %s 0 %d %d" % (op, a, b))
            if op == "swap":
                st[a], st[b] = st[b], st[a]
            else:
                st[a] = st[b]
                if op == "massign":
                    out.append("drop %d" % b)
                    del st[b]
        elif k < .8 and sel("B"):
            out.append("un stat 0 %d" % sel("B"))
        elif k < .84:
            a = sel("M")
            if a is None:
                continue
            d = target()
            if d == a:
                continue
            out.append("adapt %d %d %s" % (d, a, th(dict(t, occ=t["occ"][:6] + [[t["den"], t["den"]]]))))
            st[d] = ("Y", st[a][1], st[a][2], st[a][3])
        elif k < .87 and sel("B") and sel("Y"):
            b, y = sel("B"), sel("Y")
            pos = [(i, j) for i, r in enumerate(st[b][1]) for j, c in enumerate(st[b][2]) if (r, c) == st[y][1:3]]
            if pos:
                out.append("put %d %d %d %d" % ((b,) + rng.choice(pos) + (y,)))
                st[b] = st[b][:3] + (max(st[b][3], st[y][3]),)
        elif integer:
            p = [(a, b) for a in st for b in st if st[a][0] == st[b][0] == "B" and (st[a][2] == st[b][1] or (rng.random() < .05 and sum(st[a][2]) == sum(st[b][1])))]
            if not p:
                continue
            a, b = rng.choice(p)
            d = target()
            if d in (a, b):
                continue
            top_ = max(1, sum(st[a][2])) * st[a][3] * st[b][3]
            if top_ > 4000:
                continue
            out.append("bin mul%s %d %d %d" % (rng.choice(["", ".best"]), d, a, b))
            if st[a][2] == st[b][1]:
                st[d] = ("B", st[a][1], st[b][2], top_)
            elif d in st:
                pass
    return out

def grid(rng):
    """a grid of blocks in given representations"""
    r = [rng.randint(0, 3) for _ in range(rng.randint(1, 2))]
    c = [rng.randint(0, 3) for _ in range(rng.randint(1, 2))]
    if rng.random() < .3:
        r, c = r[:1] * 2, c[:1] * 2
    out, from_ = [], []
    s, multi, have = 1, False, {}     # the parts of a sum lose different amounts in single precision
    share = rng.random() < .4         # one block at several positions
    for cc in c:
        for rr in r:
            if share and (rr, cc) in have and rng.random() < .8:
                from_.append(have[rr, cc])
                continue
            tag = rng.choice(ml.DYN)
            multi = multi or ml.base(tag) in ml.MULTI
            m = matrix(rng, rr, cc)
            if ml.base(tag) in ("DC", "SC") and rng.random() < .4:      # a norm beyond single precision
                m = {"r": rr, "c": cc, "hi": [rng.choice([0, rng.randint(-10000, 10000)]) for _ in m["hi"]], "lo": [0] * len(m["lo"])}
            out.append(make(rng, s, tag, m))
            have[rr, cc] = s
            from_.append(s)
            s += 1
    out.append("grid 5 %s %s %s %s" % (rng.choice("cl"), seq(r), seq(c), " ".join(map(str, from_))))
    out += ["un stat 0 5", "un conv.DC 6 5", rng.choice(["un copy 7 5", "un move 7 5"]), "un conv.%s 8 7" % ("DC" if multi else "FC"), "un stat 0 7"]
    return out

def sig(tr, i):
    e = tr[i]
    ys = []
    for x in (tr[i - 1]["all"] if i else []):
        if x["s"] == e.get("a"):
            ys = [x["t"]] + sorted({b["y"] for b in x.get("blocks", [])})
    return "%s%s:%s:%s" % (e.get("ev"), "." + e["to"] if e.get("to") else "", e.get("out", ""), ",".join(ys))

def corrupt(c, rng):
    es = [e for e in c if e["ev"] in ("adapt", "block", "mul", "conv")]
    es = [(e, x) for e in es for x in e["all"] if x["s"] == e["d"]]
    if not es:
        return None
    e, x = rng.choice(es)
    if x["t"] == "B":
        b = [b for b in x["blocks"] if b["hi"]]
        if not b:
            return None
        rng.choice(b)["hi"][0] += 1
    elif x["hi"]:
        x["hi"][0] += 1
    else:
        return None
    return c
