"""Scripts for drivers/storage.cpp (spec/Storage.tla)."""
FIXED, ROOM = 4, 14

def behaviour(h):
    """a history emitted by MCStorage"""
    k = h[0]["k"]
    e = 3 if k == "I" else 1
    out = {"K": ["list a K 11 12 13 14", "list b K 21 22 23 24"], "S": ["strided a 1 1 2 3 2", "strided b 1 0 3 1 0"],
           "F": ["list a F 11 12 13 14", "over b F 1 2 4"]}.get(k, ["list a %s 11 12 13" % k, "over b %s %d 2 2" % (k, e)])
    out = list(out)
    for s in h:
        o = s["op"]
        if o.startswith("convert"):
            out.append("convert %s %s %s" % (s["d"], o.split()[1], s["a"]))
        elif s["a"]:
            out.append("%s %s %s" % (o, s["d"], s["a"]))
        elif o in ("resize", "shrink"):
            out.append("%s %s %d" % (o, s["d"], s["n"]))
        elif o == "fill":
            out.append("fill %s %d" % (s["d"], s["x"]))
        elif o == "store":
            out.append("store %s %d %d" % (s["d"], s["n"], s["x"]))
        else:
            out.append("%s %s" % (o, s["d"]))
    return out

def history(rng, n=24):
    """a random history over four storages; the sizes and what is known are tracked to keep to defined operations"""
    st, out, fresh = {}, [], [1000]
    kinds = rng.choice(["XXXF", "XXI", "FFX", "MMM", "SSX", "KFX", "XIFSKM"])
    live = lambda f=lambda x: True: [s for s in st if not st[s].get("gone") and f(st[s])]
    own = lambda k, n, known: dict(k=k, n=n, known=known, e=0)
    def vals(n):
        fresh[0] += n
        return [rng.choice([0, 1, 5, fresh[0] - i]) for i in range(n)]
    def create(d):
        k = rng.choice(kinds)
        r = rng.random()
        if k == "S":
            cs, nb, sep = rng.randint(1, 4), rng.randint(1, 3), rng.randint(0, 3)
            while nb * cs + (nb - 1) * sep > ROOM:
                nb -= 1
            if rng.random() < .08:
                cs, nb = rng.choice([(0, nb), (cs, 0)])
            off = rng.randint(0, ROOM - (nb * cs + max(nb - 1, 0) * sep if cs and nb else 0))
            out.append("strided %s %d %d %d %d %d" % (d, rng.choice([1, 2]), off, cs, nb, sep))
            st[d] = dict(k="S", n=cs * nb, known=True, e=1)
        elif r < .25 and k != "K":
            n = FIXED if k == "F" else rng.randint(0, 6)
            off = rng.randint(0, ROOM - n)
            out.append("over %s %s %d %d %d" % (d, k, 3 if k == "I" else rng.choice([1, 2]), off, n))
            st[d] = dict(k=k, n=n, known=True, e=1)
        elif r < .4:
            n = rng.randint(0, 5)
            out.append("new %s %s %d" % (d, k, n))
            st[d] = own(k, FIXED if k in "KF" else n, k == "K" or n == 0 and k != "F")
        else:
            n = rng.choice([FIXED, FIXED, 0, 3, 5, 6]) if k in "KF" else rng.randint(1, 4) if k == "M" else rng.randint(0, 6)
            out.append(" ".join(["list", d, k] + [str(v) for v in vals(n)]))
            if not (k == "K" and n > FIXED or k == "F" and n != FIXED):
                st[d] = own(k, FIXED if k in "KF" else n, True)
    while len(out) < n:
        d = rng.choice("abcd")
        if d not in st or rng.random() < .07:
            src = live()
            r = rng.random()
            if not src or r < .55:
                create(d)
            else:
                a = rng.choice([s for s in src])
                x = st[a]
                if r < .72:
                    if a != d:
                        out.append("copy %s %s" % (d, a))
                        st[d] = dict(x, e=x["e"] if x["k"] == "S" else 0)
                elif r < .86:
                    if a != d:
                        out.append("move %s %s" % (d, a))
                        st[d] = dict(x)
                        moved(st, a)
                elif x["k"] != "M":
                    k = rng.choice([y for y in "FXI" if y != x["k"]])
                    if x["known"] or k != "I":
                        if k != "F" or x["n"] == FIXED or rng.random() < .3:
                            out.append("convert %s %s %s" % (d, k, a))
                            if k != "F" or x["n"] == FIXED:
                                st[d] = own(k, x["n"], x["known"])
            continue
        x = st[d]
        r = rng.random()
        same = live(lambda y: y["k"] == x["k"])
        if x.get("gone"):
            if same and r < .7 and not (r < .4 and x["k"] == "F"):
                a = rng.choice(same)
                op = "massign" if r < .3 or x["k"] == "F" else "assign"
                out.append("%s %s %s" % (op, d, a))
                st[d] = dict(st[a])
                if op == "massign":
                    moved(st, a)
            else:
                out.append("drop %s" % d)
                del st[d]
        elif r < .3:
            a = rng.choice(same)
            op = rng.choice(["assign", "assign", "massign", "swap"])
            out.append("%s %s %s" % (op, d, a))
            y = dict(st[a])
            if op == "swap":
                st[a], st[d] = dict(x), y
            elif a != d and op == "assign":
                st[d] = dict(x, known=y["known"]) if x["k"] in "KF" else y
            elif a != d:
                if x["k"] == "K":
                    st[d] = dict(x, known=y["known"])
                else:
                    st[d] = y
                    moved(st, a)
        elif r < .37 and x["k"] in "XIM":
            m = rng.choice([x["n"], 0, 1, 3, 6])
            out.append("resize %s %d" % (d, m))
            if m != x["n"] and not x["e"]:
                st[d] = own(x["k"], m, m == 0)
        elif r < .42 and x["k"] in "XI":
            m = rng.randint(0, x["n"] + 1)
            out.append("shrink %s %d" % (d, m))
            if m <= x["n"]:
                x["n"] = m
        elif r < .5 and x["k"] in "XIM":
            out.append("fill %s %d" % (d, vals(1)[0]))
            x["known"] = True
        elif r < .65 and x["n"]:
            out.append("store %s %d %d" % (d, rng.randint(1, x["n"]), vals(1)[0]))
        elif r < .75 and x["known"]:
            out.append("visit %s" % d)
        elif r < .83:
            c = [s for s in live(lambda y: y["known"] and y["k"] != "S" and (y["k"] == "M") == (x["k"] == "M"))]
            if x["known"] and x["k"] != "S" and c:
                out.append("compare %s %s" % (d, rng.choice(c)))
        elif r < .88:
            c = [s for s in same if st[s]["n"]]
            if x["k"] != "K" and x["n"] and c:
                out.append("identical %s %s" % (d, rng.choice(c)))
        elif r < .93:
            c = [s for s in same if st[s]["known"]]
            if x["k"] in "FXI" and c:
                a = rng.choice(c)
                out.append("reload %s %s" % (d, a))
                st[d] = dict(x, known=True) if x["k"] == "F" else own(x["k"], st[a]["n"], True)
        else:
            out.append("drop %s" % d)
            del st[d]
    return out + ["drop %s" % s for s in sorted(st)]

def moved(st, a):
    k = st[a]["k"]
    if k in "XI":
        st[a] = dict(k=k, n=0, known=True, e=0)
    elif k in "FM":
        st[a] = dict(st[a], gone=True)

def sig(tr, i):
    e = tr[i]
    k = e.get("k") or ([x["k"] for y in tr[:i] for x in y.get("slots", []) if x["s"] == e.get("d")] or ["?"])[-1]
    return "storage.%s:%s" % (e.get("ev"), k)

def corrupt(c, rng):
    for e in c[2:]:
        for x in e.get("slots", []):
            if x["v"] and not x["gone"] and e["ev"] in ("assign", "copy", "massign", "swap"):
                x["v"][0] += 1
                return c
