"""C02: adaptive type selection picks the first sparse-enough type within error bounds."""
import blocks as bl
import matlab as ml
ASSUMPTIONS = ["significance thresholds of double precision are below those of single precision; occupation thresholds are fractions whose comparison with a share is exact"]

def run(ck):
    exe = bl.build(ck, "c02")
    rng = ck.rng
    scripts = [bl.script(rng, v) for v in bl.behaviours(ck, "adapt", 1500)]
    cases = ck.conform(bl.MODULE, exe, [sum(scripts[i:i + 8], []) for i in range(0, len(scripts), 8)], "spec-behaviour", sig=bl.sig)
    rnd = []
    for _ in range(150 * (15 if ck.thorough else 1)):
        s = []
        for _ in range(4):
            r, c = rng.randint(0, 9), rng.randint(0, 9)
            m = bl.matrix(rng, r, c)
            tag = rng.choice(["DC", "DC", "FC", "DR", "V", "W"])
            s += ["drop %d" % k for k in (1, 4)] + (ml.operand(rng, 1, tag, bl.fit(tag, m)) if tag in "VW" else [bl.make(rng, 1, tag, m)])
            s += ["adapt %d 1 %s" % (k, bl.th(bl.thresholds(rng))) for k in (2, 3, 2)]
        rnd.append(s)
    cases += ck.conform(bl.MODULE, exe, rnd, "random", sig=bl.sig)
    rnd = []
    for _ in range(80 * (15 if ck.thorough else 1)):
        s = []
        for _ in range(6):
            t, m = bl.fine(rng, rng.randint(1, 5), rng.randint(1, 5))
            tag = rng.choice(["DC", "DC", "DR", "V"])
            s += ["drop 1", "drop 4"] + ml.operand(rng, 1, tag, m) + ["adapt 2 1 " + bl.th(t)]
            if rng.random() < .5:
                s.append("un conv.DC 3 2" if t["occ"][6] == [t["den"], t["den"]] else "? un conv.DC 3 2")
        rnd.append(s)
    ck.conform(bl.MODULE, exe, rnd, "fine-thresholds", sig=bl.sig)
    if not ck.violations:
        ck.demonstrate_binding(bl.MODULE, cases, bl.corrupt)
