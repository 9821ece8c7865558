"""C28: block statistics describe the blocks they are derived from."""
import blocks as bl
ASSUMPTIONS = ["the norm of a block is its Euclidean norm, compared by its square"]

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "stat" and e["types"]]
    if not es:
        return None
    e = rng.choice(es)
    k = rng.choice(["types", "dr", "dc", "counts", "sq"])
    e[k][rng.randrange(len(e[k]))] += 1
    return c

def run(ck):
    exe = bl.build(ck, "c28")
    rng, f = ck.rng, 15 if ck.thorough else 1
    scripts = [bl.script(rng, v) for v in bl.behaviours(ck, "block", 700)]
    cases = ck.conform(bl.MODULE, exe, [sum(scripts[i:i + 8], []) for i in range(0, len(scripts), 8)], "spec-behaviour", sig=bl.sig)
    cases += ck.conform(bl.MODULE, exe, [bl.grid(rng) for _ in range(200 * f)], "grid", sig=bl.sig)
    cases += ck.conform(bl.MODULE, exe, [bl.history(rng, 16, rng.choice([3, 5, 8]), True) for _ in range(150 * f)], "random-history", sig=bl.sig)
    if not ck.violations:
        ck.demonstrate_binding(bl.MODULE, cases, corrupt)
