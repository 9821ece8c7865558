"""C29: matrix dimensions are reported consistently after every operation."""
import matlab as ml
ASSUMPTIONS = ["a matrix that was moved from reports nothing until it is assigned or resized",
               "major and minor dimension are asked of dense, sparse and zero matrices (others do not offer them)"]
PARTS = [("mat/ops_life.cpp", None), ("mat/ops_add.cpp", 1), ("mat/ops_conv.cpp", 1), ("mat/ops_conv.cpp", 2)]
CFG = "MatrixLabTrace_sizes"

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "q" and "major" in e]
    if es:
        e = rng.choice(es)
        e[rng.choice(["r", "c", "size"])] += 1
        return c

def comparisons(rng, raw, n):
    """pairs of shapes that agree in some respect (number of rows, of columns, of elements)"""
    ops = [o for o in raw if o["op"] == "dimeq" and o["a"] not in "VW" and o["b"] not in "VW"]
    out = []
    for _ in range(n):
        o = rng.choice(ops)
        r, c = rng.choice([0, 1, 2, 3, 4, 6]), rng.choice([0, 1, 2, 3, 4, 6])
        x = rng.choice([(r, c), (c, r), (r, rng.choice([0, 1, 5])), (rng.choice([0, 1, 5]), c), (1, r * c), (r * c, 1), (0, c), (r, 0)])
        out.append([ml.make(rng, 1, o["a"], ml.matrix(rng, r, c)), ml.make(rng, 2, o["b"], ml.matrix(rng, *x)), "bin dimeq 0 1 2", "bin dimeq 0 2 1" if o["a"] == o["b"] else "drop 5", "drop 1", "drop 2"])
    return [sum(out[i:i + 10], []) for i in range(0, len(out), 10)]

def run(ck):
    exe = ml.build(ck, "c29", PARTS)
    cases = ck.conform(ml.MODULE, exe, ml.life_scripts(ck, 1800, asks="dims"), "spec-history", cfg=CFG, sig=ml.sig)
    raw = ml.ops(ck, exe)
    types = ml.result_types(ck.run_cases(exe, ml.spec_scripts(ck, exe, ml.expand_dyn([o for o in raw if o["op"] not in ml.LIFE and o["op"] != "q"]), limit=800)))
    rnd = [ml.chain(ck.rng, raw, types, n=26, life=.4, warm=.5, dim=ck.rng.choice([2, 3, 4, 9])) for _ in range(250 * (12 if ck.thorough else 1))]
    cases += ck.conform(ml.MODULE, exe, rnd, "random-history", cfg=CFG, sig=ml.sig)
    ck.conform(ml.MODULE, exe, comparisons(ck.rng, raw, 300 * (8 if ck.thorough else 1)), "comparisons", cfg=CFG, sig=ml.sig)
    reps = ml.stretched(ck.rng, raw, types, 60 * (8 if ck.thorough else 1), n=12, life=.4, warm=.6, queries=.5)
    ck.conform(ml.MODULE, exe, reps, "repeated", cfg=CFG, sig=ml.sig)
    if not ck.violations:
        ck.demonstrate_binding(ml.MODULE, cases, corrupt, cfg=CFG)
