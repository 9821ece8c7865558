"""C15: transposition swaps indices and is an involution."""
import matlab as ml
ASSUMPTIONS = ["views and blocked matrices are not transposed (the library offers no such conversion)"]
PARTS = [("mat/ops_trans.cpp", None), ("mat/ops_add.cpp", 5), ("mat/ops_conv.cpp", 2)]

def run(ck):
    exe = ml.build(ck, "c15", PARTS)
    keep = lambda o: o["op"] == "trans" or o["b"] == "" or o["a"] == o["b"]
    cases = ml.decide(ck, exe, limit=1500, chains=200, n=18, cfg="MatrixLabTrace_structure", keep=keep)
    # and twice: back to the original
    rng, scripts = ck.rng, []
    for _ in range(150 * (10 if ck.thorough else 1)):
        s = []
        for _ in range(4):
            t = rng.choice(ml.DENSE + ml.SPARSE + ["I"])
            top = rng.choice([3, 6, 12, 30])
            s += [ml.make(rng, 1, t, ml.matrix(rng, rng.randint(0, top), rng.randint(0, top))), "un trans 2 1", "un trans 3 2", "un trans 2 3"]
        scripts.append(s)
    ck.conform(ml.MODULE, exe, scripts, "twice", cfg="MatrixLabTrace_structure", sig=ml.sig)
    # lines with hundreds of stored elements
    long = []
    for _ in range(4 * (10 if ck.thorough else 1)):
        n, k = rng.choice([250, 260, 300, 513]), rng.choice([1, 2])
        r, c = rng.choice([(n, k), (k, n)])
        m = dict(r=r, c=c, hi=[rng.choice([1, 2, 3, -4, 5, 0]) for _ in range(n * k)], lo=[0] * (n * k))
        s = []
        for t in rng.sample(ml.SPARSE, 2) + ["DC"]:
            s += [ml.make(rng, 1, t, m), "un trans 2 1", "drop 1", "un trans 3 2", "drop 2", "drop 3"]
        long.append(s)
    ck.conform(ml.MODULE, exe, long, "long-lines", cfg="MatrixLabTrace_structure", sig=ml.sig)
