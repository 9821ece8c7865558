"""C01: converting a matrix between representations never changes its value."""
import matlab as ml
ASSUMPTIONS = ["element values are small integers plus integer multiples of 2^-30, so that conversions to single precision have an exactly known result"]
PARTS = [("mat/ops_conv.cpp", p) for p in (1, 2, 3, 4, 5)]


def large(rng, raw):
    """Numbers at the limit of single precision: every conversion of every kind of matrix."""
    out = []
    for t in ml.DENSE + ml.SPARSE + ["I"]:
        unary = [o for o in raw if o["a"] == t and o["b"] == "" and o["op"] not in ml.LIFE]
        for o in unary:
            r, c = rng.randint(1, 3), rng.randint(1, 3)
            k = [rng.choice([0, 1, -1, 2 ** 24, 2 ** 24 + 1, -2 ** 24 - 1, 2 ** 24 + 3, 2 ** 25 - 1, 2 ** 26 + 6, 2 ** 26 + 2, 2 ** 29 - 1, -2 ** 29 + 15, rng.randrange(2 ** 24, 9 * 10 ** 8)]) for _ in range(r * c)]
            m = dict(r=r, c=c, hi=k, lo=[0] * (r * c))
            line = "un %s 2 1" % ml.opname(o)
            if o["op"] == "filt":
                line += " " + ml.filter_args(rng, False)
            out.append([ml.make(rng, 1, t, m), line])
    return out

def run(ck):
    exe = ml.build(ck, "c01", PARTS)
    cases = ml.decide(ck, exe, limit=2000, chains=120, n=16)
    big = sum((large(ck.rng, ml.ops(ck, exe)) for _ in range(20 if ck.thorough else 3)), [])
    ck.extra["conversions_of_large_numbers"] = len(big)
    ck.conform(ml.MODULE, exe, [sum([x + ["drop 1", "drop 2"] for x in big[i:i + 10]], []) for i in range(0, len(big), 10)], "large-numbers", sig=ml.sig)
    ck.conform(ml.MODULE, exe, ml.fine_lines(ck.rng, ml.expand_dyn(ml.ops(ck, exe)), 600 * (10 if ck.thorough else 1)), "rounded", sig=ml.sig)
