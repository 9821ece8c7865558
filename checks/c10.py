"""C10: cached norms and occupations never become stale."""
import matlab as ml
ASSUMPTIONS = ["elements are modified through accesses (references, iterators, pointers) obtained after the last query",
               "element values are small integers plus integer multiples of 2^-30"]
PARTS = [("mat/ops_life.cpp", None), ("mat/ops_query.cpp", None), ("mat/ops_add.cpp", 5), ("mat/ops_conv.cpp", 1), ("mat/ops_conv.cpp", 2)]

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "q" and "sq" in e]
    if es:
        rng.choice(es)["sq"] += 1
        return c

def run(ck):
    exe = ml.build(ck, "c10", PARTS)
    cases = ck.conform(ml.MODULE, exe, ml.life_scripts(ck, 1500, asks=True), "spec-history", sig=ml.sig)
    raw = [o for o in ml.ops(ck, exe) if o["op"] not in ("conv",)]
    rnd = [ml.chain(ck.rng, raw, {}, n=26, life=.45, warm=.5, cap=2500, dim=ck.rng.choice([2, 3, 4])) for _ in range(250 * (12 if ck.thorough else 1))]
    cases += ck.conform(ml.MODULE, exe, rnd, "random-history", sig=ml.sig)
    if not ck.violations:
        ck.demonstrate_binding(ml.MODULE, cases, corrupt)
