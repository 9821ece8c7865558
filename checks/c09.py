"""C09: norms and occupation equal their mathematical definition."""
import matlab as ml
ASSUMPTIONS = ["element values are integers up to a million, or small integers plus integer multiples of 2^-30; two norms are compared by their squares",
               "occupation is asked with filters that reject zero, as elements that a sparse matrix does not store are not counted",
               "occupation of multiple matrices is declared as not implemented by the library"]
PARTS = [("mat/ops_query.cpp", None), ("mat/ops_add.cpp", 5)]

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "q" and ("cnt" in e or "sq" in e or "hi" in e)]
    if not es:
        return None
    e = rng.choice(es)
    k = [x for x in ("cnt", "sq", "hi") if x in e][0]
    e[k] += 1
    return c if e["to"] != "occ" else None

def run(ck):
    exe = ml.build(ck, "c09", PARTS)
    big = ml.large_norms(ck.rng, ml.expand_dyn(ml.ops(ck, exe)), 300 * (10 if ck.thorough else 1))
    ck.conform(ml.MODULE, exe, big, "large-elements", sig=ml.sig)
    ck.conform(ml.MODULE, exe, ml.fine_lines(ck.rng, ml.expand_dyn(ml.ops(ck, exe)), 240 * (10 if ck.thorough else 1)), "fine-elements", sig=ml.sig)
    ml.decide(ck, exe, limit=4000, chains=150, n=20, cap=2500, queries=.6, corrupt=corrupt)
