"""C25: sparse matrices are always structurally well formed."""
import matlab as ml
ASSUMPTIONS = ["operands are well formed; a matrix with an empty dimension may come without offsets"]
PARTS = [("mat/ops_conv.cpp", 2), ("mat/ops_conv.cpp", 4), ("mat/ops_conv.cpp", 5), ("mat/ops_trans.cpp", None), ("mat/ops_life.cpp", None),
         ("mat/ops_add.cpp", 1), ("mat/ops_add.cpp", 2), ("mat/ops_mul.cpp", 3, "BACKEND=0")]
CFG = "MatrixLabTrace_structure"
SPARSE = set(ml.SPARSE)

def keep(o):
    if o["op"] in ("conv", "filt"):
        return o["to"] in SPARSE
    if o["op"] == "q":
        return False
    if o["op"] in ml.LIFE:
        return o["a"] in SPARSE and o["op"] != "dimeq"
    return o["a"] in SPARSE or o["b"] in SPARSE

def corrupt(c, rng):
    """two stored positions of a line exchanged, or an offset too large"""
    es = [x for e in c for x in e.get("all", []) if x["sp"] and x["nnz"] > 1]
    if not es:
        return None
    x = rng.choice(es)
    if rng.random() < .5:
        x["off"][-1] += 1
    else:
        k = [p for p in range(1, x["nnz"]) if p not in x["off"]]
        if not k:
            return None
        p = rng.choice(k)
        x["key"][p - 1], x["key"][p] = x["key"][p], x["key"][p - 1]
    return c

def run(ck):
    exe = ml.build(ck, "c25", PARTS)
    cases = ml.decide(ck, exe, limit=2500, chains=150, n=20, cfg=CFG, keep=keep, life=.3, queries=0, corrupt=corrupt)
