"""C07: products are exact for every operand pair and back end."""
import os
import matlab as ml, vlib
ASSUMPTIONS = ["element values are small integers plus integer multiples of 2^-30 such that no product of two low parts occurs; sums of products are exact in double precision",
               "Intel MKL is not installed: products through that back end are not executed"]
SRC = [(os.path.join(vlib.REPO, "src/Utilities/tracker.cpp"), None)]
BLAS = [(os.path.join(vlib.REPO, "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"), None, "WITH_OPENBLAS")]

def run(ck):
    native = [("mat/ops_mul.cpp", p, "BACKEND=0") for p in (1, 2, 3, 4, 5, 6)]
    extern = [("mat/ops_mul.cpp", 7, "BACKEND=1", "WITH_OPENBLAS"), ("mat/ops_mul.cpp", 7, "BACKEND=2"), ("mat/ops_mul.cpp", 9, "BACKEND=4"),
              ("mat/ops_mul.cpp", 8, "BACKEND=4"), ("mat/ops_mul.cpp", 7, "BACKEND=3", "WITH_OPENBLAS"), ("mat/ops_mul.cpp", 6, "BACKEND=3", "WITH_OPENBLAS")]
    exe = ml.build(ck, "c07", native + extern + SRC + BLAS, libs=["-lopenblas"])
    have = {o["to"] for o in ml.ops(ck, exe)}
    if have != {"native", "openblas", "eigen", "blaze", "best"}:
        raise vlib.ToolError("back ends: %s" % sorted(have))
    ml.decide(ck, exe, limit=3000, chains=150, n=16, views=False)
