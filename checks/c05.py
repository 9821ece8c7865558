"""C05: addition and subtraction are elementwise for every pair of representations."""
import matlab as ml
ASSUMPTIONS = ["element values are small integers plus integer multiples of 2^-30, for which the library's double precision arithmetic is exact"]
PARTS = [("mat/ops_add.cpp", p) for p in (1, 2, 3, 4)]

def run(ck):
    exe = ml.build(ck, "c05", PARTS)
    ml.decide(ck, exe, limit=2000, chains=150)
