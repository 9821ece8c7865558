"""C06: compound assignment accumulates the right operand into the left operand."""
import matlab as ml
ASSUMPTIONS = ["element values are small integers plus integer multiples of 2^-30, for which the library's double precision arithmetic is exact",
               "operands that overlap in memory without being the same matrix are not accumulated into one another"]
PARTS = [("mat/ops_add.cpp", p) for p in (5, 6, 7)]

def run(ck):
    exe = ml.build(ck, "c06", PARTS)
    ml.decide(ck, exe, limit=2500, chains=200, n=16)
