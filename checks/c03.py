"""C03: blocking a matrix and reassembling it is the identity."""
import blocks as bl
ASSUMPTIONS = ["a partition of a dimension has at least one block (blocks may be empty)"]

def run(ck):
    exe = bl.build(ck, "c03")
    rng, f = ck.rng, 15 if ck.thorough else 1
    scripts = [bl.script(rng, v) for v in bl.behaviours(ck, "block", 1500)]
    cases = ck.conform(bl.MODULE, exe, [sum(scripts[i:i + 8], []) for i in range(0, len(scripts), 8)], "spec-behaviour", sig=bl.sig)
    cases += ck.conform(bl.MODULE, exe, [bl.history(rng, 12, rng.choice([4, 7, 10])) for _ in range(150 * f)], "random-history", sig=bl.sig)
    cases += ck.conform(bl.MODULE, exe, [bl.history(rng, 9, rng.choice([18, 26, 36])) for _ in range(16 * f)], "larger-blocks", sig=bl.sig)
    cases += ck.conform(bl.MODULE, exe, [bl.grid(rng) for _ in range(150 * f)], "grid", sig=bl.sig)
    if not ck.violations:
        ck.demonstrate_binding(bl.MODULE, cases, bl.corrupt)
