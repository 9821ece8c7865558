"""C08: blocked multiplication equals unblocked multiplication."""
import blocks as bl
ASSUMPTIONS = ["integer elements (products are exact); a partition of a dimension has at least one block (blocks may be empty)",
               "Intel MKL is not installed: products through that back end are not executed"]

def run(ck):
    rng, f = ck.rng, 15 if ck.thorough else 1
    exes = [bl.build(ck, "c08"), bl.build(ck, "c08", True)]
    scripts = [bl.script(rng, v) for v in bl.behaviours(ck, "mul", 1600)]
    cases = []
    for k, exe in enumerate(exes):
        part = scripts[k::2]
        cases += ck.conform(bl.MODULE, exe, [sum(part[i:i + 8], []) for i in range(0, len(part), 8)], "spec-behaviour", sig=bl.sig)
        cases += ck.conform(bl.MODULE, exe, [bl.history(rng, 22, rng.choice([3, 5, 8]), True) for _ in range(120 * f)], "random-history", sig=bl.sig)
        cases += ck.conform(bl.MODULE, exe, [bl.history(rng, 12, rng.choice([14, 20, 26]), True) for _ in range(16 * f)], "larger-blocks", sig=bl.sig)
    if not ck.violations:
        ck.demonstrate_binding(bl.MODULE, cases, bl.corrupt)
