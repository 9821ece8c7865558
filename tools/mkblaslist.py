#!/usr/bin/env python3
"""One-off: turns the function list of the pinned commit into the specification's constant table (committed)."""
import json, yaml, sys
y = yaml.safe_load(open("/repo/include/BlasBooster/BlasInterface/FunctionList.yml"))
out = []
def conv(fn, backends, prefix):
    a = [{"t": x.replace("const ", "").replace("std::complex<float>", "c").replace("std::complex<double>", "z"),
          "c": x.startswith("const ")} for x in fn["argument_list"]]
    r = fn["return_value"].replace("std::complex<float>", "c").replace("std::complex<double>", "z")
    out.append({"f": fn["name"], "ret": r, "args": a, "backends": backends, "prefix": prefix})
for fn in y["functions_blas"]: conv(fn, ["OpenBLAS", "IntelMKL"], "")
for fn in y["functions_blas_zdot"]: conv(fn, ["OpenBLAS", "IntelMKL"], "")
for fn in y["functions_spblas"]: conv(fn, ["IntelMKL"], "mkl_")
for i, f in enumerate(out, 1):
    f["idx"] = i
json.dump({f["f"]: f for f in out}, open("/verif/spec/blas_functions.json", "w"), separators=(",", ":"))
print(len(out))
