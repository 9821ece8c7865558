"""C16: each BLAS wrapper calls exactly its namesake with unchanged arguments."""
import json, os
import vlib
ASSUMPTIONS = ["the back-end library is replaced by recording stand-ins generated from the specification's function table",
               "arguments are identified by value tokens; IntelMKL complex dot products use the hidden-result convention, OpenBLAS ones either C or by-value convention"]
CPP = {"char": "char", "int": "int", "float": "float", "double": "double", "c": "std::complex<float>", "z": "std::complex<double>"}

def gen(table, backend):
    """Recording stand-ins (C linkage) and caller for one back end."""
    code = {"char": "h", "int": "i", "float": "f", "double": "d", "c": "c", "z": "z"}
    st = ['#include "blas_boundary.h"', 'extern "C" {']
    for n, fn in enumerate(table, 1):
        if backend not in fn["backends"]:
            continue
        args = fn["args"]
        types = "".join(code[a["t"]] if a["c"] else code[a["t"]].upper() for a in args)
        ps = ", ".join("void* v%d" % i for i in range(len(args)))
        vs = ", ".join("v%d" % i for i in range(len(args)))
        body = 'void* a[] = {%s}; record("%s", "%s", a);' % (vs, fn["prefix"] + fn["f"], types)
        r = fn["ret"]
        val = 700 + n
        sym = fn["prefix"] + fn["f"] + ("" if fn["prefix"] else "_")
        if r in ("c", "z"):
            t = CPP[r]
            ct = {"c": "float", "z": "double"}[r]
            if backend == "IntelMKL":
                st.append("void %s(%s* r, %s) { %s *r = %s(%d, %d); }" % (sym, t, ps, body, t, val, -val))
            else:
                st.append("%s _Complex %s(%s) { %s %s _Complex r; __real__ r = %d; __imag__ r = %d; return r; }" % (ct, sym, ps, body, ct, val, -val))
                st.append("void cblas_%s_sub(int n, void* v1, int ix, void* v3, int iy, void* r) { void* v0 = &n; void* v2 = &ix; void* v4 = &iy; %s *(%s*)r = %s(%d, %d); }"
                          % (fn["f"], body, t, t, val, -val))
        elif r == "void":
            st.append("void %s(%s) { %s }" % (sym, ps, body))
        else:
            st.append("%s %s(%s) { %s return %d; }" % (r, sym, ps, body, val))
    st.append('void openblas_set_num_threads(int n) { boundary.push_back({"set_num_threads", {n}}); }')
    st.append('void MKL_Set_Num_Threads(int n) { boundary.push_back({"set_num_threads", {n}}); }')
    st.append('void MKL_Set_Dynamic(int) {}')
    st.append("}")
    c = ['#include <complex>', '#include "BlasBooster/BlasInterface/Blas.h"', '#include "BlasBooster/BlasInterface/BlasInterface_%s.h"' % backend,
         '#include "blas_call.h"', 'using namespace BlasBooster;']
    tab = []
    for fn in table:
        if backend not in fn["backends"]:
            continue
        args = fn["args"]
        types = "".join(code[a["t"]] if a["c"] else code[a["t"]].upper() for a in args)
        call = "BlasInterface<%s, %s>()(%s)" % (backend, fn["f"], ", ".join("(%s*)a[%d]" % (CPP[a["t"]], i) for i, a in enumerate(args)))
        if fn["ret"] == "void":
            body = call + "; r[0] = r[1] = 0;"
        elif fn["ret"] in ("c", "z"):
            body = "auto q = " + call + "; r[0] = (long long)q.real(); r[1] = (long long)q.imag();"
        else:
            body = "auto q = " + call + "; r[0] = (long long)q; r[1] = 0;"
        c.append("static void call_%s(void** a, long long* r) { %s }" % (fn["f"], body))
        c.append("static std::string name_%s() { return %s::name(); }" % (fn["f"], fn["f"]))
        tab.append('{"%s", "%s", call_%s, name_%s}' % (fn["f"], types, fn["f"], fn["f"]))
    c.append("static Entry table[] = {%s};" % ",\n".join(tab))
    c.append('int main() { return run_calls(table, sizeof table / sizeof table[0], "%s", [](int n){ %s_set_num_threads(n); }); }' % (backend, backend))
    return "\n".join(st), "\n".join(c)

def run(ck):
    table = sorted(json.load(open(os.path.join(vlib.SPEC, "blas_functions.json"))).values(), key=lambda f: f["idx"])
    info = {fn["f"]: fn for fn in table}
    beh = ck.model_check("MCBlasForward")
    ck.extra["behaviours_from_spec"] = len(beh)
    allcases = []
    for backend in ("OpenBLAS", "IntelMKL"):
        st, c = gen(table, backend)
        d = os.path.join(vlib.BUILD, "gen")
        os.makedirs(d, exist_ok=True)
        ps, pc = os.path.join(d, "stand_%s.cpp" % backend), os.path.join(d, "call_%s.cpp" % backend)
        for p, s in ((ps, st), (pc, c)):
            with open(p, "w") as f:
                f.write(s + "\n")
        src = os.path.join(vlib.REPO, "src/Interfaces", backend, "BlasInterface_%s.cpp" % backend)
        exe = ck.build([pc, ps, src], name="blas_" + backend, stubs=False, opt="-O1", flags=["-fno-strict-aliasing"])
        scripts = [["call %s %s" % (n, " ".join(map(str, vals)))] for b, n, vals in beh if b == backend]
        # group calls of several functions to see interference
        scripts = [sum(scripts[i:i + 8], []) for i in range(0, len(scripts), 8)]
        names = [fn["f"] for fn in table if backend in fn["backends"]]
        rnd = []
        for rep in range(40 if ck.thorough else 6):
            ck.rng.shuffle(names)
            for i in range(0, len(names), 10):
                sc = []
                for n in names[i:i + 10]:
                    vals = []
                    for a in info[n]["args"]:
                        if a["t"] == "char":
                            vals.append(ord(ck.rng.choice("NnTtCcULRulr G")))
                        elif a["t"] == "int":
                            vals.append(ck.rng.choice([0, 1, 1, -1, 2, 3, 7, 64, 100, 127, 128, 1000, 4096, 32768, 65537, 1000000, -5, ck.rng.randrange(-1000, 1000)]))
                        else:
                            vals.append(ck.rng.choice([0, 1, -1, 2, 3, ck.rng.randrange(-1000, 1000)]))
                    sc.append("call %s %s" % (n, " ".join(map(str, vals))))
                sc.append("threads %d" % ck.rng.choice([1, 2, 4, 8, 64, 0, ck.rng.randrange(1, 256)]))
                rnd.append(sc)
        allcases += ck.conform("BlasForwardTrace", exe, scripts, "spec-behaviour:" + backend, sig=sig)
        allcases += ck.conform("BlasForwardTrace", exe, rnd, "random:" + backend, sig=sig)
        ck.extra["functions_" + backend] = len(names)
    if not ck.violations:
        ck.demonstrate_binding("BlasForwardTrace", allcases, corrupt)

def sig(tr, i):
    e = tr[i]
    return "%s:%s" % (e.get("backend"), e.get("f", e.get("ev")))

def corrupt(c, rng):
    es = [e for e in c if e["ev"] == "call" and len(e["vals"]) > 1 and e["log"]]
    if not es:
        return None
    e = rng.choice(es)
    s = e["log"][0]["seen"]
    i = rng.randrange(len(s))
    s[i] += 1
    return c
