#!/usr/bin/env python3
"""Mutation sweep: many small syntactic changes to the library, each tried against the checks concerned.
  mutate.py sweep SEED COUNT WORKERS [FILE...]   tries COUNT random changes, prints those no check noticed
  mutate.py one CHECK                            a quick check with VERIF_REPO; the model checking results, which do not
                                                 depend on the code, are kept in $MUT_CACHE; ends at the first violation
A development aid: no registered check uses it.
"""
import hashlib, importlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("MUT_CACHE", "/tmp/mut")
C = "include/BlasBooster/Core/"
U = "include/BlasBooster/Utilities/"
B = "src/Benchmark/"
FILES = {
    C + "AbsoluteValueRangeChecker.h": "C11 C12 C27", C + "Norm.h": "C09 C10 C02", C + "Occupation.h": "C09 C10", C + "NormPolicy.h": "C09 C10", C + "OccupationPolicy.h": "C09 C10 C02",
    C + "DenseMatrix.h": "C01 C05 C14 C13 C29 C24 C06 C31 C10", C + "SparseMatrix.h": "C25 C01 C05 C29 C31 C10", C + "SparseStorage.h": "C25 C13 C29 C31", C + "Storage.h": "C13 C31 C24 C29",
    C + "BinaryFunctors.h": "C05 C06 C07 C10", C + "MatrixConverter.h": "C02 C03 C01", C + "BlockSizeGenerator.h": "C04", C + "BlockedMatrixGenerator.h": "C03 C28", C + "Threshold.h": "C27 C02",
    C + "Cursor.h": "C14", C + "CursorBase.h": "C14", C + "StridedCursorBase.h": "C14", C + "StripedIterator.h": "C14", U + "Tracker.h": "C18", "src/Utilities/tracker.cpp": "C18",
    C + "MatrixFileIO.h": "C21", C + "MatrixFiller.h": "C22 C30", C + "PatternGenerator.h": "C23 C30", C + "MatrixIO.h": "C23", C + "Multiplication_Native.h": "C07 C08", C + "Multiplication_OpenBLAS.h": "C16 C07",
    C + "Multiplication_Eigen.h": "C07", C + "Multiplication_Blaze.h": "C07", C + "Multiplication_TheBestPolicy.h": "C07 C08", C + "MatrixMultExp.h": "C07 C08 C24", C + "Dimension.h": "C29 C04 C03 C24",
    C + "MultipleMatrix.h": "C05 C01 C06 C09", C + "DynamicMatrixFunctions.h": "C29 C05 C07 C06 C10", C + "DynamicMatrix.h": "C01 C10 C29", C + "Transposition.h": "C15 C14", C + "ZeroMatrix.h": "C29 C01 C05", C + "GenerateTypeMatrix.h": "C02 C28",
    C + "BlockedMatrix.h": "C03 C08", C + "StatisticalErrorInformation.h": "C28", C + "Copy.h": "C01 C05", C + "Parameter.h": "C27 C02", U + "exec_dyn.h": "C17", U + "exec_dyn_2dim.h": "C17", U + "exec_if.h": "C17", U + "exec_if_2dim.h": "C17",
    U + "EnumParser.h": "C19", U + "FileIO.h": "C20", U + "EqualWithinNumericalAccuracy.h": "C26", U + "StaticDispatcher.h": "C17", U + "TypeName.h": "C19", U + "range.h": "C30 C04", U + "STLHelpers.h": "C19 C23",
    U + "ScopedTimer.h": "C18", "include/BlasBooster/MatrixFactory/MatrixGenerator.h": "C22", "src/MatrixFactory/MatrixGenerator.cpp": "C22", "src/MatrixFactory/MatrixFileImporter.cpp": "C21",
    B + "ActionProvider.cpp": "C30 C19", B + "MatrixProvider.cpp": "C21", B + "benchmark.cpp": "C30", B + "generate_matrix.cpp": "C30", B + "matrix_matrix_mult.cpp": "C30", B + "show_pattern.cpp": "C30 C23",
    B + "Action_blasbooster_block.h": "C30 C08", "src/BlasAnalyzer/BlasAnalyzer.cpp": "C30", "src/BlasAnalyzer/Reporter.cpp": "C30 C18", B + "time.cpp": "C30", B + "time.h": "C30",
}
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" += ", " -= "), (" -= ", " += "),
         (" += ", " = "), (" and ", " or "), (" or ", " and "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), ("getNbRows()", "getNbColumns()"), ("getNbColumns()", "getNbRows()"),
         ("nbRows_", "nbColumns_"), ("nbColumns_", "nbRows_"), ("std::max", "std::min"), ("std::min", "std::max"), (" 0", " 1"), ("(0", "(1"), (" 1", " 2"), ("std::abs(", "("), ("!", ""), ("size_t ", "unsigned char "), ("size_t ", "unsigned short "),
         ("double ", "float "), ("int ", "short "), ("begin()", "end()"), ("_.first", "_.second"), ("<T1>", "<T2>"), ("rowOffset", "columnOffset"), ("lhs", "rhs"), ("rhs", "lhs"), ("other.", ""), ("A.", "B."), ("B.", "A."), ("++", "--"), ("const &", "const "), ("std::move(", "("), ("static ", "")]

def mutants(path, text):
    """(description, new text)"""
    lines = text.split("\n")
    out = []
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        if comment:
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "using", "template", "typedef", "namespace", "friend", "static_assert", "class", "struct", "}", "{", "public", "private", "protected")):
            continue
        if "throw " in s and "if" not in s or s.startswith(("assert", "->")) or "decltype" in s or "enable_if" in s or s.startswith("((") or "__VA_ARGS__" in s:
            continue
        code = re.sub(r'"[^"]*"', lambda m: "\x00" * len(m.group(0)), re.split(r"//|\bthrow\b|\bassert\b", l)[0])
        for a, b in SWAPS:
            if a in (" < ", " > ") and ("template" in code or "typename" in code or "::type" in code):
                continue
            for m in re.finditer(re.escape(a), code):
                if a in ("!",) and code[m.end():m.end() + 1] == "=":
                    continue
                out.append(("%s:%d: %s -> %s" % (path, n + 1, a, b), n, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r"\b([A-Za-z_]\w*)\b, \b([A-Za-z_]\w*)\b(?=[,)])", code):
            if m.group(1) != m.group(2) and "typename" not in code:
                out.append(("%s:%d: swap arguments" % (path, n + 1), n, l[:m.start()] + m.group(2) + ", " + m.group(1) + l[m.end():]))
        if s.endswith(";") and re.match(r"^[A-Za-z_(*+][\w:.\->\[\]()* ]*(\(.*\)|\s*[+\-*]?=.*);$", s) and not re.match(r"^(return|throw|for|if|else|case|const|auto|int|double|size_t|std::\w+<|typename|static|bool|float|virtual)\b", s) and not re.match(r"^[\w:<>]+[ *&]+\w+( = |\()", s):
            out.append(("%s:%d: drop" % (path, n + 1), n, ";"))
        m = re.match(r"^(\s*)if \((.*)\) (throw|return|continue)", l)
        if m:
            out.append(("%s:%d: drop guard" % (path, n + 1), n, m.group(1) + ";"))
    return [(d + "\n      - " + lines[n].strip() + "\n      + " + new.strip(), "\n".join(lines[:n] + [new] + lines[n + 1:])) for d, n, new in out]

def one(prop):
    sys.path.insert(0, os.path.join(V, "lib"))
    sys.path.insert(0, os.path.join(V, "checks"))
    import vlib
    plain = vlib.Check.model_check
    specs = hashlib.sha256(b"".join(open(os.path.join(vlib.SPEC, f), "rb").read() for f in sorted(os.listdir(vlib.SPEC)) if f.endswith((".tla", ".cfg")))).hexdigest()
    def model_check(self, module, cfg=None, env=None, *a, **k):
        p = os.path.join(CACHE, hashlib.sha256(repr((specs, module, cfg, sorted((env or {}).items()), a, sorted(k.items()))).encode()).hexdigest() + ".mc")
        if os.path.exists(p):
            return pickle.load(open(p, "rb"))
        r = plain(self, module, cfg, env, *a, **k)
        pickle.dump(r, open(p + ".%d" % os.getpid(), "wb"))
        os.rename(p + ".%d" % os.getpid(), p)
        return pickle.load(open(p, "rb"))
    check = vlib.Check.validate
    def validate(self, module, cases, cfg=None, env=None, **k):
        """histories already accepted are not validated again"""
        p = os.path.join(CACHE, prop + "-" + hashlib.sha256(repr((specs, module, cfg, sorted((env or {}).items()))).encode()).hexdigest() + ".ok")
        ok = set(open(p).read().split()) if os.path.exists(p) else set()
        h = [None if c is None else hashlib.md5(json.dumps(c, sort_keys=True).encode()).hexdigest() for c in cases]
        left = [None if x in ok else c for x, c in zip(h, cases)]
        if not any(c is not None for c in left):
            return []
        r = check(self, module, left, cfg, env, **k)
        if not r:
            with open(p, "a") as f:
                f.write("\n".join(x for x, c in zip(h, left) if c is not None) + "\n")
        return r
    vlib.Check.validate = validate
    def report(self, s, payload):
        print("CAUGHT", s, flush=True)
        shutil.rmtree(self.work, ignore_errors=True)
        os._exit(1)
    vlib.Check.model_check = model_check
    vlib.Check.report = report
    vlib.Check.demonstrate_binding = lambda *a, **k: None
    vlib.Check.finish = lambda self, *a: 0
    mod = importlib.import_module(prop.lower())
    ck = vlib.Check(prop, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(ck)
    except vlib.ToolError as e:
        print("ERROR", str(e)[:300], flush=True)
        os._exit(2)
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)
    os._exit(1 if ck.violations else 0)

def work(job):
    path, d, new, checks = job
    w = tempfile.mkdtemp(prefix="mut-")
    r = w + "/r"
    res = []
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        open(os.path.join(r, path), "w").write(new)
        for c in checks:
            try:
                x = subprocess.run([sys.executable, os.path.abspath(__file__), "one", c], env=dict(os.environ, VERIF_REPO=r, MUT_CACHE=CACHE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
            except subprocess.TimeoutExpired:
                res.append(c + ":timeout")
                continue
            if x.returncode == 1:
                return "killed by %s" % c, d, x.stdout[-100:]
            if x.returncode == 2:
                t = x.stdout[-400:].replace("\n", " ")
                if "compile" in t:
                    return "invalid", d, t[-200:]
                res.append(c + ":error " + t[:200])
            else:
                res.append(c + ":rc%d" % x.returncode)
        return "SURVIVED", d, " ".join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)

def sweep(seed, count, workers, files):
    import concurrent.futures as cf
    rng = random.Random(seed)
    per = {}
    for p in files or FILES:
        ms = mutants(p, open("/repo/" + p).read())
        rng.shuffle(ms)
        per[p] = ms
    jobs = []
    keys = list(per)
    k = 0
    while len(jobs) < count and any(per.values()):
        for p in keys:
            n = 1 + len(per[p]) // 60
            for _ in range(n):
                if per[p] and len(jobs) < count:
                    d, new = per[p].pop()
                    jobs.append((p, d, new, FILES[p].split()))
    rng.shuffle(jobs)
    t0 = time.time()
    tally = {}
    with cf.ThreadPoolExecutor(workers) as ex:
        for fu in cf.as_completed([ex.submit(work, j) for j in jobs]):
            s, d, x = fu.result()
            tally[s.split()[0]] = tally.get(s.split()[0], 0) + 1
            print("%5d %s %s | %s" % (time.time() - t0, s, d, x.strip().replace("\n", " ")[:200]), flush=True)
    print("done", tally, flush=True)

if sys.argv[1] == "one":
    one(sys.argv[2])
else:
    sweep(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
