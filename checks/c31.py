"""C31: an operation that runs out of memory leaves everything as it was."""
import json
import blocks as bl
import matlab as ml
import storelab as sl
ASSUMPTIONS = ["an allocation fails by throwing std::bad_alloc, in the library's allocator or in operator new; every allocation of an operation fails once, alone and together with all later ones",
               "products are those of the native interface: the external libraries handle a lack of memory on their own"]
PARTS = [("mat/fault.cpp", None), ("mat/ops_life.cpp", None), ("mat/ops_trans.cpp", None), ("mat/ops_query.cpp", None)] + [("mat/ops_add.cpp", p) for p in range(1, 8)] \
    + [("mat/ops_conv.cpp", p) for p in range(1, 6)] + [("mat/ops_mul.cpp", p, "BACKEND=0") for p in range(1, 7)]
CFG = "MatrixLabTrace_memory"
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}
FAULTY = ("bin", "un", "resize", "view", "adapt", "block", "grid", "put")
STORAGE = ("new", "list", "over", "strided", "copy", "convert", "move", "assign", "resize")

def run(ck):
    f = 12 if ck.thorough else 1
    exe = ml.build(ck, "c31", PARTS, flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    def faulty(lines, share=1.0, which=FAULTY):
        return [(ck.rng.choice(["each ", "each ", "every "]) if x.replace("? ", "").split()[0] in which and ck.rng.random() < share else "") + x for x in lines]
    cases = ck.conform(ml.MODULE, exe, [faulty(x) for x in ml.life_scripts(ck, 400)], "spec-history", cfg=CFG, sig=ml.sig, denv=ENV)
    raw = ml.ops(ck, exe)
    calm = ml.spec_scripts(ck, exe, ml.expand_dyn([o for o in raw if o["op"] not in ml.LIFE and o["op"] != "q"]), limit=900)
    cases += ck.conform(ml.MODULE, exe, [faulty(x) for x in calm], "spec-behaviour", cfg=CFG, sig=ml.sig, denv=ENV)
    types = ml.result_types(cases)
    rnd = [faulty(ml.chain(ck.rng, raw, types, n=14, life=.2, dim=ck.rng.choice([2, 3, 4, 5])), .5) for _ in range(90 * f)]
    cases += ck.conform(ml.MODULE, exe, rnd, "random-history", cfg=CFG, sig=ml.sig, denv=ENV)
    one = list(cases)
    exe = ml.build(ck, "c31-blocks", [("mat/fault.cpp", None)] + bl.PARTS, libs=["-lopenblas"], flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    beh = [bl.script(ck.rng, v) for k, n in (("adapt", 200), ("block", 120), ("mul", 60)) for v in bl.behaviours(ck, k, n)]
    cases += ck.conform(bl.MODULE, exe, [faulty(sum(beh[i:i + 4], [])) for i in range(0, len(beh), 4)], "spec-blocks", sig=bl.sig, denv=ENV)
    cases += ck.conform(bl.MODULE, exe, [faulty(bl.history(ck.rng, 10, ck.rng.choice([4, 7]))) for _ in range(40 * f)], "blocked-history", sig=bl.sig, denv=ENV)
    cases += ck.conform(bl.MODULE, exe, [faulty(bl.grid(ck.rng)) for _ in range(40 * f)], "grid", sig=bl.sig, denv=ENV)
    storage = ck.build(["storage.cpp"], defs=ml.DEFS, opt="-O0", flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-include", "boost/serialization/base_object.hpp"],
                       libs=["-lboost_serialization", "-lboost_filesystem", "-lboost_system"])
    hs = sorted(ck.model_check("MCStorage"), key=str)
    hs = hs if len(hs) < 1000 * f else ck.rng.sample(hs, 1000 * f)
    more = ck.conform("StorageTrace", storage, [faulty(sl.behaviour(h), which=STORAGE) for h in hs], "storage-spec-history", sig=sl.sig, denv=ENV)
    more += ck.conform("StorageTrace", storage, [faulty(sl.history(ck.rng), which=STORAGE) for _ in range(200 * f)], "storage-random-history", sig=sl.sig, denv=ENV)
    ck.extra["failed_operations"] = sum(1 for c in cases + more for e in c or [] if e.get("out") == "memory" or e.get("memory"))
    if not ck.violations:
        ck.demonstrate_binding(ml.MODULE, one, ml.corrupt, cfg=CFG)
        ck.demonstrate_binding("StorageTrace", more, sl.corrupt)
