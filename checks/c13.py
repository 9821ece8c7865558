"""C13: matrix memory is owned by exactly one matrix and released exactly once."""
import matlab as ml, storelab as sl
ASSUMPTIONS = ["allocation goes through a stand-in for blaze that records every buffer, surrounds it with canaries and keeps released buffers reserved",
               "the driver runs under the address sanitizer: an access outside a live buffer ends it and is reported"]
PARTS = [("mat/ops_life.cpp", None), ("mat/ops_add.cpp", 5), ("mat/ops_conv.cpp", 1), ("mat/ops_conv.cpp", 2), ("mat/ops_conv.cpp", 3)]
CFG = "MatrixLabTrace_memory"

def corrupt(c, rng):
    """a buffer that is not released any more"""
    es = [k for k, e in enumerate(c) if e["ev"] == "drop" and k and e["live"] != c[k - 1]["live"]]
    if es:
        k = rng.choice(es)
        c[k]["live"] = c[k - 1]["live"]
        return c

def run(ck):
    exe = ml.build(ck, "c13", PARTS, flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}
    cases = ck.conform(ml.MODULE, exe, ml.life_scripts(ck, 1800), "spec-history", cfg=CFG, sig=ml.sig, denv=env)
    raw = ml.ops(ck, exe)
    types = ml.result_types(ck.run_cases(exe, ml.spec_scripts(ck, exe, [o for o in raw if o["op"] not in ml.LIFE and o["op"] != "q" and o["a"][0] not in "YM" and o["b"][:1] not in ("Y", "M")], limit=400), env=env))
    rnd = [ml.chain(ck.rng, raw, types, n=26, life=.45, queries=0, dim=ck.rng.choice([2, 3, 4])) + ["end"] for _ in range(250 * (12 if ck.thorough else 1))]
    cases += ck.conform(ml.MODULE, exe, rnd, "random-history", cfg=CFG, sig=ml.sig, denv=env)
    if not ck.violations:
        ck.demonstrate_binding(ml.MODULE, cases, corrupt, cfg=CFG)
    storage = ck.build(["storage.cpp"], defs=["NDEBUG", "BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"], opt="-O0",
                       flags=["-fsanitize=address", "-fno-omit-frame-pointer", "-include", "boost/serialization/base_object.hpp"],
                       libs=["-lboost_serialization", "-lboost_filesystem", "-lboost_system"])
    hs = ck.model_check("MCStorage") + (ck.model_check("MCStorage", "MCStorage_deep") if ck.thorough else [])
    hs.sort(key=str)
    ck.extra["storage_histories_from_spec"] = len(hs)
    pick = hs if len(hs) < 3000 else ck.rng.sample(hs, 40000 if ck.thorough else 3000)
    ck.extra["storage_histories_executed"] = len(pick)
    ck.conform("StorageTrace", storage, [sl.behaviour(h) for h in pick], "storage-spec-history", sig=sl.sig, denv=env)
    more = ck.conform("StorageTrace", storage, [sl.history(ck.rng) for _ in range(400 * (12 if ck.thorough else 1))], "storage-random-history", sig=sl.sig, denv=env)
    if not ck.violations:
        ck.demonstrate_binding("StorageTrace", more, sl.corrupt)
