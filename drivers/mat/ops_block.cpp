// adaptive conversion, blocking, reassembly, blocked products, statistics of the blocks
#include "mat.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
// BlockedDenseMatrix in a box
void lookAt(B const& b, Dump& d);
std::vector<int> blocksOf(B const&) { return {}; }
long long offsetOf(B const&) { return 0; }
static const size_t TOP = 4096;
void lookAt(B const& b, Dump& d) {
    d.r = (long long)b.getUnblockedRows(); d.c = (long long)b.getUnblockedColumns(); d.size = d.r * d.c;
    size_t br = b.getNbRows(), bc = b.getNbColumns();
    if (br > TOP || bc > TOP || br * bc > TOP || d.r < 0 || d.c < 0 || d.r > 4096 || d.c > 4096 || b.getSize() != br * bc) { d.bad = true; d.r = d.c = d.size = 0; d.more = ",\"br\":0,\"bc\":0,\"blocks\":[]"; return; }
    std::string s;
    for (size_t j = 0; j < bc; ++j) for (size_t i = 0; i < br; ++i) {
        Dump x; Y const& y = b(i, j);
        if (y) lookAt(y, x); else x.bad = true;
        if (x.bad) { d.bad = true; x.dyn = ""; x.r = x.c = 0; x.e.clear(); }
        std::vector<long long> hi, lo; split(x.e, hi, lo);
        s += std::string(s.empty() ? "" : ",") + "{\"y\":\"" + x.dyn + "\",\"r\":" + std::to_string(x.r) + ",\"c\":" + std::to_string(x.c) + ",\"hi\":" + numbers(hi) + ",\"lo\":" + numbers(lo) + "}";
    }
    d.more = ",\"br\":" + std::to_string(br) + ",\"bc\":" + std::to_string(bc) + ",\"blocks\":[" + s + "]";
}
// thresholds: double h l, single h l, denominator, then per type the shares for double and for single precision
struct Th { ThresholdSettings s; std::string json; };
static Th thresholds(Tok const& t, size_t p) {
    if (p + 19 > t.size()) bad_script("thresholds");
    auto n = [&](size_t k) { return (long long)num(t[p + k]); };
    double den = (double)n(4);
    auto d = [&](int k) { return (double)n(5 + 2 * k) / den; };
    auto f = [&](int k) { return (double)n(6 + 2 * k) / den; };
    Th r;
    r.s.set_significanceThresholdDoublePrecision(value(n(0), n(1))).set_significanceThresholdSinglePrecision(value(n(2), n(3)));
    r.s.set_occupationThresholdMatrixZeroDoublePrecision(d(0)).set_occupationThresholdMatrixZeroSinglePrecision(f(0));
    r.s.set_occupationThresholdMatrixSparseFloatDoublePrecision(d(1)).set_occupationThresholdMatrixSparseFloatSinglePrecision(f(1));
    r.s.set_occupationThresholdMatrixDenseFloatDoublePrecision(d(2)).set_occupationThresholdMatrixDenseFloatSinglePrecision(f(2));
    r.s.set_occupationThresholdMatrixSparseDoubleDoublePrecision(d(3)).set_occupationThresholdMatrixSparseDoubleSinglePrecision(f(3));
    r.s.set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(d(4)).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(f(4));
    r.s.set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(d(5)).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(f(5));
    r.s.set_occupationThresholdMatrixDenseDoubleDoublePrecision(d(6)).set_occupationThresholdMatrixDenseDoubleSinglePrecision(f(6));
    r.json = ",\"th\":{\"d\":[" + std::to_string(n(0)) + "," + std::to_string(n(1)) + "],\"s\":[" + std::to_string(n(2)) + "," + std::to_string(n(3)) + "],\"den\":" + std::to_string(n(4)) + ",\"occ\":[";
    for (int k = 0; k < 7; ++k) r.json += std::string(k ? "," : "") + "[" + std::to_string(n(5 + 2 * k)) + "," + std::to_string(n(6 + 2 * k)) + "]";
    r.json += "]}";
    return r;
}
template <class M> bool adaptOne(Any& x, Threshold const& th, Any*& a) {
    if (x.tag != Tag<M>::v()) return false;
    Y y = MatrixConverter()(of<M>(x), th);
    a = box([&]() -> Y { return y; });
    return true;
}
static void adaptCmd(Tok const& t) {                 // adapt d a th
    Any& x = slot(t[2]); Th th = thresholds(t, 3); Any* a = nullptr;
    std::string out = guarded([&] {
        Threshold h(th.s);
        if (!(adaptOne<DC>(x, h, a) || adaptOne<FC>(x, h, a) || adaptOne<V>(x, h, a) || adaptOne<W>(x, h, a) || adaptOne<DR>(x, h, a))) bad_script("adapt " + x.tag); });
    if (a) put((int)num(t[1]), a);
    Ev e("adapt"); e.i("d", num(t[1])).i("a", num(t[2])).str("out", out); e.s += th.json; finish(e);
}
static std::vector<size_t> sizes(Tok const& t, size_t& p) {
    std::vector<size_t> r; size_t n = num(t[p++]);
    for (size_t k = 0; k < n; ++k) r.push_back(num(t[p++]));
    return r;
}
static std::vector<long long> wide(std::vector<size_t> const& v) { return std::vector<long long>(v.begin(), v.end()); }
template <class M> bool blockOne(Any& x, std::vector<size_t> const& r, std::vector<size_t> const& c, Threshold const& th, Any*& a) {
    if (x.tag != Tag<M>::v()) return false;
    a = box([&]() -> B { return BlockedMatrixGenerator()(of<M>(x), r, c, th); });
    return true;
}
static void blockCmd(Tok const& t) {                 // block d a nr rows nc columns th
    Any& x = slot(t[2]); size_t p = 3;
    auto r = sizes(t, p), c = sizes(t, p);
    Th th = thresholds(t, p); Any* a = nullptr;
    std::string out = guarded([&] { Threshold h(th.s); if (!(blockOne<DC>(x, r, c, h, a) || blockOne<FC>(x, r, c, h, a))) bad_script("block " + x.tag); });
    if (a) put((int)num(t[1]), a);
    Ev e("block"); e.i("d", num(t[1])).i("a", num(t[2])).list("rows", wide(r)).list("cols", wide(c)).str("out", out); e.s += th.json; finish(e);
}
static void gridCmd(Tok const& t) {                  // grid d how nr rows nc columns slots (column by column)     how c: element by element, l: initializer list
    size_t p = 3; auto r = sizes(t, p), c = sizes(t, p);
    std::vector<long long> from; for (size_t k = 0; k < r.size() * c.size(); ++k) from.push_back(num(t[p + k]));
    auto y = [&](size_t i, size_t j) -> Y const& { return of<Y>(slot(std::to_string(from[j * r.size() + i]))); };
    size_t ur = 0, uc = 0; for (size_t v : r) ur += v; for (size_t v : c) uc += v;
    Any* a = nullptr;
    std::string out = guarded([&] {
        if (t[2] == "l" && r.size() == 1 && c.size() == 1) a = box([&]() -> B { return B{{y(0, 0)}}; });
        else if (t[2] == "l" && r.size() == 1 && c.size() == 2) a = box([&]() -> B { return B{{y(0, 0), y(0, 1)}}; });
        else if (t[2] == "l" && r.size() == 2 && c.size() == 1) a = box([&]() -> B { return B{{y(0, 0)}, {y(1, 0)}}; });
        else if (t[2] == "l" && r.size() == 2 && c.size() == 2) a = box([&]() -> B { return B{{y(0, 0), y(0, 1)}, {y(1, 0), y(1, 1)}}; });
        else { a = box([&]() -> B { return B(r.size(), c.size(), ur, uc); }); B& b = of<B>(*a);
               for (size_t j = 0; j < c.size(); ++j) for (size_t i = 0; i < r.size(); ++i) b(i, j) = y(i, j); } });
    if (a) put((int)num(t[1]), a);
    finish(Ev("grid").i("d", num(t[1])).list("rows", wide(r)).list("cols", wide(c)).list("from", from).str("out", out));
}
static void putCmd(Tok const& t) {                   // put b i j y
    B& b = of<B>(slot(t[1])); b((size_t)num(t[2]), (size_t)num(t[3])) = of<Y>(slot(t[4]));
    finish(Ev("put").i("d", num(t[1])).i("i", num(t[2])).i("j", num(t[3])).i("a", num(t[4])));
}
static void lst(std::string const& k, std::vector<long long> const& v) { extra += ",\"" + k + "\":" + numbers(v); }
static void square(double v, std::vector<long long>& sq, bool& near, std::vector<long long>& low) {
    double s = std::nearbyint(v * v), l = v / LOW, q = l * l;
    sq.push_back(s <= 1e9 ? (long long)s : BAD); near = near && v >= 0 && std::fabs(v * v - s) <= 1e-3;
    low.push_back(q <= 1e9 ? (long long)std::nearbyint(q) : -1);
}
static int reg = [] {
    cmds()["adapt"] = adaptCmd; cmds()["block"] = blockCmd; cmds()["grid"] = gridCmd; cmds()["put"] = putCmd;
    un<B>("conv.DC", [](B const& b, Tok const&) { return box([&]() -> DC { return DC(b); }); });
    un<B>("conv.FC", [](B const& b, Tok const&) { return box([&]() -> FC { return FC(b); }); });
    un<Y>("conv.DC", [](Y const& b, Tok const&) { return box([&]() -> DC { return DC(b); }); });
    bin<B, B>("mul", [](B const& a, B const& b, Tok const&) { return box([&]() -> B { return (a * b).template execute<Native>(); }); });
    bin<B, B>("mul.best", [](B const& a, B const& b, Tok const&) { return box([&]() -> B { return (a * b).template execute<TheBestPolicy>(); }); });
    un<B>("copy", [](B const& m, Tok const&) { return box([&]() -> B { return B(m); }); });
    uns()["move B"] = [](Any& a, Tok const&) -> Any* { Any* r = box([&]() -> B { return B(std::move(of<B>(a))); }); a.gone = true; return r; };
    bins()[key2("cassign", "B", "B")] = [](Any& a, Any& b, Tok const&) -> Any* { of<B>(a) = static_cast<B const&>(of<B>(b)); a.gone = false; return nullptr; };
    bins()[key2("massign", "B", "B")] = [](Any& a, Any& b, Tok const&) -> Any* { of<B>(a) = std::move(of<B>(b)); b.gone = true; a.gone = false; return nullptr; };
    bin<B, B>("swap", [](B& a, B& b, Tok const&) -> Any* { using std::swap; swap(a, b); return nullptr; });
    un<B>("stat", [](B const& b, Tok const&) -> Any* {
        TypeMatrix t = generateTypeMatrix(b); DimensionMatrix d = generateDimensionMatrix(b); NormMatrix n = generateNormMatrix(b);
        auto c = get_type_counting(b);
        lst("shape", {as_int(t.getNbRows()), as_int(t.getNbColumns()), as_int(d.getNbRows()), as_int(d.getNbColumns()), as_int(n.getNbRows()), as_int(n.getNbColumns())});
        std::vector<long long> types, dr, dc, sq, low, counts; bool near = true;
        for (size_t j = 0; j < t.getNbColumns(); ++j) for (size_t i = 0; i < t.getNbRows(); ++i) types.push_back(t(i, j));
        for (size_t j = 0; j < d.getNbColumns(); ++j) for (size_t i = 0; i < d.getNbRows(); ++i) { dr.push_back(as_int(d(i, j).first)); dc.push_back(as_int(d(i, j).second)); }
        for (size_t j = 0; j < n.getNbColumns(); ++j) for (size_t i = 0; i < n.getNbRows(); ++i) square(n(i, j), sq, near, low);
        for (size_t v : c) counts.push_back(as_int(v));
        lst("types", types); lst("dr", dr); lst("dc", dc); lst("sq", sq); lst("low", low); lst("counts", counts);
        extra += std::string(",\"near\":") + (near ? "true" : "false");
        return nullptr; });
    return 0; }();
