// Approximate equality of matrices and storages: eq <operand> <operand>
// operand: tag rows columns, then h m l per element column by column
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "drv.h"
using namespace BlasBooster;
typedef Parameter<size_t, RowMajor> PR;
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PV;
struct Operand { std::string t; long long r, c; std::vector<double> e; };
static const double M = std::ldexp(1.0, -14), L = std::ldexp(1.0, -40);
static Operand parse(Tok const& t, size_t& p) {
    if (p + 2 >= t.size()) bad_script("operand");
    Operand o; o.t = t[p]; o.r = num(t[p + 1]); o.c = num(t[p + 2]); p += 3;
    if (o.t == "Z" || o.t == "ZR") return o;
    for (long long k = 0; k < o.r * o.c; ++k, p += 3) { if (p + 2 >= t.size()) bad_script("values"); o.e.push_back((double)num(t[p]) + (double)num(t[p + 1]) * M + (double)num(t[p + 2]) * L); }
    return o;
}
static std::string triple(double v) {
    double h = std::nearbyint(v), m = std::nearbyint((v - h) / M), l = (v - h - m * M) / L;
    // as the scripts write it: l within 50000000
    return "[" + std::to_string(as_int(h)) + "," + std::to_string(as_int(m)) + "," + std::to_string(as_int(l)) + "]";
}
static std::string show(std::string const& t, long long r, long long c, std::vector<std::string> const& e) {
    std::string s = "{\"t\":\"" + t + "\",\"r\":" + std::to_string(r) + ",\"c\":" + std::to_string(c) + ",\"e\":[";
    for (size_t k = 0; k < e.size(); ++k) s += (k ? "," : "") + e[k];
    return s + "]}";
}
// holders: the object and how it looks
template <class T, class P> struct HoldDense {
    typedef Matrix<Dense, T, P> type; type m;
    HoldDense(Operand const& o) : m((size_t)o.r, (size_t)o.c) { for (long long j = 0; j < o.c; ++j) for (long long i = 0; i < o.r; ++i) m((size_t)i, (size_t)j) = (T)o.e[j * o.r + i]; }
    std::vector<double> look(long long& r, long long& c) const { r = m.getNbRows(); c = m.getNbColumns(); std::vector<double> e; for (long long j = 0; j < c; ++j) for (long long i = 0; i < r; ++i) e.push_back((double)m((size_t)i, (size_t)j)); return e; }
};
template <class T> struct HoldView {
    typedef Matrix<Dense, T, PV> type; Matrix<Dense, T> base; type m;
    static Matrix<Dense, T> around(Operand const& o) { Matrix<Dense, T> b((size_t)o.r + 2, (size_t)o.c + 2, AllFiller<T>(77)); for (long long j = 0; j < o.c; ++j) for (long long i = 0; i < o.r; ++i) b((size_t)i + 1, (size_t)j + 1) = (T)o.e[j * o.r + i]; return b; }
    HoldView(Operand const& o) : base(around(o)), m(base, (size_t)o.r, (size_t)o.c, 1, 1) {}
    std::vector<double> look(long long& r, long long& c) const { r = m.getNbRows(); c = m.getNbColumns(); std::vector<double> e; for (long long j = 0; j < c; ++j) for (long long i = 0; i < r; ++i) e.push_back((double)m((size_t)i, (size_t)j)); return e; }
};
template <class P> struct HoldZero {
    typedef Matrix<Zero, NullType, P> type; type m;
    HoldZero(Operand const& o) : m((size_t)o.r, (size_t)o.c) {}
    std::vector<double> look(long long& r, long long& c) const { r = m.getNbRows(); c = m.getNbColumns(); return {}; }
};
template <class S, class T> struct HoldStorage {
    typedef S type; S m;
    HoldStorage(Operand const& o) : m((size_t)o.r) { size_t k = 0; for (auto i = m.begin(); i != m.end(); ++i) *i = (T)o.e[k++]; }
    std::vector<double> look(long long& r, long long& c) const { r = m.size(); c = 1; std::vector<double> e; for (auto i = m.begin(); i != m.end(); ++i) e.push_back((double)*i); return e; }
};
template <class A, class B> auto differs(A const& a, B const& b, int) -> decltype(a.notEqual(b)) { return a.notEqual(b); }
template <class A, class B> bool differs(A const& a, B const& b, long) { return !a.equal(b); }
// scripts write every value with the m they like: the shown values follow the script's where they agree
static std::vector<std::string> shown(std::vector<double> const& e, Operand const& o, Tok const& t, size_t first) {
    std::vector<std::string> r;
    for (size_t k = 0; k < e.size(); ++k)
        r.push_back(k < o.e.size() && o.e[k] == e[k] ? "[" + t[first + 3 * k] + "," + t[first + 3 * k + 1] + "," + t[first + 3 * k + 2] + "]" : triple(e[k]));
    return r;
}
template <class A, class B> void compare(Operand const& oa, Operand const& ob, Tok const& t, size_t fa, size_t fb) {
    A a(oa); B b(ob); auto const& x = a.m; auto const& y = b.m;
    bool eq = false, eqr = false, ne = false, ner = false, sa = false, sb = false; std::string out = "ok";
    try { eq = x.equal(y); eqr = y.equal(x); ne = differs(x, y, 0); ner = differs(y, x, 0); sa = x.equal(x); sb = y.equal(y); } catch (...) { out = "error"; }
    long long ra, ca, rb, cb; auto ea = a.look(ra, ca), eb = b.look(rb, cb);
    std::vector<std::string> given[2];
    for (size_t k = 0; k < oa.e.size(); ++k) given[0].push_back("[" + t[fa + 3 * k] + "," + t[fa + 3 * k + 1] + "," + t[fa + 3 * k + 2] + "]");
    for (size_t k = 0; k < ob.e.size(); ++k) given[1].push_back("[" + t[fb + 3 * k] + "," + t[fb + 3 * k + 1] + "," + t[fb + 3 * k + 2] + "]");
    Ev("eq").raw("a", show(oa.t, oa.r, oa.c, given[0])).raw("b", show(ob.t, ob.r, ob.c, given[1]))
        .raw("shown", "{\"a\":" + show(oa.t, ra, ca, shown(ea, oa, t, fa)) + ",\"b\":" + show(ob.t, rb, cb, shown(eb, ob, t, fb)) + "}")
        .b("eq", eq).b("eqr", eqr).b("ne", ne).b("ner", ner).b("selfa", sa).b("selfb", sb).str("out", out).emit();
}
typedef Parameter<size_t, ColumnMajor> PC;
template <class A> void withDense(Operand const& oa, Operand const& ob, Tok const& t, size_t fa, size_t fb) {
    std::string const& k = ob.t;
    if (k == "DC") compare<A, HoldDense<double, PC>>(oa, ob, t, fa, fb); else if (k == "DR") compare<A, HoldDense<double, PR>>(oa, ob, t, fa, fb);
    else if (k == "FC") compare<A, HoldDense<float, PC>>(oa, ob, t, fa, fb); else if (k == "FR") compare<A, HoldDense<float, PR>>(oa, ob, t, fa, fb);
    else if (k == "I") compare<A, HoldDense<int, PC>>(oa, ob, t, fa, fb); else if (k == "IR") compare<A, HoldDense<int, PR>>(oa, ob, t, fa, fb);
    else if (k == "V") compare<A, HoldView<double>>(oa, ob, t, fa, fb); else if (k == "W") compare<A, HoldView<float>>(oa, ob, t, fa, fb);
    else bad_script("dense with " + k);
}
template <class T> struct St { typedef HoldStorage<Storage<T, true, true, 3>, T> s; typedef HoldStorage<Storage<T, false, true, 3>, T> h; typedef HoldStorage<Storage<T, false, false, 0>, T> f; };
template <class A> void withStorage(Operand const& oa, Operand const& ob, Tok const& t, size_t fa, size_t fb) {
    std::string const& k = ob.t;
    if (k == "sd") compare<A, St<double>::s>(oa, ob, t, fa, fb); else if (k == "hd") compare<A, St<double>::h>(oa, ob, t, fa, fb); else if (k == "fd") compare<A, St<double>::f>(oa, ob, t, fa, fb);
    else if (k == "sf") compare<A, St<float>::s>(oa, ob, t, fa, fb); else if (k == "hf") compare<A, St<float>::h>(oa, ob, t, fa, fb); else if (k == "ff") compare<A, St<float>::f>(oa, ob, t, fa, fb);
    else bad_script("storage with " + k);
}
static void step(Tok const& t) {
    if (t[0] != "eq") bad_script(t[0]);
    size_t p = 1; size_t fa = p + 3; Operand a = parse(t, p); size_t fb = p + 3; Operand b = parse(t, p);
    std::string const& k = a.t;
    if (k == "DC") withDense<HoldDense<double, PC>>(a, b, t, fa, fb); else if (k == "DR") withDense<HoldDense<double, PR>>(a, b, t, fa, fb);
    else if (k == "FC") withDense<HoldDense<float, PC>>(a, b, t, fa, fb); else if (k == "FR") withDense<HoldDense<float, PR>>(a, b, t, fa, fb);
    else if (k == "I") withDense<HoldDense<int, PC>>(a, b, t, fa, fb); else if (k == "IR") withDense<HoldDense<int, PR>>(a, b, t, fa, fb);
    else if (k == "V") withDense<HoldView<double>>(a, b, t, fa, fb); else if (k == "W") withDense<HoldView<float>>(a, b, t, fa, fb);
    else if (k == "Z" || k == "ZR") {
        if (k == "Z" && b.t == "Z") compare<HoldZero<PC>, HoldZero<PC>>(a, b, t, fa, fb); else if (k == "Z") compare<HoldZero<PC>, HoldZero<PR>>(a, b, t, fa, fb);
        else if (b.t == "Z") compare<HoldZero<PR>, HoldZero<PC>>(a, b, t, fa, fb); else compare<HoldZero<PR>, HoldZero<PR>>(a, b, t, fa, fb);
    }
    else if (k == "sd") withStorage<St<double>::s>(a, b, t, fa, fb); else if (k == "hd") withStorage<St<double>::h>(a, b, t, fa, fb); else if (k == "fd") withStorage<St<double>::f>(a, b, t, fa, fb);
    else if (k == "sf") withStorage<St<float>::s>(a, b, t, fa, fb); else if (k == "hf") withStorage<St<float>::h>(a, b, t, fa, fb); else if (k == "ff") withStorage<St<float>::f>(a, b, t, fa, fb);
    else bad_script(k);
}
int main() { return drive(step, [] {}); }
