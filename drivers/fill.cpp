// Matrices are filled and generated.
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/MatrixFactory/MatrixGenerator.h"
#include "drv.h"
#include <limits>
#include <memory>
using namespace BlasBooster;
typedef std::vector<long long> L;
typedef Parameter<size_t, RowMajor> PR;
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PV;
static const long long UNIT = 1000000;
// special numbers have codes of their own
static const long long INF = 3000000, NEG = 3000001, UNDEF = 3000002;
static double special(long long v) { return v == INF ? std::numeric_limits<double>::infinity() : v == NEG ? -std::numeric_limits<double>::infinity() : v == UNDEF ? std::numeric_limits<double>::quiet_NaN() : (double)v; }
template <class T> static long long code(T x) {
    if (std::isnan((double)x)) return UNDEF; if (std::isinf((double)x)) return x > 0 ? INF : NEG;
    if (std::is_integral<T>::value || x == std::floor(x)) return as_int(x);
    double k = std::round(1.0 / (double)x);
    if (k > 1 && k < 1000 && x == (T)((T)1 / (T)k)) return UNIT + (long long)k;
    return BAD;
}
static std::string show(std::string const& kind, size_t r, size_t c, L const& e, bool whole) {
    Ev v("m"); v.str("kind", kind).i("r", as_int(r)).i("c", as_int(c)).list("e", e).b("whole", whole); return v.s + "}";
}
template <class T, class P> static std::string dump(std::string const& kind, Matrix<Dense, T, P> const& m) {
    size_t r = m.getNbRows(), c = m.getNbColumns(); L e; bool whole = (size_t)(m.end() - m.begin()) == r * c && r < 1000 && c < 1000;
    if (whole) for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) e.push_back(code(m(i, j)));
    return show(kind, r, c, e, whole);
}
template <class T, class P> static std::string dump(std::string const& kind, Matrix<Sparse, T, P> const& m) {
    bool row = std::is_same<typename P::orientation, RowMajor>::value;
    size_t r = m.getNbRows(), c = m.getNbColumns(), n = m.end() - m.begin(), outer = row ? r : c, inner = row ? c : r;
    L e(r * c, 0), seen(r * c, 0); bool whole = n == r * c && (size_t)(m.endKey() - m.beginKey()) == n && (size_t)(m.endOffset() - m.beginOffset()) == outer + 1;
    if (whole) {
        auto off = m.beginOffset(); whole = *off == 0 && off[outer] == n;
        for (size_t o = 0; whole && o < outer; ++o) {
            if (off[o] > off[o + 1] || off[o + 1] > n) { whole = false; break; }
            for (size_t k = off[o]; k < off[o + 1]; ++k) {
                size_t key = m.beginKey()[k]; if (key >= inner || (k > off[o] && m.beginKey()[k - 1] >= key)) { whole = false; break; }
                size_t i = row ? o : key, j = row ? key : o; e[i + j * r] = code(m.begin()[k]); ++seen[i + j * r];
            }
        }
        for (auto s : seen) if (s != 1) whole = false;
    }
    return show(kind, r, c, e, whole);
}
// some elements of a large matrix: row, column, element (-1: not found there)
typedef std::vector<std::pair<size_t, size_t>> At;
template <class T> static long long wide(T x) {
    if (x == 0 || std::fabs((double)x) >= 1) return as_int(x);
    double k = std::round(1.0 / (double)x); return k > 1 && k < 1000000 && x == (T)((T)1 / (T)k) ? UNIT + (long long)k : BAD;
}
template <class T, class P> static L sample(Matrix<Dense, T, P> const& m, At const& at) {
    L v; for (auto& p : at) v.push_back(wide(m(p.first, p.second))); return v;
}
template <class T, class P> static L sample(Matrix<Sparse, T, P> const& m, At const& at) {
    bool row = std::is_same<typename P::orientation, RowMajor>::value; L v;
    for (auto& p : at) { size_t o = row ? p.first : p.second, k = m.beginOffset()[o] + (row ? p.second : p.first); v.push_back(k < (size_t)m.beginOffset()[o + 1] && (size_t)m.beginKey()[k] == (row ? p.second : p.first) ? wide(m.begin()[k]) : BAD); }
    return v;
}
struct F { std::string f; long long v; };
// applies g to the filler
template <class G> static void sparseFiller(F const& f, bool narrow, G g) {
    if (f.f == "all") { if (narrow) g(AllFiller<float>((float)special(f.v))); else g(AllFiller<double>(special(f.v))); }
    else if (f.f == "increasing") g(ContinuousNumberFiller());
    else bad_script(f.f);
}
template <class T, class G> static void denseFiller(F const& f, bool narrow, G g) {
    if (f.f == "diagonal") { if (narrow) g(DiagonalFiller<float>((float)special(f.v))); else g(DiagonalFiller<double>(special(f.v))); }
    else if (f.f == "hilbert") g(HilbertFiller());
    else sparseFiller(f, narrow, g);
}
struct Slot {
    virtual ~Slot() {} virtual std::string dump() = 0; virtual L some(At const&, size_t& r, size_t& c, size_t& n) = 0; virtual void fill(F const&, bool) = 0;
    virtual void resize(size_t, size_t, F const&, bool) { bad_script("resize"); } virtual void part(size_t, size_t, size_t, size_t, F const&, bool) { bad_script("part"); }
};
template <class T, class P> struct DenseSlot : Slot {
    typedef Matrix<Dense, T, P> M; std::string kind; std::unique_ptr<M> m;
    DenseSlot(std::string const& k, size_t r, size_t c, F const& f, bool narrow) : kind(k) { denseFiller<T>(f, narrow, [&](auto const& g) { m.reset(new M(r, c, g)); }); }
    std::string dump() override { return ::dump(kind, *m); }
    L some(At const& at, size_t& r, size_t& c, size_t& n) override { r = m->getNbRows(); c = m->getNbColumns(); M const& x = *m; n = x.end() - x.begin(); return sample(x, at); }
    void fill(F const& f, bool n) override { denseFiller<T>(f, n, [&](auto const& g) { g(*m); }); }
    void resize(size_t r, size_t c, F const& f, bool n) override { denseFiller<T>(f, n, [&](auto const& g) { m->resize(r, c, g); }); }
    void part(size_t r0, size_t c0, size_t r, size_t c, F const& f, bool n) override { part(*m, r0, c0, r, c, f, n); }
    template <class U> static void part(Matrix<Dense, U>& x, size_t r0, size_t c0, size_t r, size_t c, F const& f, bool n) { Matrix<Dense, U, PV> w(x, r, c, r0, c0); denseFiller<U>(f, n, [&](auto const& g) { g(w); }); }
    template <class X> static void part(X&, size_t, size_t, size_t, size_t, F const&, bool) { bad_script("part"); }
};
template <class T, class P> struct SparseSlot : Slot {
    typedef Matrix<Sparse, T, P> M; std::string kind; std::unique_ptr<M> m;
    SparseSlot(std::string const& k, size_t r, size_t c, F const& f, bool narrow, size_t room) : kind(k) { if (f.f != "increasing") bad_script("positions"); sparseFiller(f, narrow, [&](auto const& g) { m.reset(new M(r, c, room, g)); }); }
    std::string dump() override { return ::dump(kind, *m); }
    L some(At const& at, size_t& r, size_t& c, size_t& n) override { r = m->getNbRows(); c = m->getNbColumns(); M const& x = *m; n = x.end() - x.begin(); return sample(x, at); }
    void fill(F const& f, bool n) override { sparseFiller(f, n, [&](auto const& g) { g(*m); }); }
};
static Slot* make(std::string const& k, size_t r, size_t c, F const& f, bool n, size_t room) {
    typedef Parameter<> PC;
    if (k == "DC") return new DenseSlot<double, PC>(k, r, c, f, n); if (k == "DR") return new DenseSlot<double, PR>(k, r, c, f, n);
    if (k == "FC") return new DenseSlot<float, PC>(k, r, c, f, n); if (k == "FR") return new DenseSlot<float, PR>(k, r, c, f, n);
    if (k == "IC") return new DenseSlot<int, PC>(k, r, c, f, n); if (k == "IR") return new DenseSlot<int, PR>(k, r, c, f, n);
    if (k == "SC") return new SparseSlot<double, PC>(k, r, c, f, n, room); if (k == "SR") return new SparseSlot<double, PR>(k, r, c, f, n, room);
    if (k == "GC") return new SparseSlot<float, PC>(k, r, c, f, n, room); if (k == "GR") return new SparseSlot<float, PR>(k, r, c, f, n, room);
    bad_script(k);
}
static std::map<std::string, std::unique_ptr<Slot>> slots; static std::map<double, long long> ids; static std::map<std::string, std::unique_ptr<MatrixGenerator>> kept;
static Slot& slot(std::string const& s) { auto i = slots.find(s); if (i == slots.end()) bad_script("slot"); return *i->second; }
static void done(Ev e) {
    std::string s; for (auto& x : slots) s += (s.empty() ? "" : ",") + ("{\"s\":" + Ev::quote(x.first) + ",\"m\":" + x.second->dump() + "}");
    auto& m = blaze::MemLog::get(); e.raw("slots", "[" + s + "]").b("sound", m.errors == 0 && m.allSound() && m.graveSound()).emit();
}
template <class G> static std::string guard(G g) { try { g(); return ""; } catch (std::exception const&) { return "refused"; } }
static void clear() { slots.clear(); ids.clear(); kept.clear(); blaze::MemLog::get().clear(); }
int main() {
    return drive([&](Tok const& t) {
        std::string const& o = t[0];
        if (o == "new" || o == "resize") {    // slot kind rows columns filler value, element type of the filler, elements of a sparse matrix (all)
            F f{t[5], num(t[6])}; size_t r = num(t[3]), c = num(t[4]); bool n = t[7] == "f"; size_t room = t.size() > 8 ? num(t[8]) : 0; Ev e(o); e.str("s", t[1]).str("kind", t[2]).i("r", r).i("c", c).i("room", room ? room : r * c).str("f", f.f).i("v", f.v);
            e.str("err", guard([&] { if (o == "new") { std::unique_ptr<Slot> x(make(t[2], r, c, f, n, room)); slots[t[1]] = std::move(x); } else slot(t[1]).resize(r, c, f, n); })); done(e);
        } else if (o == "large") {            // kind rows columns filler value type, row column ... : only some elements are looked at
            F f{t[4], num(t[5])}; size_t r = num(t[2]), c = num(t[3]); At at; for (size_t k = 7; k + 1 < t.size(); k += 2) at.emplace_back(num(t[k]), num(t[k + 1]));
            size_t gr = 0, gc = 0, n = 0; L v; std::string err = guard([&] { std::unique_ptr<Slot> x(make(t[1], r, c, f, t[6] == "f", r * c)); v = x->some(at, gr, gc, n); });
            std::string q; for (size_t k = 0; k < v.size(); ++k) q += (k ? ",{" : "{") + std::string("\"i\":") + std::to_string(at[k].first) + ",\"j\":" + std::to_string(at[k].second) + ",\"x\":" + std::to_string(v[k]) + "}";
            done(Ev(o).str("kind", t[1]).i("r", r).i("c", c).i("gr", as_int(gr)).i("gc", as_int(gc)).i("n", as_int(n)).str("f", f.f).i("v", f.v).str("err", err).i("asked", (long long)at.size()).raw("some", "[" + q + "]"));
        } else if (o == "fill") {             // slot filler value type
            F f{t[2], num(t[3])}; Ev e(o); e.str("s", t[1]).str("f", f.f).i("v", f.v).str("err", guard([&] { slot(t[1]).fill(f, t[4] == "f"); })); done(e);
        } else if (o == "part") {             // slot r0 c0 rows columns filler value type
            F f{t[6], num(t[7])}; Ev e(o); e.str("s", t[1]).i("r0", num(t[2])).i("c0", num(t[3])).i("r", num(t[4])).i("c", num(t[5])).str("f", f.f).i("v", f.v);
            e.str("err", guard([&] { slot(t[1]).part(num(t[2]), num(t[3]), num(t[4]), num(t[5]), f, t[8] == "f"); })); done(e);
        } else if (o == "generate") {         // rows columns seed lo hi (thousandths) object: a kept generator is asked again
            size_t r = num(t[1]), c = num(t[2]); std::string key = t[1] + " " + t[2] + " " + t[3] + " " + t[4] + " " + t[5];
            MatrixGenerator::Settings s; s.set_seed((unsigned)num(t[3])).set_minValue(num(t[4]) / 1000.0).set_maxValue(num(t[5]) / 1000.0);
            std::unique_ptr<MatrixGenerator> own; MatrixGenerator* g;
            if (t[6] == "kept") { auto& p = kept[key]; if (!p) p.reset(new MatrixGenerator(r, c, s)); g = p.get(); } else { own.reset(new MatrixGenerator(r, c, s)); g = own.get(); }
            MatrixFactory const& factory = *g; Matrix<Dense, double> m = factory(); std::string x;
            if (m.getNbRows() * m.getNbColumns() < 100000) for (size_t j = 0; j < m.getNbColumns(); ++j) for (size_t i = 0; i < m.getNbRows(); ++i) {
                double v = m(i, j); auto id = ids.emplace(v, (long long)ids.size()); double ex = v == 0 || !std::isfinite(v) ? 99e6 : -1000 * std::log10(std::fabs(v));
                x += (x.empty() ? "{" : ",{") + std::string("\"s\":") + (v > 0 ? "1" : v < 0 ? "-1" : "0") + ",\"e\":" + std::to_string((long long)std::floor(ex + .5)) + ",\"id\":" + std::to_string(id.first->second) + "}";
            }
            done(Ev(o).i("r", as_int(m.getNbRows())).i("c", as_int(m.getNbColumns())).i("gr", as_int(factory.getNbRows())).i("gc", as_int(factory.getNbColumns())).i("seed", num(t[3])).i("lo", num(t[4])).i("hi", num(t[5])).raw("x", "[" + x + "]"));
        } else bad_script(o);
    }, clear);
}
