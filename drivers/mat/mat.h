// Laboratory of matrices: slots hold matrices of every representation, script lines apply
// operations of the library to them, and after every operation all slots are dumped through
// the public interface. Operands are built element by element, never by a conversion.
#pragma once
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "drv.h"
#include "fault.h"
#include "blaze/util/Memory.h"
using namespace BlasBooster;
typedef Parameter<size_t, RowMajor> PR;
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PV;
typedef Matrix<Dense, double> DC; typedef Matrix<Dense, double, PR> DR; typedef Matrix<Dense, float> FC; typedef Matrix<Dense, float, PR> FR;
typedef Matrix<Sparse, double> SC; typedef Matrix<Sparse, double, PR> SR; typedef Matrix<Sparse, float> GC; typedef Matrix<Sparse, float, PR> GR;
typedef Matrix<Zero> Z; typedef Matrix<Zero, NullType, PR> ZR;
typedef MultipleMatrix<SC, GC> MS; typedef MultipleMatrix<SC, FC> MD; typedef MultipleMatrix<DC, FC> ME; typedef DynamicMatrix Y;
typedef Matrix<Dense, double, PV> V; typedef Matrix<Dense, float, PV> W; typedef Matrix<Dense, int> I; typedef BlockedDenseMatrix B;
template <class M> struct Tag { static const char* v() { return "?"; } };
#define TAG(X) template <> struct Tag<X> { static const char* v() { return #X; } };
TAG(DC) TAG(DR) TAG(FC) TAG(FR) TAG(SC) TAG(SR) TAG(GC) TAG(GR) TAG(Z) TAG(ZR) TAG(MS) TAG(MD) TAG(ME) TAG(Y) TAG(V) TAG(W) TAG(I) TAG(B)

static const double LOW = std::ldexp(1.0, -30);       // unit of the low part of a value
inline double value(long long hi, long long lo) { return (double)hi + (double)lo * LOW; }

// what a slot looks like from outside
struct Dump {
    std::string tag, dyn;
    long long r = 0, c = 0, size = 0;
    bool bad = false;                                 // structure does not describe a matrix
    std::vector<double> e;                            // column by column
    std::vector<long long> off, key;                  // compressed parts
    long long nnz = 0, major = 0;
    bool sparse = false;
    std::string more;                                 // further fields
};
struct Any {
    std::string tag;
    int base = 0; long long r0 = 0, c0 = 0;           // views
    bool gone = false;                                // contents were moved away
    long long rk = 1, ck = 1;                         // repeated that often below and beside itself: only one copy is shown
    virtual ~Any() {}
    virtual void look(Dump& d) = 0;
    virtual std::vector<int> blocks() = 0;            // memory the matrix uses
    virtual long long offset() { return 0; }          // of a view: position of its first element in the memory
};
// what is shown of a repeated matrix
struct Repeat { long long r = 1, c = 1; static Repeat& now() { static Repeat x; return x; } };      // of the operand at hand
inline long long folded(long long x, long long k) { return x == BAD || x % k ? BAD : x / k; }
inline void fold(Dump& d, long long rk, long long ck) {
    if (rk * ck == 1 || d.bad) return;
    if (d.r % rk || d.c % ck || d.size % (rk * ck) || (long long)d.e.size() != d.r * d.c) { d.bad = true; return; }
    long long r = d.r / rk, c = d.c / ck; std::vector<double> e;
    for (long long j = 0; j < c; ++j) for (long long i = 0; i < r; ++i) e.push_back(d.e[j * d.r + i]);
    for (long long j = 0; j < d.c; ++j) for (long long i = 0; i < d.r; ++i) { double x = d.e[j * d.r + i], y = e[(j % c) * r + i % r]; if (!(x == y)) { d.bad = true; return; } }
    d.e = e; d.r = r; d.c = c; d.size /= rk * ck; d.sparse = false;
}
inline int block(void const* p) { return p ? blaze::MemLog::get().owner(p) : 0; }
template <class T, class P> std::vector<int> blocksOf(Matrix<Dense, T, P> const& m) { return {P::isSubMatrix && m.getSize() == 0 ? 0 : block(m.getDataPointer())}; }
template <class T, class P> std::vector<int> blocksOf(Matrix<Sparse, T, P> const& m) { return {block(m.begin().base()), block(m.beginKey().base()), block(m.beginOffset().base())}; }
template <class P> std::vector<int> blocksOf(Matrix<Zero, NullType, P> const&) { return {}; }
template <class A, class C> std::vector<int> blocksOf(MultipleMatrix<A, C> const& m) { auto r = blocksOf(m.getMatrix1()); for (int x : blocksOf(m.getMatrix2())) r.push_back(x); return r; }
inline std::vector<int> blocksOf(Y const& y) {
#define DYN_BLOCKS(M) if (auto p = dynamic_cast<M const*>(y.get())) return blocksOf(*p);
    DYN_BLOCKS(Z) DYN_BLOCKS(GC) DYN_BLOCKS(FC) DYN_BLOCKS(SC) DYN_BLOCKS(MS) DYN_BLOCKS(MD) DYN_BLOCKS(DC)
    return {};
}
template <class M> long long offsetOf(M const&) { return 0; }
template <class T> long long offsetOf(Matrix<Dense, T, PV> const& m) {
    if (m.getSize() == 0) return 0;
    auto& l = blaze::MemLog::get();
    for (auto const& b : l.live) if (b.second.id == block(m.getDataPointer())) return ((char const*)m.getDataPointer() - (char const*)b.first) / (long long)sizeof(T);
    return -1;
}
template <class M> bool shape(M const& m, Dump& d) {
    d.r = (long long)m.getNbRows(); d.c = (long long)m.getNbColumns(); d.size = (long long)m.getSize();
    if (d.r < 0 || d.c < 0 || d.r > 1000000 || d.c > 1000000 || d.r * d.c > 1000000) { d.bad = true; d.e.clear(); return false; }
    if (d.e.empty()) d.e.assign(d.r * d.c, 0.0);
    return (long long)d.e.size() == d.r * d.c ? true : (d.bad = true, false);
}
template <class T, class P> void lookAt(Matrix<Dense, T, P> const& m, Dump& d) {
    if (!shape(m, d)) return;
    if (d.r * d.c > 0 && m.getDataPointer() == nullptr) { d.bad = true; return; }
    for (long long j = 0; j < d.c; ++j) for (long long i = 0; i < d.r; ++i) d.e[j * d.r + i] += (double)m((size_t)i, (size_t)j);
}
template <class T, class P> void lookAt(Matrix<Sparse, T, P> const& m, Dump& d) {
    if (!shape(m, d)) return;
    d.sparse = true;
    bool col = std::is_same<typename P::orientation, ColumnMajor>::value;
    long long minor = col ? d.c : d.r, major = col ? d.r : d.c;
    d.major = major;
    d.off.clear(); d.key.clear();
    long long no = (long long)m.sizeOffset();
    d.nnz = (long long)m.nnz();
    if (no < 0 || no > 1000000 || d.nnz < 0 || d.nnz > 1000000) { d.bad = true; return; }
    for (long long i = 0; i < no; ++i) d.off.push_back(std::min<unsigned long long>(m.beginOffset()[i], 1000000));
    if (no != minor + 1) { if (!(no == 0 && d.r * d.c == 0)) d.bad = true; return; }
    long long last = d.off[no - 1];
    for (long long i = 0; i < std::min(last, d.nnz); ++i) d.key.push_back(std::min<unsigned long long>(m.beginKey()[i], 1000000));
    if (d.off[0] != 0 || last > d.nnz) { d.bad = true; return; }
    for (long long k = 0; k < minor; ++k) {
        if (d.off[k] > d.off[k + 1]) { d.bad = true; return; }
        for (long long p = d.off[k]; p < d.off[k + 1]; ++p) {
            if (d.key[p] >= major) { d.bad = true; return; }
            long long i = col ? d.key[p] : k, j = col ? k : d.key[p];
            d.e[j * d.r + i] += (double)m.begin()[p];
        }
    }
}
template <class P> void lookAt(Matrix<Zero, NullType, P> const& m, Dump& d) { shape(m, d); }
template <class A, class C> void lookAt(MultipleMatrix<A, C> const& m, Dump& d) {
    lookAt(m.getMatrix1(), d); d.sparse = false; lookAt(m.getMatrix2(), d); d.sparse = false;
}
template <class M> bool lookDyn(Y const& y, Dump& d) {
    if (y->getTypeIndex() != M::typeIndex_) return false;
    M const* p = dynamic_cast<M const*>(y.get());
    if (!p) { d.bad = true; return true; }
    d.dyn = Tag<M>::v(); lookAt(*p, d); return true;
}
inline void lookAt(Y const& y, Dump& d) {
    if (!y) { d.bad = true; return; }
    if (!(lookDyn<Z>(y, d) || lookDyn<GC>(y, d) || lookDyn<FC>(y, d) || lookDyn<SC>(y, d) || lookDyn<MS>(y, d) || lookDyn<MD>(y, d) || lookDyn<DC>(y, d))) d.bad = true;
}
template <class M> struct Box : Any {
    M m;
    template <class F> Box(F const& f, int) : m(f()) { tag = Tag<M>::v(); }     // f() is a prvalue: no copy or move
    void look(Dump& d) override { lookAt(m, d); }
    std::vector<int> blocks() override { return blocksOf(m); }
    long long offset() override { return offsetOf(m); }
};
template <class F> Any* box(F const& f) { typedef decltype(f()) M; return new Box<M>(f, 0); }
template <class M> M& of(Any& a) { return static_cast<Box<M>&>(a).m; }

typedef std::function<Any*(Any&, Tok const&)> Un;
typedef std::function<Any*(Any&, Any&, Tok const&)> Bin;
// operations are registered by the translation units linked into a driver
inline std::map<std::string, Bin>& bins() { static auto* m = new std::map<std::string, Bin>; return *m; }
inline std::map<std::string, Un>& uns() { static auto* m = new std::map<std::string, Un>; return *m; }
typedef std::function<void(Tok const&)> Cmd;
inline std::map<std::string, Cmd>& cmds() { static auto* m = new std::map<std::string, Cmd>; return *m; }
inline std::string key2(std::string const& o, std::string const& a, std::string const& b) { return o + " " + a + " " + b; }
template <class A, class C, class F> void bin(std::string const& op, F f) {
    bins()[key2(op, Tag<A>::v(), Tag<C>::v())] = [f](Any& a, Any& b, Tok const& t) -> Any* { return f(of<A>(a), of<C>(b), t); };
}
template <class A, class F> void un(std::string const& op, F f) {
    uns()[op + " " + Tag<A>::v()] = [f](Any& a, Tok const& t) -> Any* { return f(of<A>(a), t); };
}
extern std::map<int, std::unique_ptr<Any>> slots;
extern std::string extra;               // further fields an operation adds to its event
struct Missing {};
extern bool lenient;                    // "? command": nothing happens if the first slot it reads is empty
inline Any& slot(std::string const& t) { auto i = slots.find((int)num(t)); if (i == slots.end()) { if (lenient) throw Missing(); bad_script("no slot " + t); } return *i->second; }
void put(int s, Any* a);
// runs f; "ok", "rejected" (documented error), "memory" (an injected lack of it) or "error"
std::string guarded(std::function<void()> f);
std::string all_slots();
void finish(Ev e);                 // adds the dump of all slots and the state of the memory
void split(std::vector<double> const& e, std::vector<long long>& hi, std::vector<long long>& lo);   // values as hi + lo * LOW
std::string numbers(std::vector<long long> const& v);
