// operations with preconditions that are not in the other parts
#include "mat.h"
// ext slot r c {hi lo}*      dense matrix on memory that belongs to someone else
static std::vector<std::unique_ptr<std::vector<double>>>& lent() { static auto* v = new std::vector<std::unique_ptr<std::vector<double>>>; return *v; }
static void listed(Ev& e, Tok const& t, size_t p) {
    std::vector<long long> h, l; for (; p + 1 < t.size(); p += 2) { h.push_back(num(t[p])); l.push_back(num(t[p + 1])); }
    e.list("hi", h).list("lo", l);
}
static void extCmd(Tok const& t) {
    size_t r = num(t[2]), c = num(t[3]);
    auto mem = std::unique_ptr<std::vector<double>>(new std::vector<double>(r * c + 1));
    for (size_t k = 0; k < r * c; ++k) (*mem)[k] = value(num(t.at(4 + 2 * k)), num(t.at(5 + 2 * k)));
    double* p = mem->data(); lent().push_back(std::move(mem));
    put((int)num(t[1]), box([&] { return DC(r, c, p); }));
    Ev e("ext"); e.i("d", num(t[1])).i("r", r).i("c", c); listed(e, t, 4); finish(e);
}
// diag slot hi lo
template <class M> bool diag(Any& x, double v) { return x.tag == Tag<M>::v() ? (DiagonalFiller<typename M::value_type>((typename M::value_type)v)(of<M>(x)), true) : false; }
static void diagCmd(Tok const& t) {
    Any& x = slot(t[1]); double v = value(num(t[2]), num(t[3]));
    std::string out = guarded([&] { if (!(diag<DC>(x, v) || diag<DR>(x, v) || diag<FC>(x, v) || diag<FR>(x, v) || diag<I>(x, v) || diag<V>(x, v) || diag<W>(x, v))) bad_script("diag " + x.tag); });
    finish(Ev("diag").i("a", num(t[1])).i("hi", num(t[2])).i("lo", num(t[3])).str("out", out));
}
// pair slot tag r1 c1 r2 c2  a sum of two parts, the first full of ones, the second full of twos; preset: given to an existing one
template <class T> std::shared_ptr<T> full(size_t r, size_t c, int v) { Matrix<Dense, typename T::value_type> d(r, c, AllFiller<typename T::value_type>(v)); return std::make_shared<T>(d); }
template <class A, class C> Any* pairOf(size_t r1, size_t c1, size_t r2, size_t c2) { auto a = full<A>(r1, c1, 1); auto b = full<C>(r2, c2, 2); return box([&] { return MultipleMatrix<A, C>(a, b); }); }
template <class A, class C> bool reset(Any& x, size_t r1, size_t c1, size_t r2, size_t c2) {
    typedef MultipleMatrix<A, C> M;
    if (x.tag != Tag<M>::v()) return false;
    of<M>(x).reset(full<A>(r1, c1, 1), full<C>(r2, c2, 2)); return true;
}
static void pairCmd(Tok const& t) {
    size_t r1 = num(t[3]), c1 = num(t[4]), r2 = num(t[5]), c2 = num(t[6]); Any* a = nullptr;
    std::string out = guarded([&] {
        if (t[0] == "preset") { Any& x = slot(t[1]); if (!(reset<SC, GC>(x, r1, c1, r2, c2) || reset<SC, FC>(x, r1, c1, r2, c2) || reset<DC, FC>(x, r1, c1, r2, c2))) bad_script("preset " + x.tag); }
        else if (t[2] == "MS") a = pairOf<SC, GC>(r1, c1, r2, c2); else if (t[2] == "MD") a = pairOf<SC, FC>(r1, c1, r2, c2); else if (t[2] == "ME") a = pairOf<DC, FC>(r1, c1, r2, c2);
        else bad_script("pair " + t[2]); });
    if (a) put((int)num(t[1]), a);
    finish(Ev(t[0]).i("d", num(t[1])).str("t", t[0] == "preset" ? slot(t[1]).tag : t[2]).i("r1", r1).i("c1", c1).i("r2", r2).i("c2", c2).str("out", out));
}
// literal slot tag n1 .. nk     rows with that many elements: 10 * row + column + 1
#define L0(r) std::initializer_list<T>{}
#define L1(r) {T(10 * r + 1)}
#define L2(r) {T(10 * r + 1), T(10 * r + 2)}
#define L3(r) {T(10 * r + 1), T(10 * r + 2), T(10 * r + 3)}
template <class M> Any* literal(std::vector<size_t> const& n) {
    typedef typename M::value_type T; typedef std::initializer_list<std::initializer_list<T>> LL;
    size_t code = 0; for (size_t v : n) { if (v > 3) bad_script("literal"); code = code * 10 + v; }
#define ONE(a) case a: return box([&] { return M(LL{L##a(0)}); });
#define TWO(a, b) case 10##a##b - 1000: return box([&] { return M(LL{L##a(0), L##b(1)}); });
#define THREE(a, b, c) case 1##a##b##c - 1000: return box([&] { return M(LL{L##a(0), L##b(1), L##c(2)}); });
    if (n.size() == 1) switch (code) { ONE(0) ONE(1) ONE(2) ONE(3) }
#define TWOS(a) TWO(a, 0) TWO(a, 1) TWO(a, 2) TWO(a, 3)
    if (n.size() == 2) switch (code) { TWOS(0) TWOS(1) TWOS(2) TWOS(3) }
#define THREES(a, b) THREE(a, b, 0) THREE(a, b, 1) THREE(a, b, 2) THREE(a, b, 3)
#define ALL3(a) THREES(a, 0) THREES(a, 1) THREES(a, 2) THREES(a, 3)
    if (n.size() == 3) switch (code) { ALL3(0) ALL3(1) ALL3(2) ALL3(3) }
    bad_script("literal");
}
static void literalCmd(Tok const& t) {
    std::vector<size_t> n; for (size_t p = 3; p < t.size(); ++p) n.push_back(num(t[p]));
    Any* a = nullptr;
    std::string out = guarded([&] { if (t[2] == "DC") a = literal<DC>(n); else if (t[2] == "DR") a = literal<DR>(n); else if (t[2] == "FC") a = literal<FC>(n); else if (t[2] == "I") a = literal<I>(n); else bad_script("literal " + t[2]); });
    if (a) put((int)num(t[1]), a);
    finish(Ev("literal").i("d", num(t[1])).str("t", t[2]).list("rows", std::vector<long long>(n.begin(), n.end())).str("out", out));
}
static int reg = [] { cmds()["ext"] = extCmd; cmds()["diag"] = diagCmd; cmds()["pair"] = pairCmd; cmds()["preset"] = pairCmd; cmds()["literal"] = literalCmd; return 0; }();
