// life of the objects: copying, moving, swapping, resizing, writing through iterators and pointers, dimensions
#include "mat.h"
static void field(std::string const& k, long long v) { extra += ",\"" + k + "\":" + std::to_string(v); }
static void flag(std::string const& k, bool v) { extra += ",\"" + k + "\":" + (v ? "true" : "false"); }
template <class M> void life() {
    un<M>("copy", [](M const& m, Tok const&) { return box([&]() -> M { return M(m); }); });
    uns()[std::string("move ") + Tag<M>::v()] = [](Any& a, Tok const&) -> Any* {
        Any* r = box([&]() -> M { return M(std::move(of<M>(a))); }); a.gone = true; return r; };
    bin<M, M>("cassign", [](M& a, M const& b, Tok const&) -> Any* { a = b; return nullptr; });
    bins()[key2("massign", Tag<M>::v(), Tag<M>::v())] = [](Any& a, Any& b, Tok const&) -> Any* {
        of<M>(a) = std::move(of<M>(b)); b.gone = true; a.gone = false; return nullptr; };
    auto f = bins()[key2("cassign", Tag<M>::v(), Tag<M>::v())];
    bins()[key2("cassign", Tag<M>::v(), Tag<M>::v())] = [f](Any& a, Any& b, Tok const& t) -> Any* { f(a, b, t); a.gone = false; return nullptr; };
}
template <class M> void swp() { bin<M, M>("swap", [](M& a, M& b, Tok const&) -> Any* { using std::swap; swap(a, b); return nullptr; }); }
template <class A, class C> void dimeq() {
    bin<A, C>("dimeq", [](A const& a, C const& b, Tok const&) -> Any* {
        typedef typename A::dimension DA;
        DA const& x = a; DA const& y = b; bool r = x == y;
        if (r == (x != y)) { flag("res", false); flag("contradiction", true); return nullptr; }
        flag("res", r); return nullptr; });
}
static void told(long long r, long long c, long long size) { Repeat k = Repeat::now(); field("r", folded(r, k.r)); field("c", folded(c, k.c)); field("size", folded(size, k.r * k.c)); }
template <class M> void dims() {
    un<M>("q.dims", [](M const& m, Tok const&) -> Any* {
        told(as_int(m.getNbRows()), as_int(m.getNbColumns()), as_int(m.getSize()));
        bool row = std::is_same<typename M::parameter::orientation, RowMajor>::value; Repeat k = Repeat::now();
        field("major", folded(as_int(m.getMajorDimension()), row ? k.c : k.r)); field("minor", folded(as_int(m.getMinorDimension()), row ? k.r : k.c));
        flag("row", row); return nullptr; });
}
template <class M> void dims0() {
    un<M>("q.dims", [](M const& m, Tok const&) -> Any* {
        told(as_int(m.getNbRows()), as_int(m.getNbColumns()), as_int(m.getSize()));
        field("major", -1); field("minor", -1); flag("row", false); return nullptr; });
}
// ---- resize slot r c mode {hi lo}*       mode f: with a filler (one value), e: element by element
static void listed(Ev& e, std::vector<std::pair<long long, long long>> const& v) {
    std::vector<long long> h, l; for (auto& x : v) { h.push_back(x.first); l.push_back(x.second); }
    e.list("hi", h).list("lo", l);
}
template <class M> bool resizeDense(Any& x, size_t r, size_t c, bool fill, std::vector<std::pair<long long, long long>> const& v) {
    if (x.tag != Tag<M>::v()) return false;
    M& m = of<M>(x); typedef typename M::value_type T;
    if (fill) { m.resize(r, c, AllFiller<T>(v.empty() ? T(0) : (T)value(v[0].first, v[0].second))); return true; }
    m.resize(r, c);
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) m(i, j) = (T)value(v[j * r + i].first, v[j * r + i].second);
    return true;
}
template <class M> bool resizeSparse(Any& x, size_t r, size_t c, std::vector<std::pair<long long, long long>> const& v) {
    if (x.tag != Tag<M>::v()) return false;
    M& m = of<M>(x); typedef typename M::value_type T;
    bool col = std::is_same<typename M::parameter::orientation, ColumnMajor>::value;
    std::vector<char> st; size_t n = 0;
    for (auto& e : v) { st.push_back(e.first || e.second); n += st.back(); }
    if (n == 0) { n = r * c; st.assign(n, 1); m.resize(r, c); } else m.resize(r, c, n);     // without an estimate everything can be stored
    size_t minor = col ? c : r, major = col ? r : c, p = 0;
    auto off = m.beginOffset(); auto key = m.beginKey(); auto val = m.begin();
    for (size_t k = 0; k < minor; ++k) {
        off[k] = p;
        for (size_t q = 0; q < major; ++q) {
            size_t w = col ? k * r + q : q * r + k;
            if (st[w]) { key[p] = q; val[p] = (T)value(v[w].first, v[w].second); ++p; }
        }
    }
    off[minor] = p;
    return true;
}
template <class M> bool resizeZero(Any& x, size_t r, size_t c) { return x.tag == Tag<M>::v() ? (of<M>(x).resize(r, c), true) : false; }
static void resizeCmd(Tok const& t) {
    Any& x = slot(t[1]); size_t r = num(t[2]), c = num(t[3]); bool fill = t[4] == "f";
    std::vector<std::pair<long long, long long>> v;
    for (size_t p = 5; p + 1 < t.size(); p += 2) v.push_back({num(t[p]), num(t[p + 1])});
    if (!fill && v.size() != r * c) bad_script("resize: values");
    std::string out = guarded([&] {
        if (!(resizeDense<DC>(x, r, c, fill, v) || resizeDense<DR>(x, r, c, fill, v) || resizeDense<FC>(x, r, c, fill, v) || resizeDense<FR>(x, r, c, fill, v) || resizeDense<I>(x, r, c, fill, v)
            || (!fill && (resizeSparse<SC>(x, r, c, v) || resizeSparse<SR>(x, r, c, v) || resizeSparse<GC>(x, r, c, v) || resizeSparse<GR>(x, r, c, v)))
            || resizeZero<Z>(x, r, c) || resizeZero<ZR>(x, r, c))) bad_script("resize " + x.tag); });
    if (out == "ok") x.gone = false;
    if (fill) v.assign(r * c, v.empty() ? std::pair<long long, long long>(0, 0) : v[0]);
    Ev e("resize"); e.i("d", num(t[1])).i("a", num(t[1])).i("b", 0).i("r", r).i("c", c).str("out", out); listed(e, v); finish(e);
}
// ---- fill slot how hi lo      how m: member, i: iterators, s: assignment of a scalar
template <class M> bool fillOne(Any& x, std::string const& how, double w) {
    if (x.tag != Tag<M>::v()) return false;
    M& m = of<M>(x); typedef typename M::value_type T;
    if (how == "s") m = (T)w;
    else for (auto i = m.begin(), e = m.end(); i != e; ++i) *i = (T)w;
    return true;
}
template <class M> bool fillMember(Any& x, double w) { return x.tag == Tag<M>::v() ? (of<M>(x).fill((typename M::value_type)w), true) : false; }
static void fillCmd(Tok const& t) {
    Any& x = slot(t[1]); double w = value(num(t[3]), num(t[4]));
    bool ok = t[2] == "m" && (fillMember<DC>(x, w) || fillMember<DR>(x, w) || fillMember<FC>(x, w) || fillMember<FR>(x, w) || fillMember<I>(x, w));
    if (!ok) ok = fillOne<DC>(x, t[2], w) || fillOne<DR>(x, t[2], w) || fillOne<FC>(x, t[2], w) || fillOne<FR>(x, t[2], w) || fillOne<V>(x, t[2], w) || fillOne<W>(x, t[2], w) || fillOne<I>(x, t[2], w);
    if (!ok) bad_script("fill " + x.tag);
    finish(Ev("fill").i("d", num(t[1])).i("hi", num(t[3])).i("lo", num(t[4])));
}
// ---- store slot how k hi lo   element k of the memory; how i: iterator, p: pointer; sparse: stored element k
template <class M> bool storeDense(Any& x, std::string const& how, size_t k, double w) {
    if (x.tag != Tag<M>::v()) return false;
    M& m = of<M>(x); typedef typename M::value_type T;
    if (how == "p" && !M::parameter::isSubMatrix) m.getDataPointer()[k] = (T)w;
    else { auto i = m.begin(); for (size_t n = 0; n < k; ++n) ++i; *i = (T)w; }
    return true;
}
template <class M> bool storeSparse(Any& x, size_t k, double w, long long& i, long long& j, bool& none) {
    if (x.tag != Tag<M>::v()) return false;
    M& m = of<M>(x); M const& cm = m; typedef typename M::value_type T;
    bool col = std::is_same<typename M::parameter::orientation, ColumnMajor>::value;
    size_t minor = col ? cm.getNbColumns() : cm.getNbRows(), n = cm.sizeOffset() ? cm.beginOffset()[minor] : 0;
    if (n == 0) { none = true; return true; }
    size_t p = k % n, l = 0;
    while (cm.beginOffset()[l + 1] <= p) ++l;
    long long key = cm.beginKey()[p];
    i = col ? key : l; j = col ? l : key;
    m.begin()[p] = (T)w;
    return true;
}
static void storeCmd(Tok const& t) {
    Any& x = slot(t[1]); size_t k = num(t[3]); double w = value(num(t[4]), num(t[5]));
    if (storeDense<DC>(x, t[2], k, w) || storeDense<DR>(x, t[2], k, w) || storeDense<FC>(x, t[2], k, w) || storeDense<FR>(x, t[2], k, w) || storeDense<V>(x, t[2], k, w) || storeDense<W>(x, t[2], k, w)) {
        finish(Ev("store").i("d", num(t[1])).i("k", k).i("hi", num(t[4])).i("lo", num(t[5])));
        return;
    }
    long long i = 0, j = 0; bool none = false;
    if (!(storeSparse<SC>(x, k, w, i, j, none) || storeSparse<SR>(x, k, w, i, j, none) || storeSparse<GC>(x, k, w, i, j, none) || storeSparse<GR>(x, k, w, i, j, none))) bad_script("store " + x.tag);
    if (!none) finish(Ev("set").i("d", num(t[1])).i("i", i).i("j", j).i("hi", num(t[4])).i("lo", num(t[5])));
}
static int reg = [] {
    life<DC>(); life<DR>(); life<FC>(); life<FR>(); life<SC>(); life<SR>(); life<GC>(); life<GR>(); life<Z>(); life<ZR>(); life<I>(); life<V>(); life<W>();
    swp<DC>(); swp<DR>(); swp<FC>(); swp<FR>(); swp<SC>(); swp<SR>(); swp<GC>(); swp<GR>(); swp<Z>(); swp<ZR>(); swp<I>(); swp<V>(); swp<W>();
    dims<DC>(); dims<DR>(); dims<FC>(); dims<FR>(); dims<SC>(); dims<SR>(); dims<GC>(); dims<GR>(); dims<Z>(); dims<ZR>(); dims<I>(); dims<V>(); dims<W>();
    dims0<MS>(); dims0<MD>();
    un<Y>("q.dims", [](Y const& m, Tok const&) -> Any* {
        told(as_int(getNbRows(m)), as_int(getNbColumns(m)), as_int(getSize(m)));
        field("major", -1); field("minor", -1); flag("row", false); return nullptr; });
#define DE(A, C) dimeq<A, C>();
    DE(V, V) DE(W, W) DE(V, DC) DE(FC, W) DE(FC, FC) DE(FR, FR) DE(SC, SC) DE(SR, SR) DE(GC, GC) DE(GR, GR) DE(I, I) DE(Z, Z) DE(ZR, ZR)
    DE(DC, DC) DE(DC, FC) DE(DC, SC) DE(DC, Z) DE(DC, V) DE(V, W) DE(SC, GC) DE(Z, DC) DE(DR, DR) DE(DR, SR) DE(SR, ZR) DE(ZR, FR) DE(GC, I) DE(FR, GR)
    cmds()["resize"] = resizeCmd; cmds()["fill"] = fillCmd; cmds()["store"] = storeCmd;
    return 0; }();
