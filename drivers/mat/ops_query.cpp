// queries: norms, occupation, comparisons with a threshold
#include "mat.h"
typedef ExclusiveBound X_; typedef InclusiveBound I_;
static void field(std::string const& k, long long v) { extra += ",\"" + k + "\":" + std::to_string(v); }
static void flag(std::string const& k, bool v) { extra += ",\"" + k + "\":" + (v ? "true" : "false"); }
static double copies() { return (double)(Repeat::now().r * Repeat::now().c); }     // of a repeated matrix one copy counts
// a sum of elements: integer part and multiple of the low unit
static Any* parts(double v) {
    double h = std::nearbyint(v), l = (v - h) / LOW;
    bool ok = std::fabs(h) <= 1e9;
    field("hi", ok ? (long long)h : BAD); field("lo", ok && l == std::nearbyint(l) ? (long long)l : BAD);
    return nullptr;
}
// a Euclidean norm: its square as millions and rest
static Any* square(double v) {
    double s = std::nearbyint(v * v);
    bool ok = s <= 1e15;
    field("mill", ok ? (long long)s / 1000000 : BAD); field("sq", ok ? (long long)s % 1000000 : BAD);
    flag("near", std::fabs(v * v - s) <= (s <= 1e9 ? 1e-3 : .1));
    double l = v / LOW, q = l * l;
    field("low", q <= 1e9 ? (long long)std::nearbyint(q) : BAD); flag("nonneg", v >= 0);
    return nullptr;
}
template <class F> auto filtered(Tok const& t, F f) {
    double lo = value(num(t[5]), num(t[6])), up = value(num(t[7]), num(t[8]));
    if (t[4] == "x") return f(AbsoluteValueRangeChecker<double>(lo));
    if (t[4] == "xf") return f(AbsoluteValueRangeChecker<float>((float)lo));
    if (t[4] == "xi") return f(AbsoluteValueRangeChecker<double, X_, I_>(lo, up));
    if (t[4] == "xx") return f(AbsoluteValueRangeChecker<double, X_, X_>(lo, up));
    if (t[4] == "ii") return f(AbsoluteValueRangeChecker<double, I_, I_>(lo, up));
    bad_script("filter " + t[4]);
}
static void described(Tok const& t) {
    std::vector<long long> lo{num(t[5]), num(t[6])}, up{-1, 0};
    if (t[4] != "x" && t[4] != "xf") up = {num(t[7]), num(t[8])};
    Ev e(""); e.s = ""; e.str("kind", t[4]).list("low", lo).list("up", up);
    extra += e.s;
}
template <class M> void plain() {      // free functions
    un<M>("q.norm1", [](M const& m, Tok const&) { return parts(norm<NormOne>(m) / copies()); });
    un<M>("q.normmax", [](M const& m, Tok const&) { return parts(norm<NormMax>(m)); });
    un<M>("q.norm2", [](M const& m, Tok const&) { return square(norm<NormTwo>(m) / std::sqrt(copies())); });
}
template <class M> void own() {        // members
    un<M>("q.getnorm", [](M const& m, Tok const&) { return square(m.getNorm() / std::sqrt(copies())); });
    un<M>("q.larger", [](M const& m, Tok const& t) -> Any* { field("k", num(t[4])); flag("res", m.isNormLargerThan((double)num(t[4]))); return nullptr; });
}
template <class M> void smaller() {
    un<M>("q.smaller", [](M const& m, Tok const& t) -> Any* { field("k", num(t[4])); flag("res", m.isNormSmallerThan((double)num(t[4]))); return nullptr; });
}
template <class M> void occ() {
    un<M>("q.nsig", [](M const& m, Tok const& t) -> Any* {
        described(t); field("cnt", folded(as_int(filtered(t, [&](auto const& f) { return m.getNbOfSignificantElements(f); })), (long long)copies())); return nullptr; });
    un<M>("q.occ", [](M const& m, Tok const& t) -> Any* {
        described(t);
        double o = filtered(t, [&](auto const& f) { return m.getOccupation(f); }), n = o * ((double)m.getSize() / copies()), c = std::nearbyint(n);
        bool ok = std::fabs(n - c) < 1e-6;     // false for a quotient by zero
        field("cnt", ok ? as_int(c) : BAD); return nullptr; });
    un<M>("q.occl", [](M const& m, Tok const& t) -> Any* {
        described(t); double v = (num(t[9]) + .5) / ((double)m.getSize() / copies());
        field("k", num(t[9])); flag("res", filtered(t, [&](auto const& f) { return m.isOccupationLargerThan(v, f); })); return nullptr; });
    un<M>("q.occs", [](M const& m, Tok const& t) -> Any* {
        described(t); double v = (num(t[9]) + .5) / ((double)m.getSize() / copies());
        field("k", num(t[9])); flag("res", filtered(t, [&](auto const& f) { return m.isOccupationSmallerThan(v, f); })); return nullptr; });
}
// norms of an integer matrix over the whole range of the elements: bignorm r c (millions rest)...
static std::vector<long long> mills(double v) {
    double s = std::nearbyint(v);
    if (!(s >= 0 && s <= 1e15)) return {BAD, BAD};
    return {(long long)s / 1000000, (long long)s % 1000000};
}
static void bigCmd(Tok const& t) {
    size_t r = (size_t)num(t[1]), c = (size_t)num(t[2]);
    I m(r, c);
    std::vector<long long> ms, ts;
    for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) {
        ms.push_back(num(t[3 + 2 * (j * r + i)])); ts.push_back(num(t[4 + 2 * (j * r + i)]));
        m(i, j) = (int)(ms.back() * 1000000 + ts.back());
    }
    std::vector<long long> one, max, two, get;
    std::string out = guarded([&] { one = mills(norm<NormOne>(m)); max = mills(norm<NormMax>(m)); two = mills(norm<NormTwo>(m)); get = mills(m.getNorm()); });
    Ev e("bignorm"); e.str("out", out).list("m", ms).list("t", ts);
    if (out == "ok") e.list("one", one).list("max", max).list("two", two).list("get", get);
    finish(e);
}
template <class M> void all() { plain<M>(); own<M>(); smaller<M>(); occ<M>(); }
static int reg = [] {
    cmds()["bignorm"] = bigCmd;
    all<DC>(); all<DR>(); all<FC>(); all<FR>(); all<SC>(); all<SR>(); all<GC>(); all<GR>(); all<V>(); all<W>(); all<I>();
    plain<Z>(); own<Z>(); smaller<Z>(); plain<ZR>(); own<ZR>(); smaller<ZR>();
    plain<MS>(); own<MS>(); plain<MD>(); own<MD>();
    plain<Y>();
    un<Y>("q.getnorm", [](Y const& m, Tok const&) { return square(getNorm(m)); });
    un<Y>("q.larger", [](Y const& m, Tok const& t) -> Any* { field("k", num(t[4])); flag("res", isNormLargerThan(m, (double)num(t[4]))); return nullptr; });
    return 0; }();
