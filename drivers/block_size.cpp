// Block size search (C04).
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "drv.h"
using namespace BlasBooster;
typedef Parameter<size_t, RowMajor> PR;
template <class T> static std::vector<long long> ints(std::vector<T> const& v) { std::vector<long long> r; for (auto x : v) r.push_back(as_int(x)); return r; }
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PV;
struct Exps { size_t r, c; std::vector<std::vector<int>> e; };
// elements are given by their binary exponent; 0 stands for zero or for an element in [0.5, 1)
template <class T> static T element(Exps const& x, size_t i, size_t j) {
    int e = x.e[i][j]; T s = (i + 2 * j) % 3 == 0 ? -1 : 1;
    return e == 0 ? ((i + j) % 2 ? T(0) : T(0.625) * s) : s * T(std::ldexp(0.5 + 0.125 * ((i + j) % 4), e));
}
// the matrix that is searched, and what it was made of
template <class T, class P> struct Held {
    Matrix<Dense, T, P> m; Exps const& x;
    Held(Exps const& x) : m(x.r, x.c), x(x) { for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) m(i, j) = element<T>(x, i, j); }
    bool unchanged() const {
        auto const& c = m; if (c.getNbRows() != x.r || c.getNbColumns() != x.c) return false;
        for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) if (c(i, j) != element<T>(x, i, j)) return false;
        return true;
    }
};
template <class T> struct Held<T, PV> {
    Matrix<Dense, T> base; Matrix<Dense, T, PV> m; Exps const& x;
    static Matrix<Dense, T> around(Exps const& x) { Matrix<Dense, T> b(x.r + 3, x.c + 2, AllFiller<T>(T(48))); for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) b(i + 1, j + 1) = element<T>(x, i, j); return b; }
    Held(Exps const& x) : base(around(x)), m(base, x.r, x.c, 1, 1), x(x) {}
    bool unchanged() const { 
        Matrix<Dense, T> const& b = base; Matrix<Dense, T> const o = around(x);
        return m.getNbRows() == x.r && m.getNbColumns() == x.c && b.getNbRows() == x.r + 3 && b.getNbColumns() == x.c + 2 && std::equal(o.begin(), o.end(), b.begin());
    }
};
static Exps read(Tok const& t, size_t& p) {
    Exps x; size_t r = num(t[p++]), c = num(t[p++]); x.r = r; x.c = c; x.e.assign(r, std::vector<int>(c));
    for (auto& a : x.e) for (auto& b : a) b = num(t[p++]);
    return x;
}
static std::string js(Exps const& x) { std::string s = "["; for (auto& a : x.e) { s += s.size() > 1 ? ",[" : "["; for (size_t j = 0; j < a.size(); ++j) s += (j ? "," : "") + std::to_string(a[j]); s += "]"; } return s + "]"; }
template <class T> static void size_ev(Tok const& t) {
    size_t mn = num(t[2]), mx = num(t[3]); std::vector<T> d; std::vector<long long> dl;
    for (size_t i = 4; i < t.size(); ++i) { d.push_back((T)num(t[i])); dl.push_back(num(t[i])); }
    BlockSizeGenerator g(mn, mx); auto s = g.get_block_size(d), s2 = g.get_block_size(d);
    Ev("size").i("min", mn).i("max", mx).list("detect", dl).list("sizes", s).b("same", s == s2).emit();
}
static Ev& dims(Ev& e, char const* r, char const* c, Exps const& x) { return e.i(r, x.r).i(c, x.c); }
template <class T, class P> static void mat_ev(Tok const& t) {
    size_t mn = num(t[2]), mx = num(t[3]), p = 4; BlockSizeGenerator g(mn, mx);
    Exps x = read(t, p); Held<T, P> A(x);
    if (t[0] == "detect") {
        auto d = g.get_detection_arrays(A.m); auto d2 = g.get_detection_arrays(A.m);
        Ev e("detect"); dims(e, "r", "c", x).raw("e", js(x)).list("row", ints(std::get<0>(d))).list("col", ints(std::get<1>(d))).b("same", d == d2 && A.unchanged()).emit();
    } else if (t[0] == "matrix") {
        auto s = g(A.m); auto s2 = g(A.m);
        Ev e("matrix"); dims(e, "r", "c", x).raw("e", js(x)).i("min", mn).i("max", mx).list("rows", std::get<0>(s)).list("cols", std::get<1>(s)).b("same", s == s2 && A.unchanged()).emit();
    } else {
        Exps y = read(t, p); Held<T, P> B(y);
        decltype(g.matrix_matrix_mult(A.m, B.m)) s, s2; bool err = false;
        try { s = g.matrix_matrix_mult(A.m, B.m); s2 = g.matrix_matrix_mult(A.m, B.m); }
        catch (std::exception const&) { err = true; }
        Ev e(err ? "refused" : "mult"); dims(dims(e, "r", "c", x), "r2", "c2", y).raw("e", js(x)).raw("f", js(y));
        if (!err) e.i("min", mn).i("max", mx).list("rows", std::get<0>(s)).list("inner", std::get<1>(s)).list("cols", std::get<2>(s));
        e.b("same", s == s2 && A.unchanged() && B.unchanged()).emit();
    }
}
int main() {
    return drive([&](Tok const& t) {
        if (t[0] == "ctor") {
            bool err = false; try { BlockSizeGenerator g(num(t[1]), num(t[2])); } catch (std::exception const&) { err = true; }
            Ev("ctor").i("min", num(t[1])).i("max", num(t[2])).b("err", err).emit();
        } else if (t[0] == "size") {
            if (t[1] == "d") size_ev<double>(t); else if (t[1] == "f") size_ev<float>(t); else size_ev<size_t>(t);
        } else if (t[0] == "detect" || t[0] == "matrix" || t[0] == "mult") {
            if (t[1] == "dc") mat_ev<double, Parameter<> >(t); else if (t[1] == "fc") mat_ev<float, Parameter<> >(t);
            else if (t[1] == "dr") mat_ev<double, PR>(t); else if (t[1] == "fr") mat_ev<float, PR>(t);
            else if (t[1] == "dv") mat_ev<double, PV>(t); else if (t[1] == "fv") mat_ev<float, PV>(t); else bad_script(t[1]);
        } else bad_script(t[0]);
    }, [] {});
}
