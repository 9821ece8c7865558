// Matrices are printed as text and rendered as images.
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include <fstream>
#include <iomanip>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/PatternGenerator.h"
#include "drv.h"
#include "xpm.h"
#include <memory>
using namespace BlasBooster;
typedef std::vector<long long> L;
typedef Parameter<size_t, RowMajor> PR;
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PV;
typedef Matrix<Dense, double> DC; typedef Matrix<Dense, double, PR> DR; typedef Matrix<Dense, float> FC; typedef Matrix<Dense, float, PR> FR;
typedef Matrix<Dense, int> IC; typedef Matrix<Dense, int, PR> IR; typedef Matrix<Dense, double, PV> VW;
typedef Matrix<Sparse, double> SC; typedef Matrix<Sparse, double, PR> SR; typedef Matrix<Sparse, float> GC; typedef Matrix<Sparse, float, PR> GR; typedef Matrix<Zero> ZM;
typedef MultipleMatrix<SC, GC> MS; typedef MultipleMatrix<SC, FC> MD;
static std::string dir;
static std::string part(std::string const& k, size_t r, size_t c, L const& e) { Ev v("p"); v.str("k", k).i("r", r).i("c", c).list("e", e); return v.s + "}"; }
static std::vector<std::string> seen;       // names of the parts
struct Settings { PatternGenerator::Settings s; };
struct Slot {
    std::vector<std::string> names; virtual ~Slot() {}
    virtual void print(std::ostream&) = 0; virtual void set(size_t, size_t, long long) { bad_script("set"); }
    virtual void pattern(PatternGenerator const&, std::string const&) { bad_script("pattern"); }
};
template <class M> static M dense(size_t r, size_t c, L const& e) { M m(r, c); for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) m(i, j) = (typename M::value_type)(e[i + j * r] / 4.0); return m; }
template <class M> struct DenseSlot : Slot {
    M m; size_t r; DenseSlot(size_t r, size_t c, L const& e) : m(dense<M>(r, c, e)), r(r) { names = {m.name()}; }
    void print(std::ostream& s) override { s << m; }
    void set(size_t, size_t p, long long v) override { m(p % r, p / r) = (typename M::value_type)(v / 4.0); }
    void pattern(PatternGenerator const& g, std::string const& f) override { g(m, filesystem::path(f)); }
};
struct ViewSlot : Slot {
    DC base; VW m; size_t r; ViewSlot(size_t r, size_t c, L const& e) : base(r + 2, c + 1, AllFiller<double>(77.0)), m(base, r, c, 1, 1), r(r) { for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) m(i, j) = e[i + j * r] / 4.0; names = {m.name()}; }
    void print(std::ostream& s) override { s << m; }
    void set(size_t, size_t p, long long v) override { base(p % r + 1, p / r + 1) = v / 4.0; }
    void pattern(PatternGenerator const& g, std::string const& f) override { g(m, filesystem::path(f)); }
};
template <class M> struct OtherSlot : Slot {
    M m; OtherSlot(M const& x, std::vector<std::string> n) : m(x) { names = n; }
    void print(std::ostream& s) override { s << m; }
};
static std::vector<std::string> namesOf(ZM const& m) { return {m.name()}; }
template <class M, class T, class P> static std::vector<std::string> namesOf(Matrix<M, T, P> const& m) { return {m.name()}; }
template <class A, class B> static std::vector<std::string> namesOf(MultipleMatrix<A, B> const& m) { return {m.getMatrix1().name(), m.getMatrix2().name()}; }
template <class M> static Slot* other(bool dyn, M const& m) { if (dyn) return new OtherSlot<DynamicMatrix>(DynamicMatrix(new M(m)), namesOf(m)); return new OtherSlot<M>(m, namesOf(m)); }
template <class M> static Slot* plain(bool dyn, M const& m) { if (dyn) bad_script("dynamic"); return new OtherSlot<M>(m, namesOf(m)); }
template <class M> static Slot* sparse(bool dyn, size_t r, size_t c, L const& e) { typedef Matrix<Dense, typename M::value_type, typename M::parameter> D; return dyn ? other(dyn, M(dense<D>(r, c, e))) : plain(false, M(dense<D>(r, c, e))); }
static std::map<std::string, std::unique_ptr<Slot>> slots; static std::map<std::string, std::ostringstream> streams;
static Slot& slot(std::string const& s) { auto i = slots.find(s); if (i == slots.end()) bad_script("slot"); return *i->second; }
template <class F> static std::string guard(F f) { try { f(); return ""; } catch (std::exception const&) { return "refused"; } }
static void done(Ev e) { auto& m = blaze::MemLog::get(); e.b("sound", m.errors == 0 && m.allSound() && m.graveSound()).emit(); }
static long long quarters(double v) { return as_int(v * 4); }
static std::string line(std::string const& t, L const& n, L const& at) { Ev v("l"); v.str("t", t).list("n", n).list("at", at); return v.s + "}"; }
// numbers after a label until something else follows; that is returned
static std::string numbers(std::string const& s, L& n, bool quarter) {
    std::istringstream is(s); std::string x;
    while (is >> x) { char* end; double d = std::strtod(x.c_str(), &end); if (*end || !(std::isdigit(x[0]) || x[0] == '-')) { std::string rest; std::getline(is, rest); return x + rest; } n.push_back(quarter ? quarters(d) : as_int(d)); }
    return "";
}
static std::string lines(std::string const& text) {
    std::string out; auto add = [&](std::string const& l) { out += (out.empty() ? "" : ",") + l; };
    std::istringstream is(text); std::string s;
    while (std::getline(is, s)) {
        static const struct { const char* label; bool quarter; } labels[] = {{"Dimension", false}, {"Size", false}, {"Value array", true}, {"Key array", false}, {"Offset array", false}};
        bool known = false;
        for (;;) {
            std::string rest; bool hit = false;
            for (auto& l : labels) { std::string p = std::string(l.label) + " = "; if (s.compare(0, p.size(), p) == 0 || s + " " == p) {
                L n; std::string body = s.size() > p.size() ? s.substr(p.size()) : "";
                if (std::string(l.label) == "Dimension") { size_t x = body.find(" x "); if (x == std::string::npos) { n = {BAD}; } else { n = {as_int(std::strtod(body.c_str(), nullptr)), as_int(std::strtod(body.c_str() + x + 3, nullptr))}; } }
                else rest = numbers(body, n, l.quarter);
                add(line(l.label, n, {})); hit = known = true; break; } }
            if (!hit) break;
            if (rest.empty()) break;
            s = rest; known = false;
        }
        if (known) continue;
        if (s.compare(0, 20, "SparseMatrix (Size =") == 0) { char* end; double d = std::strtod(s.c_str() + 20, &end); add(std::string(end) == ") too large for printing." ? line("SparseMatrix too large", {as_int(d)}, {}) : line(s, {}, {})); continue; }
        size_t f = s.find_first_not_of(" \t");
        if (f == std::string::npos) { add(line("", {}, {})); continue; }
        if (!(std::isdigit(s[f]) || s[f] == '-')) { add(line(s, {}, {})); continue; }
        L n, at; size_t i = 0; bool good = true;
        while (i < s.size()) { if (s[i] == ' ') { ++i; continue; } size_t e = s.find(' ', i); if (e == std::string::npos) e = s.size(); std::string x = s.substr(i, e - i); char* end; double d = std::strtod(x.c_str(), &end); if (*end) good = false; n.push_back(quarters(d)); at.push_back(e); i = e; }
        add(good ? line("", n, at) : line(s, n, at));
    }
    return "[" + out + "]";
}
static void clear() { slots.clear(); streams.clear(); blaze::MemLog::get().clear(); if (!dir.empty()) { ::unlink((dir + "/p.xpm").c_str()); ::rmdir(dir.c_str()); dir.clear(); } }
int main() {
    int rc = drive([&](Tok const& t) {
        if (dir.empty()) { char d[] = "render-XXXXXX"; if (!mkdtemp(d)) bad_script("mkdtemp"); dir = d; }
        std::string const& o = t[0];
        if (o == "make") {     // slot kind rows columns values (quarters)
            std::string k = t[2]; bool dyn = k.compare(0, 2, "Y.") == 0; if (dyn) k = k.substr(2);
            size_t r = num(t[3]), c = num(t[4]); L e; for (size_t i = 5; i < t.size(); ++i) e.push_back(num(t[i]));
            L a, b; for (size_t i = 0; i < e.size(); ++i) (i < r * c ? a : b).push_back(e[i]);
            if (k != "N" && k != "Z" && (a.size() != r * c || b.size() != (k[0] == 'M' ? r * c : 0))) bad_script("values");
            Slot* s = nullptr; std::vector<std::string> ks = {k};
            if (k == "DC" && !dyn) s = new DenseSlot<DC>(r, c, a); else if (k == "FC" && !dyn) s = new DenseSlot<FC>(r, c, a);
            else if (k == "DR") s = new DenseSlot<DR>(r, c, a); else if (k == "FR") s = new DenseSlot<FR>(r, c, a); else if (k == "IC") s = new DenseSlot<IC>(r, c, a); else if (k == "IR") s = new DenseSlot<IR>(r, c, a);
            else if (k == "V") s = new ViewSlot(r, c, a);
            else if (k == "DC") s = other(true, dense<DC>(r, c, a)); else if (k == "FC") s = other(true, dense<FC>(r, c, a));
            else if (k == "SC") s = other(dyn, SC(dense<DC>(r, c, a))); else if (k == "GC") s = other(dyn, GC(dense<FC>(r, c, a)));
            else if (k == "SR") s = plain(dyn, SR(dense<DR>(r, c, a))); else if (k == "GR") s = plain(dyn, GR(dense<FR>(r, c, a)));
            else if (k == "Z") s = other(dyn, ZM(r, c));
            else if (k == "MS") { s = other(dyn, MS(std::make_shared<SC>(dense<DC>(r, c, a)), std::make_shared<GC>(dense<FC>(r, c, b)))); ks = {"SC", "GC"}; }
            else if (k == "MD") { s = other(dyn, MD(std::make_shared<SC>(dense<DC>(r, c, a)), std::make_shared<FC>(dense<FC>(r, c, b)))); ks = {"SC", "FC"}; }
            else if (k == "N") { s = new OtherSlot<DynamicMatrix>(DynamicMatrix(), {"nothing"}); ks = {"nothing"}; }
            else bad_script(k);
            slots[t[1]].reset(s); std::string ps = part(ks[0], r, c, a); if (ks.size() > 1) ps += "," + part(ks[1], r, c, b);
            done(Ev(o).str("s", t[1]).raw("parts", "[" + ps + "]"));
        } else if (o == "set") {   // slot position value
            slot(t[1]).set(0, num(t[2]) - 1, num(t[3])); done(Ev(o).str("s", t[1]).i("k", 1).i("p", num(t[2])).i("v", num(t[3])));
        } else if (o == "mode") {  // stream full|short
            if (t[2] == "full") streams[t[1]] << fullprint; else streams[t[1]] << shortprint; done(Ev(o).str("x", t[1]).b("on", t[2] == "full"));
        } else if (o == "print") { // stream slot
            Slot& s = slot(t[2]); std::ostringstream& x = streams[t[1]]; x.str("");
            std::string e = guard([&] { s.print(x); });
            done(Ev(o).str("x", t[1]).str("s", t[2]).strs("names", s.names).str("err", e).raw("lines", lines(x.str())));
        } else if (o == "pattern") { // slot place how bg colour, palette: symbol colour threshold
            PatternGenerator::Settings set; std::string pal;
            boost::property_tree::ptree tree, list; tree.put("background_index", t[4]); tree.put("background_color", t[5]); set.background_index = t[4]; set.background_color = t[5];
            for (size_t i = 6; i + 2 < t.size(); i += 3) { PatternGenerator::Color c; c.index = t[i]; c.color = t[i + 1]; c.threshold = num(t[i + 2]) / 4.0; set.palette.push_back(c);
                boost::property_tree::ptree q; q.put("index", t[i]); q.put("color", t[i + 1]); std::ostringstream th; th << std::setprecision(17) << c.threshold; q.put("threshold", th.str()); list.push_back({"", q});
                pal += (pal.empty() ? "{" : ",{") + ("\"i\":" + Ev::quote(t[i]) + ",\"c\":" + Ev::quote(t[i + 1]) + ",\"q\":" + std::to_string(num(t[i + 2])) + "}"); }
            tree.add_child("palette", list); if (t[3] == "tree") set = PatternGenerator::Settings(tree);
            std::string f = t[2] == "full" ? "/dev/full" : dir + (t[2] == "lost" ? "/nowhere/p.xpm" : "/p.xpm");
            if (t[2] == "old") { std::ofstream of(f); of << std::string(20000, '#'); }
            std::string e = guard([&] { PatternGenerator g(set); slot(t[1]).pattern(g, f); });
            bool place = t[2] == "ok" || t[2] == "old";
            done(Ev(o).str("s", t[1]).b("place", place).str("bg", t[4]).str("bgc", t[5]).raw("pal", "[" + pal + "]").str("err", e).raw("image", place ? image(f) : "{}"));
        } else bad_script(o);
    }, clear);
    clear(); return rc;
}
