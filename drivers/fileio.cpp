// Objects are saved to and loaded from files in a scratch directory of their own.
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Utilities/BoostSerializePath.h"
#include "BlasBooster/Utilities/FileIO.h"
#include "drv.h"
#include <boost/archive/archive_exception.hpp>
#include <cfloat>
#include <memory>
using namespace BlasBooster;
namespace fs = boost::filesystem;
// numbers of the script are positions in this table
static const double NUMBERS[] = {0.0, 1.0, -1.0, 1.0 / 3, -2.0 / 7, 3.141592653589793, 1e300, -1e-300, DBL_MAX, DBL_MIN, 1.0 + DBL_EPSILON, 0.1, 123456789.123456789, -0.0, 1e-7, 65536.5};
static const int NN = sizeof NUMBERS / sizeof *NUMBERS;
static const char* STRINGS[] = {"", "a", "two words", "<tag>&amp;\"quoted\"'", "line\nbreak", "  blanks  ", "umlaut \xc3\xa4", "a/b/../c.xml", "0", "%s\\n"};
static const int NS = sizeof STRINGS / sizeof *STRINGS;
static long long number(double d) { for (int i = 0; i < NN; ++i) if (!std::memcmp(&d, &NUMBERS[i], sizeof d)) return i; return BAD; }
static long long number(float d) { for (int i = 0; i < NN; ++i) { if (i >= 6 && i <= 10) continue; float f = (float)NUMBERS[i]; if (!std::memcmp(&d, &f, sizeof d)) return i; } return BAD; }
static long long number(int d) { return d; }
static long long number(size_t d) { return d < 1000000 ? (long long)d : BAD; }
static long long text(std::string const& s) { for (int i = 0; i < NS; ++i) if (s == STRINGS[i]) return i; return BAD; }
template <class T> T numberAt(long long i) { if (i < 0 || i >= NN) bad_script("number"); return (T)NUMBERS[i]; }
template <> int numberAt<int>(long long i) { return (int)i; }
template <> size_t numberAt<size_t>(long long i) { return (size_t)i; }
static std::string textAt(long long i) { if (i < 0 || i >= NS) bad_script("string"); return STRINGS[i]; }
struct Sub { std::string s; double x = 0; template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(s) & BOOST_SERIALIZATION_NVP(x); } };
struct Rec {
    int a = 0; bool b = false; double x = 0; std::string s; fs::path p; std::vector<int> v; std::vector<Sub> subs;
    template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(a) & BOOST_SERIALIZATION_NVP(b) & BOOST_SERIALIZATION_NVP(x) & BOOST_SERIALIZATION_NVP(s) & BOOST_SERIALIZATION_NVP(p) & BOOST_SERIALIZATION_NVP(v) & BOOST_SERIALIZATION_NVP(subs); }
};
typedef std::vector<long long> L;
typedef Parameter<size_t, RowMajor> PR;
typedef Matrix<Dense, double> DC; typedef Matrix<Dense, double, PR> DR; typedef Matrix<Dense, float> FC; typedef Matrix<Dense, int> I; typedef Matrix<Zero> Z;
typedef Storage<double, false, false, 0> ST; typedef Storage<double, false, true, 4> FX; typedef SparseStorage<double, size_t, false, 0> SS;
struct Slot {
    std::string kind; bool broken = false;            // a failed load leaves it in an unknown state
    virtual ~Slot() {}
    virtual void dump(Ev& e) = 0;
    virtual void write(std::string const& fmt, std::string const& name, fs::path const& f, bool over, bool def) = 0;
    virtual void read(std::string const& fmt, std::string const& name, fs::path const& f) = 0;
};
template <class T> struct Both : Slot {
    T x;
    void write(std::string const& fmt, std::string const& name, fs::path const& f, bool over, bool def) override {
        if (fmt == "xml") def ? writeXML(x, name, f) : writeXML(x, name, f, over); else def ? writeBinary(x, name, f) : writeBinary(x, name, f, over); }
    void read(std::string const& fmt, std::string const& name, fs::path const& f) override { if (fmt == "xml") readXML(x, name, f); else readBinary(x, name, f); }
};
template <class T> struct Bin : Slot {
    T x; Bin(T const& y) : x(y) {}
    void write(std::string const& fmt, std::string const& name, fs::path const& f, bool over, bool def) override { if (fmt != "bin") bad_script("binary only"); def ? writeBinary(x, name, f) : writeBinary(x, name, f, over); }
    void read(std::string const& fmt, std::string const& name, fs::path const& f) override { if (fmt != "bin") bad_script("binary only"); readBinary(x, name, f); }
};
static void out(Ev& e, std::string const& kind, size_t r, size_t c, L const& n, bool fresh = true) { e.str("kind", kind).i("r", (long long)r).i("c", (long long)c).list("n", n).b("fresh", fresh); }
struct RecSlot : Both<Rec> {
    RecSlot(L const& n) {
        size_t k = 0; auto nx = [&] { if (k >= n.size()) bad_script("rec"); return n[k++]; };
        x.a = (int)nx(); x.b = nx(); x.x = numberAt<double>(nx()); x.s = textAt(nx()); x.p = textAt(nx());
        for (long long m = nx(); m > 0; --m) x.v.push_back((int)nx());
        for (long long m = nx(); m > 0; --m) { Sub s; s.s = textAt(nx()); s.x = numberAt<double>(nx()); x.subs.push_back(s); }
        if (k != n.size()) bad_script("rec");
    }
    void dump(Ev& e) override { L n{x.a, x.b, number(x.x), text(x.s), text(x.p.string()), (long long)x.v.size()}; for (int i : x.v) n.push_back(i);
        n.push_back((long long)x.subs.size()); for (auto& s : x.subs) { n.push_back(text(s.s)); n.push_back(number(s.x)); } out(e, kind, 0, 0, n); }
};
struct PathSlot : Both<fs::path> {
    PathSlot(L const& n) { x = textAt(n.at(0)); }
    void dump(Ev& e) override { out(e, kind, 0, 0, L{text(x.string())}); }
};
template <class M> struct DenseSlot : Bin<M> {
    static M make(size_t r, size_t c, L const& n) { M m(r, c); if (n.size() != r * c) bad_script("elements"); for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) m(i, j) = numberAt<typename M::value_type>(n[i + j * r]); return m; }
    DenseSlot(size_t r, size_t c, L const& n) : Bin<M>(make(r, c, n)) {}
    void dump(Ev& e) override {
        M const& m = this->x; L n; size_t r = m.getNbRows(), c = m.getNbColumns();
        bool whole = (size_t)(m.end() - m.begin()) == r * c && m.getSize() == r * c;
        if (whole) for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) n.push_back(number(m(i, j)));
        bool fresh = whole;
        if (whole && !std::is_same<M, I>::value) { M copy(r, c); for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) copy(i, j) = m(i, j); double p = this->x.getNorm(), q = copy.getNorm(); fresh = !std::memcmp(&p, &q, sizeof p); }
        out(e, this->kind, r, c, n, fresh);
    }
};
struct ZeroSlot : Bin<Z> { ZeroSlot(size_t r, size_t c) : Bin<Z>(Z(r, c)) {} void dump(Ev& e) override { out(e, kind, x.getNbRows(), x.getNbColumns(), L{}, x.getSize() == x.getNbRows() * x.getNbColumns()); } };
struct FlexSlot : Bin<ST> { static ST mk(L const& n) { ST s(n.size()); for (size_t i = 0; i < n.size(); ++i) s.begin()[i] = numberAt<double>(n[i]); return s; } FlexSlot(L const& n) : Bin<ST>(mk(n)) {}
    void dump(Ev& e) override { L n; for (auto i = x.begin(); i != x.end(); ++i) n.push_back(number(*i)); out(e, kind, 0, 0, n, n.size() == x.size()); } };
struct FixSlot : Bin<FX> { static FX mk(L const& n) { FX s; if (n.size() != 4) bad_script("fixed"); for (size_t i = 0; i < 4; ++i) s.begin()[i] = numberAt<double>(n[i]); return s; } FixSlot(L const& n) : Bin<FX>(mk(n)) {}
    void dump(Ev& e) override { L n; for (auto i = x.begin(); i != x.end(); ++i) n.push_back(number(*i)); out(e, kind, 0, 0, n); } };
struct SparseSlot : Bin<SS> {     // r: offsets, n: values, keys, offsets
    static SS mk(size_t o, L const& n) { size_t v = (n.size() - o) / 2; if (n.size() < o || 2 * v + o != n.size()) bad_script("sparse"); SS s(v, o); size_t k = 0; for (size_t i = 0; i < v; ++i) s.begin()[i] = numberAt<double>(n[k++]); for (size_t i = 0; i < v; ++i) s.beginKey()[i] = n[k++]; for (size_t i = 0; i < o; ++i) s.beginOffset()[i] = n[k++]; return s; }
    SparseSlot(size_t o, L const& n) : Bin<SS>(mk(o, n)) {}
    void dump(Ev& e) override { L n; for (auto i = x.begin(); i != x.end(); ++i) n.push_back(number(*i)); for (auto i = x.beginKey(); i != x.endKey(); ++i) n.push_back(number(*i)); size_t o = 0; for (auto i = x.beginOffset(); i != x.endOffset(); ++i, ++o) n.push_back(number(*i)); out(e, kind, o, 0, n); }
};
static std::map<std::string, std::unique_ptr<Slot>> slots;
static std::string dir; static std::map<std::string, int> seen;
static const char* FILES[] = {"a", "b", "c"};
static fs::path file(std::string const& f) { return f == "full" ? fs::path("/dev/full") : f == "lost" ? fs::path(dir + "/no/such") : fs::path(dir + "/" + f); }
static std::string slurp(std::string const& p) { std::ifstream in(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
static void put(std::string const& p, std::string const& s) { std::ofstream o(p, std::ios::binary | std::ios::trunc); o << s; }
static void done(Ev e) {
    L ids; for (auto f : FILES) { std::string p = dir + "/" + f; if (!fs::exists(p)) ids.push_back(0); else { auto i = seen.emplace(slurp(p), (int)seen.size() + 1).first; ids.push_back(i->second); } }
    std::string s;
    for (auto& x : slots) { Ev v("slot"); v.str("s", x.first); if (x.second->broken) out(v, "unknown", 0, 0, L{}); else x.second->dump(v); s += (s.empty() ? "" : ",") + v.s + "}"; }
    e.list("ids", ids).raw("slots", "[" + s + "]").b("stray", fs::exists(dir + "/no"));
    auto& m = blaze::MemLog::get(); e.b("sound", m.errors == 0 && m.allSound() && m.graveSound()).i("live", (long long)m.live.size()).emit();
}
static Slot& slot(std::string const& s) { auto i = slots.find(s); if (i == slots.end()) bad_script("slot"); return *i->second; }
static void clear() { slots.clear(); seen.clear(); blaze::MemLog::get().clear(); if (!dir.empty()) { for (auto f : FILES) ::unlink((dir + "/" + f).c_str()); ::rmdir(dir.c_str()); dir.clear(); } }
template <class F> static std::string guard(F f) {
    try { f(); return ""; } catch (BlasBoosterException const&) { return "refused"; } catch (boost::archive::archive_exception const&) { return "archive"; } catch (std::exception const&) { return "other"; }
}
int main() {
    int rc = drive([&](Tok const& t) {
        if (dir.empty()) { char d[] = "fileio-XXXXXX"; if (!mkdtemp(d)) bad_script("mkdtemp"); dir = d; }
        std::string const& o = t[0];
        if (o == "make") {
            std::string const& k = t[2]; size_t r = (size_t)num(t[3]), c = (size_t)num(t[4]); L n; for (size_t i = 5; i < t.size(); ++i) n.push_back(num(t[i]));
            std::unique_ptr<Slot> s;
            if (k == "rec") s.reset(new RecSlot(n)); else if (k == "path") s.reset(new PathSlot(n)); else if (k == "DC") s.reset(new DenseSlot<DC>(r, c, n)); else if (k == "DR") s.reset(new DenseSlot<DR>(r, c, n));
            else if (k == "FC") s.reset(new DenseSlot<FC>(r, c, n)); else if (k == "I") s.reset(new DenseSlot<I>(r, c, n)); else if (k == "Z") s.reset(new ZeroSlot(r, c)); else if (k == "ST") s.reset(new FlexSlot(n));
            else if (k == "FX") s.reset(new FixSlot(n)); else if (k == "SS") s.reset(new SparseSlot(r, n)); else bad_script(k);
            s->kind = k; slots[t[1]] = std::move(s);
            done(Ev(o).str("s", t[1]).str("kind", k).i("r", (long long)r).i("c", (long long)c).list("n", n));
        } else if (o == "drop") { slot(t[1]); slots.erase(t[1]); done(Ev(o).str("s", t[1])); }
        else if (o == "write") { // slot file format name overwrite|keep|default
            bool over = t[5] != "keep", def = t[5] == "default";
            std::string e = guard([&] { slot(t[1]).write(t[3], t[4], file(t[2]), over, def); });
            done(Ev(o).str("s", t[1]).str("f", t[2]).str("fmt", t[3]).str("name", t[4]).b("over", over).str("err", e));
        } else if (o == "read") {
            Slot& s = slot(t[1]); bool there = fs::exists(file(t[2])); 
            std::string e = guard([&] { s.read(t[3], t[4], file(t[2])); });
            if (e.empty()) s.broken = false; else if (there) s.broken = true;
            done(Ev(o).str("s", t[1]).str("f", t[2]).str("fmt", t[3]).str("name", t[4]).str("err", e));
        } else if (o == "junk") { put(file(t[1]).string(), textAt(num(t[2]))); done(Ev(o).str("f", t[1])); }
        else if (o == "cut") {  // keep k per mille of the file, at least the last byte is lost
            std::string p = file(t[1]).string(), s = slurp(p); if (!fs::exists(p)) bad_script("cut"); size_t k = s.size() * (size_t)num(t[2]) / 1000; if (k >= s.size()) k = s.size() ? s.size() - 1 : 0; put(p, s.substr(0, k));
            done(Ev(o).str("f", t[1]));
        } else if (o == "end") { slots.clear(); done(Ev(o)); }
        else if (o == "remove") { fs::remove(file(t[1])); done(Ev(o).str("f", t[1])); }
        else if (o == "duplicate") { put(file(t[2]).string(), slurp(file(t[1]).string())); done(Ev(o).str("f", t[1]).str("g", t[2])); }
        else bad_script(o);
    }, clear);
    clear();
    return rc;
}
