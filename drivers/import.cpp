// Matrices are imported from descriptor and data files in a scratch directory.
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
#include "../src/Benchmark/MatrixProvider.h"
#include "drv.h"
#include <csignal>
#include <memory>
using namespace BlasBooster;
typedef std::vector<long long> L;
typedef Parameter<size_t, RowMajor> PR;
typedef Matrix<Dense, double> DC; typedef Matrix<Dense, double, PR> DR; typedef Matrix<Dense, float> FC; typedef Matrix<Dense, float, PR> FR;
static std::string dir;
static std::string path(std::string const& f) { return dir + "/" + f; }
template <class M> static std::string dump(M const& m) {
    size_t r = m.getNbRows(), c = m.getNbColumns(); L e;
    bool whole = (size_t)(m.end() - m.begin()) == r * c && r < 1000 && c < 1000;
    if (whole) for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) e.push_back(as_int(m(i, j)));
    Ev v("m"); v.i("r", as_int(r)).i("c", as_int(c)).list("e", e).b("whole", whole || r * c == 0); return v.s + "}";
}
struct Slot { virtual ~Slot() {} virtual std::string dump() = 0; virtual void stream(std::istream&) = 0; virtual void path(std::string const&) = 0; virtual void text(std::string const&) { bad_script("text importer"); } };
template <class M> struct SlotOf : Slot {
    M m; SlotOf(size_t r, size_t c, long long v) : m(r, c) { for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) m(i, j) = (typename M::value_type)(v + (long long)(i + j * r)); }
    std::string dump() override { return ::dump(m); }
    void stream(std::istream& is) override { is >> m; }
    void path(std::string const& f) override { M x{filesystem::path(f)}; m = x; }
    void text(std::string const& f) override { text(m, f); }
    static void text(DC& x, std::string const& f) { MatrixFileImporter im{filesystem::path(f)}; PtrMatrixFactory p(new MatrixFileImporter(im)); DC y = (*p)(); if (p->getNbRows() != y.getNbRows() || p->getNbColumns() != y.getNbColumns()) throw std::logic_error("dimensions"); x = y; }
    template <class O> static void text(O&, std::string const&) { bad_script("text importer"); }
};
static std::map<std::string, std::unique_ptr<Slot>> slots; static std::map<std::string, std::string> files; static std::map<std::string, std::pair<long long, L>> hollow; static std::map<std::string, std::vector<DC>> sets; static std::unique_ptr<MatrixProvider> provider;
static void put(std::string const& f, std::string const& s) { std::ofstream o(path(f), std::ios::binary | std::ios::trunc); o << s; files[f] = s; hollow.erase(f); }
static void done(Ev e) {
    std::string s; for (auto& x : slots) s += (s.empty() ? "" : ",") + ("{\"s\":" + Ev::quote(x.first) + ",\"m\":" + x.second->dump() + "}");
    bool same = true; for (auto& f : files) { std::ifstream in(path(f.first), std::ios::binary); if (std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()) != f.second) same = false; }
    for (auto& f : hollow) { std::ifstream in(path(f.first), std::ios::binary | std::ios::ate); if ((long long)in.tellg() != f.second.first) same = false; }
    auto& m = blaze::MemLog::get();
    e.raw("slots", "[" + s + "]").b("files", same).b("sound", m.errors == 0 && m.allSound() && m.graveSound()).emit();
}
static Slot& slot(std::string const& s) { auto i = slots.find(s); if (i == slots.end()) bad_script("slot"); return *i->second; }
template <class F> static std::string guard(F f) { try { f(); return ""; } catch (BlasBoosterException const&) { return "refused"; } catch (std::exception const&) { return "other"; } }
static void clear() { provider.reset(); slots.clear(); blaze::MemLog::get().clear(); if (!dir.empty()) { for (auto& f : files) ::unlink(path(f.first).c_str()); for (auto& f : hollow) ::unlink(path(f.first).c_str()); hollow.clear(); ::rmdir(dir.c_str()); dir.clear(); } files.clear(); }
static bool isNumber(std::string const& s) { return s != "-" && s != "abc"; }
static void fields(Ev& e, Tok const& t, size_t at, size_t n) { L v; std::string has; for (size_t i = 0; i < n; ++i) { v.push_back(isNumber(t[at + i]) ? num(t[at + i]) : 0); has += std::string(i ? "," : "") + "\"" + (t[at + i] == "-" ? "missing" : t[at + i] == "abc" ? "bad" : "number") + "\""; } e.list("v", v).raw("is", "[" + has + "]"); }
template <class T> static std::string numbers(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) { T x = (T)(i + 1); s.append((char const*)&x, sizeof x); } return s; }
int main() {
    ::signal(SIGXFSZ, SIG_IGN);
    int rc = drive([&](Tok const& t) {
        if (dir.empty()) { char d[] = "import-XXXXXX"; if (!mkdtemp(d)) bad_script("mkdtemp"); dir = d; }
        std::string const& o = t[0];
        if (o == "make") {    // slot tag rows columns first value
            size_t r = num(t[3]), c = num(t[4]); long long v = num(t[5]); Slot* s = nullptr;
            if (t[2] == "DC") s = new SlotOf<DC>(r, c, v); else if (t[2] == "DR") s = new SlotOf<DR>(r, c, v); else if (t[2] == "FC") s = new SlotOf<FC>(r, c, v); else if (t[2] == "FR") s = new SlotOf<FR>(r, c, v); else bad_script(t[2]);
            slots[t[1]].reset(s); done(Ev(o).str("s", t[1]).i("r", num(t[3])).i("c", num(t[4])).i("v", v));
        } else if (o == "data") {   // file element type, whole elements, further bytes
            put(t[1], (t[2] == "d" ? numbers<double>(num(t[3])) : numbers<float>(num(t[3]))) + std::string((size_t)num(t[4]), '\x11'));
            done(Ev(o).str("f", t[1]).i("n", num(t[3])));
        } else if (o == "hollow") {  // file element type, elements, {first, number}*: a long file, zero except for these elements
            put(t[1], ""); files.erase(t[1]); size_t z = t[2] == "d" ? sizeof(double) : sizeof(float); long long n = num(t[3]); L r;
            bool ok = ::truncate(path(t[1]).c_str(), (off_t)(n * z)) == 0;
            std::fstream o2(path(t[1]), std::ios::binary | std::ios::in | std::ios::out);
            for (size_t i = 4; i + 1 < t.size(); i += 2) { long long a = num(t[i]), k = num(t[i + 1]); r.push_back(a); r.push_back(k); std::string s;
                for (long long q = a; q < a + k; ++q) { double x = (double)(q % 9973 + 1); float y = (float)x; s.append(z == sizeof(double) ? (char const*)&x : (char const*)&y, z); }
                o2.seekp((std::streamoff)(a * z)); o2 << s; }
            o2.close();
            if (!ok || !o2) { ::unlink(path(t[1]).c_str()); done(Ev("remove").str("f", t[1])); }     // no room for files of that length
            else { hollow[t[1]] = {n * (long long)z, r}; done(Ev(o).str("f", t[1]).i("n", n).list("ranges", r)); }
        } else if (o == "descriptor" || o == "list") { // file, data file, flaw, fields: rows columns leading dimensions offsets
            bool xml = o == "descriptor"; size_t n = xml ? 6 : 2; if (t.size() != 4 + n) bad_script("fields");
            static const char* names[] = {"nbRows", "nbColumns", "rowLeadingDimension", "columnLeadingDimension", "rowOffset", "columnOffset"};
            std::string s;
            if (xml) { for (size_t i = 0; i < n; ++i) if (t[4 + i] != "-") s += std::string("<") + names[i] + ">" + t[4 + i] + "</" + names[i] + ">\n"; if (t[2] != "-") s += "<filename>" + path(t[2]) + "</filename>\n"; if (t[3] == "open") s += "<more>"; }
            else { for (size_t i = 0; i < n; ++i) if (t[4 + i] != "-") s += t[4 + i] + " "; if (t[2] != "-") s += "\n" + path(t[2]) + "\n"; }
            if (t[3] == "empty") s.clear(); else if (t[3] == "half") s = s.substr(0, s.size() / 2); else if (t[3] == "other") s = "<<no descriptor>>"; else if (t[3] != "none" && t[3] != "open") bad_script("flaw");
            put(t[1], s); Ev e(o); e.str("f", t[1]).str("data", t[2]).str("flaw", t[3]); fields(e, t, 4, n); done(e);
        } else if (o == "remove") { ::unlink(path(t[1]).c_str()); files.erase(t[1]); hollow.erase(t[1]); done(Ev(o).str("f", t[1])); }
        else if (o == "import") {   // how slot descriptor
            Slot& s = slot(t[2]);
            std::string e = guard([&] { if (t[1] == "stream") { std::ifstream is(path(t[3])); if (!is) throw BlasBoosterException("no file"); s.stream(is); } else if (t[1] == "path") s.path(path(t[3])); else if (t[1] == "text") s.text(path(t[3])); else bad_script(t[1]); });
            done(Ev(o).str("how", t[1]).str("s", t[2]).str("f", t[3]).str("err", e));
        } else if (o == "provide") {  // entries: name kind arguments ;
            ptree tree; std::string log; size_t i = 1;
            auto list = [](std::string const& s) { ptree a; std::istringstream is(s); std::string x; while (std::getline(is, x, ',')) { ptree v; v.put_value(x); a.push_back({"", v}); } return a; };
            auto ints = [](std::string const& s) { L v; std::istringstream is(s); std::string x; while (std::getline(is, x, ',')) v.push_back(num(x)); return v; };
            while (i < t.size()) {
                std::string name = t[i++], kind = t[i++]; ptree leaf, v; Ev e("e"); e.str("name", name).str("kind", kind); L d, b; std::string arg; long long val = 0;
                if (kind == "DiagonalBand") { d = ints(t[i]); b = ints(t[i + 1]); val = num(t[i + 2]); v.push_back({"dimension", list(t[i])}); v.push_back({"band_width", list(t[i + 1])}); v.put("value", t[i + 2]); i += 3; }
                else if (kind == "File") { arg = t[i]; v.put_value(path(t[i++])); } else { arg = t[i]; v.put_value(t[i++]); }
                e.list("dims", d).list("bands", b).i("v", val).str("arg", arg);
                leaf.push_back({kind, v}); 
                auto at = tree.find(name); if (at != tree.not_found() && t[i - 1] != "") at->second.push_back({kind, v}); else tree.push_back({name, leaf});
                log += (log.empty() ? "" : ",") + e.s + "}";
                if (i < t.size() && t[i++] != ";") bad_script("provide");
            }
            std::unique_ptr<MatrixProvider> p; std::string err = guard([&] { p.reset(new MatrixProvider(tree)); });
            if (err.empty()) provider = std::move(p);
            done(Ev(o).raw("entries", "[" + log + "]").str("err", err));
        } else if (o == "get") {
            if (!provider) bad_script("no provider");
            std::string s; std::string err = guard([&] { for (auto& m : provider->get(t[1])) s += (s.empty() ? "" : ",") + dump(m); });
            done(Ev(o).str("name", t[1]).raw("list", err.empty() ? "[" + s + "]" : "[]").str("err", err));
        } else bad_script(o);
    }, clear);
    clear();
    return rc;
}
