// Construction, views, element access and dump of the matrix laboratory.
#include "mat.h"
#include "blaze/util/Memory.h"
std::map<int, std::unique_ptr<Any>> slots;
std::string extra;
bool lenient = false;
static int memBase = 0;
void put(int s, Any* a) { slots[s].reset(a); }
std::string guarded(std::function<void()> f) {
    struct On { On() { Fault::get().on = true; } ~On() { Fault::get().on = false; } };
    try { On on; f(); return "ok"; }
    catch (CoreException const&) { return "rejected"; }
    catch (std::bad_alloc const&) { return Fault::get().hit ? "memory" : "error"; }
    catch (std::exception const& e) { return std::string("error"); }
    catch (...) { return "error"; }
}
static std::string ids(std::vector<int> const& v) { std::string r = "["; for (int x : v) if (x) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + "]"; }
void split(std::vector<double> const& e, std::vector<long long>& hi, std::vector<long long>& lo) {
    for (double v : e) {
        double h = std::nearbyint(v);
        if (!(std::fabs(h) <= 1.0e9)) { hi.push_back(BAD); lo.push_back(0); continue; }
        double l = (v - h) / LOW;
        hi.push_back((long long)h); lo.push_back(l == std::nearbyint(l) ? (long long)l : BAD);
    }
}
std::string numbers(std::vector<long long> const& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
static std::string dumpOne(int s, Any& a) {
    Dump d; d.tag = a.tag;
    a.look(d);
    fold(d, a.rk, a.ck);
    std::vector<long long> hi, lo;
    split(d.e, hi, lo);
    std::string r = "{\"s\":" + std::to_string(s) + ",\"t\":\"" + d.tag + "\",\"y\":\"" + d.dyn + "\",\"r\":" + std::to_string(as_int(d.r)) + ",\"c\":" + std::to_string(as_int(d.c))
        + ",\"size\":" + std::to_string(as_int(d.size)) + ",\"bad\":" + (d.bad ? "true" : "false");
    auto lst = [&](char const* n, std::vector<long long> const& v) { r += std::string(",\"") + n + "\":["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); r += "]"; };
    lst("hi", hi); lst("lo", lo);
    if (d.sparse) { lst("off", d.off); lst("key", d.key); r += ",\"nnz\":" + std::to_string(d.nnz) + ",\"major\":" + std::to_string(d.major); }
    r += d.more;
    r += ",\"blk\":" + ids(a.blocks()) + ",\"voff\":" + std::to_string(a.offset());
    return r + ",\"sp\":" + (d.sparse ? "true" : "false") + "}";
}
std::string all_slots() {
    std::string r = "[";
    for (auto& s : slots) { if (s.second->gone) continue; if (r.size() > 1) r += ","; r += dumpOne(s.first, *s.second); }
    return r + "]";
}
void finish(Ev e) {
    auto& m = blaze::MemLog::get();
    e.b("mem", m.errors == memBase && m.allSound() && m.graveSound()).raw("all", all_slots());
    std::vector<int> live, rest; for (auto& b : m.live) live.push_back(b.second.id);
    for (auto& s : slots) if (s.second->gone && s.second->tag != "V" && s.second->tag != "W") for (int x : s.second->blocks()) rest.push_back(x);
    e.raw("live", ids(live)).raw("rest", ids(rest)).emit();
}
// ---- builders
template <class T, class P> Any* buildDense(long long r, long long c, std::vector<double> const& v) {
    typedef Matrix<Dense, T, P> M;
    Any* a = box([&] { return M((size_t)r, (size_t)c); });
    M& m = of<M>(*a);
    for (long long j = 0; j < c; ++j) for (long long i = 0; i < r; ++i) m((size_t)i, (size_t)j) = (T)v[j * r + i];
    return a;
}
template <class T, class P> void fillSparse(Matrix<Sparse, T, P>& m, long long r, long long c, std::vector<double> const& v, std::vector<char> const& st) {
    bool col = std::is_same<typename P::orientation, ColumnMajor>::value;
    long long minor = col ? c : r, major = col ? r : c;
    auto off = m.beginOffset(); auto key = m.beginKey(); auto val = m.begin();
    size_t n = 0;
    for (long long k = 0; k < minor; ++k) {
        off[k] = n;
        for (long long x = 0; x < major; ++x) {
            size_t p = col ? k * r + x : x * r + k;
            if (st[p]) { key[n] = x; val[n] = (T)v[p]; ++n; }
        }
    }
    off[minor] = n;
}
template <class T, class P> Matrix<Sparse, T, P> sparseShell(long long r, long long c, long long n) {
    typedef Matrix<Sparse, T, P> M;
    // a matrix without stored elements: from a dense zero matrix, the only public way to get empty arrays
    if (n == 0) { Matrix<Dense, T, P> z((size_t)r, (size_t)c, AllFiller<T>(0)); return M(z); }
    return M((size_t)r, (size_t)c, (size_t)n);
}
template <class T, class P> Any* buildSparse(long long r, long long c, std::vector<double> const& v, std::vector<char> const& st) {
    typedef Matrix<Sparse, T, P> M;
    long long n = 0; for (char x : st) n += x != 0;
    Any* a = box([&]() -> M { return sparseShell<T, P>(r, c, n); });
    if (r * c) fillSparse(of<M>(*a), r, c, v, st);
    return a;
}
template <class T> std::shared_ptr<Matrix<Dense, T>> sharedDense(long long r, long long c, std::vector<double> const& v) {
    auto p = std::make_shared<Matrix<Dense, T>>((size_t)r, (size_t)c);
    for (long long j = 0; j < c; ++j) for (long long i = 0; i < r; ++i) (*p)((size_t)i, (size_t)j) = (T)v[j * r + i];
    return p;
}
template <class T> std::shared_ptr<Matrix<Sparse, T>> sharedSparse(long long r, long long c, std::vector<double> const& v, std::vector<char> const& st) {
    long long n = 0; for (char x : st) n += x != 0;
    auto p = std::shared_ptr<Matrix<Sparse, T>>(new Matrix<Sparse, T>(sparseShell<T, Parameter<>>(r, c, n)));
    if (r * c) fillSparse(*p, r, c, v, st);
    return p;
}
struct Given { std::vector<double> v; std::vector<char> st; };
static std::shared_ptr<MatrixBase> shared(std::string const& tag, long long r, long long c, Given const& a, Given const& b) {
    if (tag == "Z") return std::make_shared<Z>((size_t)r, (size_t)c);
    if (tag == "DC") return sharedDense<double>(r, c, a.v);
    if (tag == "FC") return sharedDense<float>(r, c, a.v);
    if (tag == "SC") return sharedSparse<double>(r, c, a.v, a.st);
    if (tag == "GC") return sharedSparse<float>(r, c, a.v, a.st);
    if (tag == "MS") return std::make_shared<MS>(sharedSparse<double>(r, c, a.v, a.st), sharedSparse<float>(r, c, b.v, b.st));
    if (tag == "MD") return std::make_shared<MD>(sharedSparse<double>(r, c, a.v, a.st), sharedDense<float>(r, c, b.v));
    bad_script("shared " + tag);
}
static Any* make(std::string const& tag, long long r, long long c, Given const& a, Given const& b) {
    if (tag == "DC") return buildDense<double, Parameter<>>(r, c, a.v);
    if (tag == "DR") return buildDense<double, PR>(r, c, a.v);
    if (tag == "FC") return buildDense<float, Parameter<>>(r, c, a.v);
    if (tag == "FR") return buildDense<float, PR>(r, c, a.v);
    if (tag == "I") return buildDense<int, Parameter<>>(r, c, a.v);
    if (tag == "SC") return buildSparse<double, Parameter<>>(r, c, a.v, a.st);
    if (tag == "SR") return buildSparse<double, PR>(r, c, a.v, a.st);
    if (tag == "GC") return buildSparse<float, Parameter<>>(r, c, a.v, a.st);
    if (tag == "GR") return buildSparse<float, PR>(r, c, a.v, a.st);
    if (tag == "Z") return box([&] { return Z((size_t)r, (size_t)c); });
    if (tag == "ZR") return box([&] { return ZR((size_t)r, (size_t)c); });
    if (tag == "MS") return box([&] { return MS(sharedSparse<double>(r, c, a.v, a.st), sharedSparse<float>(r, c, b.v, b.st)); });
    if (tag == "MD") return box([&] { return MD(sharedSparse<double>(r, c, a.v, a.st), sharedDense<float>(r, c, b.v)); });
    if (tag == "ME") return box([&] { return ME(sharedDense<double>(r, c, a.v), sharedDense<float>(r, c, b.v)); });
    if (tag.substr(0, 2) == "Y.") return box([&]() -> Y { return Y(shared(tag.substr(2), r, c, a, b)); });
    bad_script("make " + tag);
}
static Any* fresh(std::string const& tag) {
#define FRESH(M) if (tag == Tag<M>::v()) return box([] { return M(); });
    FRESH(DC) FRESH(DR) FRESH(FC) FRESH(FR) FRESH(SC) FRESH(SR) FRESH(GC) FRESH(GR) FRESH(Z) FRESH(ZR) FRESH(I)
    bad_script("fresh " + tag);
}
static Repeat stretch;
static bool two(std::string const& tag) { return tag == "MS" || tag == "MD" || tag == "ME" || tag == "Y.MS" || tag == "Y.MD"; }
static void step(Tok const& t) {
    auto c = cmds().find(t[0]);
    if (c != cmds().end()) { c->second(t); return; }
    if (t[0] == "stretch") { stretch.r = num(t[1]); stretch.c = num(t[2]); return; }      // matrices made from now on are repeated
    if (t[0] == "make") {            // make slot tag r c {hi lo}*   ("z 0": stored zero)
        int s = num(t[1]); long long r = num(t[3]), c = num(t[4]);
        Given g[2]; size_t p = 5;
        for (int k = 0; k < (two(t[2]) ? 2 : 1); ++k)
            for (long long x = 0; x < r * c; ++x, p += 2) {
                if (p + 1 >= t.size()) bad_script("make: values");
                bool z = t[p] == "z";
                double v = z ? 0.0 : value(num(t[p]), num(t[p + 1]));
                g[k].v.push_back(v); g[k].st.push_back(z || v != 0.0);
            }
        Repeat k = stretch;
        Given w[2];
        for (int q = 0; q < 2; ++q) if (!g[q].v.empty()) for (long long j = 0; j < c * k.c; ++j) for (long long i = 0; i < r * k.r; ++i) { size_t x = (j % c) * r + i % r; w[q].v.push_back(g[q].v[x]); w[q].st.push_back(g[q].st[x]); }
        Any* made = make(t[2], r * k.r, c * k.c, w[0], w[1]);
        made->rk = k.r; made->ck = k.c;
        put(s, made);
        std::vector<long long> hi, lo;
        for (long long x = 0; x < r * c; ++x) {
            long long h = 0, l = 0;
            for (int k = 0; k < 2; ++k) if (!g[k].v.empty()) { size_t q = 5 + 2 * (k * r * c + x); if (t[q] != "z") { h += num(t[q]); l += num(t[q + 1]); } }
            hi.push_back(h); lo.push_back(l);
        }
        if (t[2] == "Z" || t[2] == "ZR" || t[2] == "Y.Z") { hi.assign(r * c, 0); lo.assign(r * c, 0); }
        bool dy = t[2].substr(0, 2) == "Y.";
        finish(Ev("make").i("d", s).str("t", dy ? "Y" : t[2]).str("dyn", dy ? t[2].substr(2) : "").i("r", r).i("c", c).list("hi", hi).list("lo", lo));
    } else if (t[0] == "fresh") {    // fresh slot tag: default constructed
        put((int)num(t[1]), fresh(t[2]));
        finish(Ev("make").i("d", num(t[1])).str("t", t[2]).str("dyn", "").i("r", 0).i("c", 0).list("hi", std::vector<long long>()).list("lo", std::vector<long long>()));
    } else if (t[0] == "view") {     // view slot base r0 c0 r c
        int s = num(t[1]), b = num(t[2]); size_t r0 = num(t[3]), c0 = num(t[4]), r = num(t[5]), c = num(t[6]);
        Any& x = slot(t[2]); Any* a = nullptr;
        std::string out = guarded([&] {
            if (x.tag == "DC") a = box([&] { return V(of<DC>(x), r, c, r0, c0); });
            else if (x.tag == "FC") a = box([&] { return W(of<FC>(x), r, c, r0, c0); });
            else if (x.tag == "V") a = box([&] { return V(of<V>(x), r, c, r0, c0); });
            else if (x.tag == "W") a = box([&] { return W(of<W>(x), r, c, r0, c0); });
            else bad_script("view of " + x.tag); });
        if (a) { a->base = b; put(s, a); }
        finish(Ev("view").i("d", s).i("b", b).i("r0", r0).i("c0", c0).i("r", r).i("c", c).str("out", out));
    } else if (t[0] == "drop") {
        slots.erase((int)num(t[1]));
        finish(Ev("drop").i("d", num(t[1])));
    } else if (t[0] == "end") {      // everything goes, views first: no memory is left
        for (int pass = 0; pass < 2; ++pass)
            for (auto i = slots.begin(); i != slots.end();) if (pass || i->second->tag == "V" || i->second->tag == "W") i = slots.erase(i); else ++i;
        finish(Ev("end"));
    } else if (t[0] == "set") {      // set slot i j hi lo
        Any& x = slot(t[1]); size_t i = num(t[2]), j = num(t[3]); double v = value(num(t[4]), num(t[5]));
        if (x.tag == "DC") of<DC>(x)(i, j) = v; else if (x.tag == "DR") of<DR>(x)(i, j) = v;
        else if (x.tag == "FC") of<FC>(x)(i, j) = v; else if (x.tag == "FR") of<FR>(x)(i, j) = v;
        else if (x.tag == "V") of<V>(x)(i, j) = v; else if (x.tag == "W") of<W>(x)(i, j) = v;
        else bad_script("set " + x.tag);
        finish(Ev("set").i("d", num(t[1])).i("i", i).i("j", j).i("hi", num(t[4])).i("lo", num(t[5])));
    } else if (t[0] == "bin" || t[0] == "un") {      // bin op dest a b [args], un op dest a [args]: dest 0 = no new matrix
        bool two = t[0] == "bin";
        std::string name = two ? key2(t[1], slot(t[3]).tag, slot(t[4]).tag) : t[1] + " " + slot(t[3]).tag;
        auto f = bins().find(name); auto g = uns().find(name);
        if (two ? f == bins().end() : g == uns().end()) bad_script("no operation " + name);
        Any* a = nullptr; extra.clear();
        Any &left = slot(t[3]), &right = slot(t[two ? 4 : 3]);
        std::string plain = t[1].substr(0, t[1].find('.'));
        Repeat k, lk, rk; lk.r = left.rk; lk.c = left.ck; rk.r = right.rk; rk.c = right.ck; k = lk;
        if (plain == "mul") { if (lk.c != 1 || rk.r != 1) bad_script("mul: repeated inner dimension"); k.c = rk.c; }
        else if (plain == "trans") std::swap(k.r, k.c);
        Repeat::now() = lk;
        std::string out = guarded([&] { a = two ? f->second(slot(t[3]), slot(t[4]), t) : g->second(slot(t[3]), t); });
        int d = a ? (int)num(t[2]) : 0;
        if (a) { a->rk = k.r; a->ck = k.c; }
        else if (out == "ok" && (plain == "assign" || plain == "cassign" || plain == "massign")) { left.rk = rk.r; left.ck = rk.c; }
        else if (out == "ok" && plain == "swap") { left.rk = rk.r; left.ck = rk.c; right.rk = lk.r; right.ck = lk.c; }
        size_t dot = t[1].find('.');
        Ev e(t[1].substr(0, dot));
        e.str("to", dot == std::string::npos ? "" : t[1].substr(dot + 1)).i("d", d).i("a", num(t[3])).i("b", two ? num(t[4]) : 0).str("out", out);
        e.s += extra;
        if (t[1].substr(0, dot) == "filt") {
            std::vector<long long> lo{num(t[5]), num(t[6])}, up{-1, 0};
            if (t[4] != "x") up = {num(t[7]), num(t[8])};
            e.str("kind", t[4]).list("low", lo).list("up", up);
        }
        if (a) { if (d) put(d, a); else delete a; }
        finish(e);
    } else if (t[0] == "list") {     // the operations this driver offers
        std::vector<std::string> v; for (auto& b : bins()) v.push_back(b.first);
        for (auto& u : uns()) v.push_back(u.first);
        Ev("list").strs("ops", v).emit();
    } else if (t[0] == "each" || t[0] == "every") {    // memory runs out at the first, second, ... allocation of the operation (every: and from then on), until it succeeds
        Fault& f = Fault::get();
        if (!blaze::MemLog::before()) bad_script("no faults in this driver");
        for (long k = 1; k < 2000; ++k) { f.left = k; f.hit = false; f.lasting = t[0] == "every"; step(Tok(t.begin() + 1, t.end())); f.left = 0; if (!f.hit) break; }
        f.hit = false;
    } else if (t[0] == "?") {
        lenient = true;
        try { step(Tok(t.begin() + 1, t.end())); } catch (Missing const&) {}
        lenient = false;
    } else bad_script(t[0]);
}
int main() {
    return drive(step, [] {
        stretch = Repeat();
        while (!slots.empty()) slots.erase(std::prev(slots.end()));
        auto& m = blaze::MemLog::get();
        m.clear(); memBase = m.errors;
    });
}
