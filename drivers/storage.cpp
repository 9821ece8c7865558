// Storages of all kinds: construction, copies, moves, proxies, comparison.
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/Storage.h"
#include "drv.h"
#include "fault.h"
#include <algorithm>
#include <memory>
#include <new>
using namespace BlasBooster;
typedef std::vector<long long> L;
// buffers of fixed size storages
static long long arrays = 0, arrayErrors = 0;
static std::map<void*, int>& known() { static auto* m = new std::map<void*, int>; return *m; }
typedef blaze::MemLog::Own Own;
static int hook = [] { blaze::MemLog::before() = [] { Fault::get().point(); }; return 0; }();
void* operator new(size_t n) { Fault::get().point(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void* operator new[](size_t n) { Fault::get().point(); Own own; void* p = std::malloc(n ? n : 1); ++arrays; known()[p] = 1; return p; }
static void give(void* p) { if (!p) return; Own own; if (!known().erase(p)) { ++arrayErrors; return; } --arrays; std::free(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
static const int ROOM = 14, FIXED = 4;
static double* ext1; static double* ext2; static int* ext3;
typedef Storage<double, true, true, FIXED> K; typedef Storage<double, false, true, FIXED> F; typedef Storage<double, false, false, 0> X;
typedef Storage<int, false, false, 0> I; typedef Storage<double, false, false, 0, true> S; typedef Matrix<Dense, double> M;
static char const* name(K*) { return "K"; } static char const* name(F*) { return "F"; } static char const* name(X*) { return "X"; }
static char const* name(I*) { return "I"; } static char const* name(S*) { return "S"; } static char const* name(M*) { return "M"; }
struct Slot { virtual ~Slot() {} virtual std::string show(std::string const&, bool) = 0; bool gone = false; };
template <class T> struct Of : Slot {
    T v; template <class... A> Of(A&&... a) : v(std::forward<A>(a)...) {}
    std::string show(std::string const& s, bool g) override {
        Ev e("s"); e.str("s", s).str("k", name((T*)0)).b("gone", g);
        if (g) return e.i("n", 0).i("e", 0).i("off", 0).list("v", L()).s + "}";
        T const& c = v; size_t n = length(c); L w; where(e, (void const*)c.getDataPointer());
        if (n <= 4 * ROOM) { for (auto i = c.begin(); i != c.end() && w.size() < 4 * ROOM; ++i) w.push_back(as_int(*i)); }
        return e.i("n", as_int(n)).list("v", w).s + "}";
    }
    static size_t length(M const& m) { return m.getNbRows() * m.getNbColumns(); }
    template <class U> static size_t length(U const& u) { return u.size(); }
    static void where(Ev& e, void const* p) {
        char const* q = (char const*)p; int k = 0; long long off = 0;
        auto in = [&](int i, char const* b, size_t z) { if (q >= b && q <= b + z * ROOM) { k = i; off = (q - b) / (long long)z; } };
        in(1, (char*)(ext1 + 1), sizeof(double)); in(2, (char*)(ext2 + 1), sizeof(double)); in(3, (char*)(ext3 + 1), sizeof(int));
        e.i("e", k).i("off", off);
    }
};
static std::map<std::string, std::unique_ptr<Slot>> slots;
static Slot& at(std::string const& s) { auto i = slots.find(s); if (i == slots.end()) bad_script("no " + s); return *i->second; }
template <class G> static void on(std::string const& s, G g) {
    Slot& x = at(s);
    if (auto* p = dynamic_cast<Of<K>*>(&x)) g(p->v); else if (auto* p = dynamic_cast<Of<F>*>(&x)) g(p->v); else if (auto* p = dynamic_cast<Of<X>*>(&x)) g(p->v);
    else if (auto* p = dynamic_cast<Of<I>*>(&x)) g(p->v); else if (auto* p = dynamic_cast<Of<S>*>(&x)) g(p->v); else if (auto* p = dynamic_cast<Of<M>*>(&x)) g(p->v);
}
template <class T> static T& as(std::string const& s) { auto* p = dynamic_cast<Of<T>*>(&at(s)); if (!p) bad_script("kinds differ: " + s); return p->v; }
template <class T> static void put(std::string const& d, Of<T>* x) { Own own; slots[d].reset(x); }
static bool noMemory = false;              // the last guarded operation has run out of it
template <class G> static bool guard(G g) {
    struct On { On() { Fault::get().on = true; } ~On() { Fault::get().on = false; } };
    noMemory = false;
    try { On on; g(); return true; } catch (std::bad_alloc const&) { if (!Fault::get().hit) bad_script("memory"); noMemory = true; return false; } catch (std::exception const&) { return false; }
}
static void finish(Ev& e, bool ok) {
    std::string all, x1, x2, x3;
    for (auto const& s : slots) all += (all.empty() ? "" : ",") + s.second->show(s.first, s.second->gone);
    L a, b, c; for (int i = 0; i < ROOM; ++i) { a.push_back(as_int(ext1[i + 1])); b.push_back(as_int(ext2[i + 1])); c.push_back(as_int(ext3[i + 1])); }
    bool guards = true; for (int i : {0, ROOM + 1}) guards = guards && ext1[i] == -77 && ext2[i] == -77 && ext3[i] == -77;
    auto arr = [](L const& l) { std::string r; for (auto v : l) r += (r.empty() ? "" : ",") + std::to_string(v); return "[" + r + "]"; };
    auto& m = blaze::MemLog::get();
    e.b("ok", ok).b("memory", noMemory).raw("slots", "[" + all + "]").raw("ext", "[" + arr(a) + "," + arr(b) + "," + arr(c) + "]")
     .b("sound", guards && !m.errors && !arrayErrors && m.allSound() && m.graveSound()).i("live", (long long)m.live.size() + arrays).emit();
    noMemory = false;
}
template <class T> static void store(T& v, size_t p, int x) { auto i = v.begin(); for (size_t k = 1; k < p; ++k) ++i; *i = x; }
int main() {
    ext1 = new (std::malloc(sizeof(double) * (ROOM + 2))) double; ext2 = new (std::malloc(sizeof(double) * (ROOM + 2))) double; ext3 = new (std::malloc(sizeof(int) * (ROOM + 2))) int;
   
    auto reset = [] {
        slots.clear(); blaze::MemLog::get().clear(); arrayErrors = 0;
        for (int i = 0; i < ROOM + 2; ++i) { bool g = i == 0 || i == ROOM + 1; ext1[i] = g ? -77 : 100 + i; ext2[i] = g ? -77 : 200 + i; ext3[i] = g ? -77 : 300 + i; }
    };
    std::function<void(Tok const&)> step = [&](Tok const& t) {
        std::string const& o = t[0]; std::string d = t.size() > 1 ? t[1] : ""; bool ok = true;
        if (o == "new") {                      // slot kind n
            std::string k = t[2]; size_t n = num(t[3]); Ev e(o); e.str("d", d).str("k", k).i("n", n);
            ok = guard([&] { if (k == "K") put(d, new Of<K>()); else if (k == "F") put(d, new Of<F>()); else if (k == "X") put(d, n ? new Of<X>(n) : new Of<X>()); else if (k == "I") put(d, n ? new Of<I>(n) : new Of<I>());
                else if (k == "M") put(d, n ? new Of<M>(n, (size_t)1) : new Of<M>()); else bad_script(k); }); finish(e, ok);
        } else if (o == "list") {              // slot kind values
            std::string k = t[2]; L w; for (size_t i = 3; i < t.size(); ++i) w.push_back(num(t[i])); size_t n = w.size(); Ev e(o); e.str("d", d).str("k", k).list("w", w);
            auto fill = [&](auto zero, auto build) { typedef decltype(zero) V; V v[8]; for (size_t i = 0; i < 8; ++i) v[i] = i < n ? (V)w[i] : V();
                switch (n) { case 0: build(std::initializer_list<V>{}); break; case 1: build(std::initializer_list<V>{v[0]}); break; case 2: build(std::initializer_list<V>{v[0], v[1]}); break;
                    case 3: build(std::initializer_list<V>{v[0], v[1], v[2]}); break; case 4: build(std::initializer_list<V>{v[0], v[1], v[2], v[3]}); break;
                    case 5: build(std::initializer_list<V>{v[0], v[1], v[2], v[3], v[4]}); break; case 6: build(std::initializer_list<V>{v[0], v[1], v[2], v[3], v[4], v[5]}); break; default: bad_script("long list"); } };
            ok = guard([&] {
                if (k == "K") fill(0.0, [&](std::initializer_list<double> l) { put(d, new Of<K>(l)); }); else if (k == "F") fill(0.0, [&](std::initializer_list<double> l) { put(d, new Of<F>(l)); });
                else if (k == "X") fill(0.0, [&](std::initializer_list<double> l) { put(d, new Of<X>(l)); }); else if (k == "I") fill(0, [&](std::initializer_list<int> l) { put(d, new Of<I>(l)); });
                else if (k == "M") { switch (n) { case 1: put(d, new Of<M>(M{{(double)w[0]}})); break; case 2: put(d, new Of<M>(M{{(double)w[0]}, {(double)w[1]}})); break; case 3: put(d, new Of<M>(M{{(double)w[0]}, {(double)w[1]}, {(double)w[2]}})); break;
                    case 4: put(d, new Of<M>(M{{(double)w[0]}, {(double)w[1]}, {(double)w[2]}, {(double)w[3]}})); break; default: bad_script("column"); } } else bad_script(k); }); finish(e, ok);
        } else if (o == "over") {              // slot kind array offset n
            std::string k = t[2]; int x = num(t[3]), off = num(t[4]); size_t n = num(t[5]); if (off < 0 || off + (int)n > ROOM) bad_script("range");
            Ev e(o); e.str("d", d).str("k", k).i("e", x).i("off", off).i("n", n); double* p = (x == 1 ? ext1 : ext2) + 1 + off;
            ok = guard([&] { if (k == "F") put(d, new Of<F>(p, n)); else if (k == "X") put(d, new Of<X>(p, n)); else if (k == "I") put(d, new Of<I>(ext3 + 1 + off, n)); else if (k == "M") put(d, new Of<M>(n, (size_t)1, p)); else bad_script(k); }); finish(e, ok);
        } else if (o == "strided") {           // slot array offset continuous blocks separator
            int x = num(t[2]), off = num(t[3]); size_t cs = num(t[4]), nb = num(t[5]), sep = num(t[6]); if (cs && nb && off + nb * cs + (nb - 1) * sep > (size_t)ROOM) bad_script("range");
            Ev e(o); e.str("d", d).i("e", x).i("off", off).i("cs", cs).i("nb", nb).i("sep", sep); ok = guard([&] { put(d, new Of<S>((x == 1 ? ext1 : ext2) + 1 + off, cs, nb, sep)); }); finish(e, ok);
        } else if (o == "convert") {           // slot kind source
            std::string k = t[2]; Ev e(o); e.str("d", d).str("k", k).str("a", t[3]);
            ok = guard([&] {
                if (k == "F" || k == "X" || k == "I") {
                    auto go = [&](auto const& v) { if (k == "F") put(d, new Of<F>(v)); else if (k == "X") put(d, new Of<X>(v)); else put(d, new Of<I>(v)); };
                    Slot& x = at(t[3]); if (auto* p = dynamic_cast<Of<K>*>(&x)) go(p->v); else if (auto* p = dynamic_cast<Of<F>*>(&x)) go(p->v); else if (auto* p = dynamic_cast<Of<X>*>(&x)) go(p->v);
                    else if (auto* p = dynamic_cast<Of<I>*>(&x)) go(p->v); else if (auto* p = dynamic_cast<Of<S>*>(&x)) go(p->v); else bad_script("convert");
                } else bad_script(k); }); finish(e, ok);
        } else if (o == "copy" || o == "move") {
            Ev e(o); e.str("d", d).str("a", t[2]); bool mv = o == "move";
            ok = guard([&] { on(t[2], [&](auto& v) { typedef std::decay_t<decltype(v)> T; if (mv) put(d, new Of<T>(std::move(v))); else put(d, new Of<T>((T const&)v)); if (mv && (std::is_same<T, F>::value || std::is_same<T, M>::value)) at(t[2]).gone = true; }); }); finish(e, ok);
        } else if (o == "assign" || o == "massign") {
            Ev e(o); e.str("d", d).str("a", t[2]); bool mv = o == "massign";
            ok = guard([&] { on(t[2], [&](auto& v) { typedef std::decay_t<decltype(v)> T; T& w = as<T>(d); if (mv) w = std::move(v); else w = (T const&)v; if (d != t[2]) at(d).gone = false; if (mv && d != t[2] && (std::is_same<T, F>::value || std::is_same<T, M>::value)) at(t[2]).gone = true; }); }); finish(e, ok);
        } else if (o == "swap") {
            Ev e(o); e.str("d", d).str("a", t[2]); ok = guard([&] { on(t[2], [&](auto& v) { typedef std::decay_t<decltype(v)> T; using std::swap; swap(as<T>(d), v); }); }); finish(e, ok);
        } else if (o == "resize" || o == "shrink" || o == "fill") {
            long long n = num(t[2]); Ev e(o); e.str("d", d).i("n", n).i("x", n);
            auto go = [&](auto& v) { if (o == "resize") v.resize(n); else if (o == "shrink") v.shrink(n); else v.fill(n); };
            ok = guard([&] { Slot& x = at(d); if (auto* p = dynamic_cast<Of<X>*>(&x)) go(p->v); else if (auto* p = dynamic_cast<Of<I>*>(&x)) go(p->v);
                else if (auto* p = dynamic_cast<Of<M>*>(&x)) { if (o == "resize") p->v.resize(n, 1); else if (o == "fill") p->v.fill(n); else bad_script(o); } else bad_script(o); }); finish(e, ok);
        } else if (o == "store") {             // slot position value
            Ev e(o); e.str("d", d).i("p", num(t[2])).i("x", num(t[3])); on(d, [&](auto& v) { store(v, num(t[2]), num(t[3])); }); finish(e, true);
        } else if (o == "drop") {
            at(d); Ev e(o); e.str("d", d); slots.erase(d); finish(e, true);
        } else if (o == "compare") {
            Ev e(o); e.str("d", d).str("a", t[2]); bool r = false, n = false;
            auto inner = [&](auto const& x) { on(t[2], [&](auto const& y) { typedef std::decay_t<decltype(x)> A; typedef std::decay_t<decltype(y)> B;
                if constexpr (!std::is_same<A, S>::value && !std::is_same<B, S>::value && std::is_same<A, M>::value == std::is_same<B, M>::value) { r = x.equal(y); n = x.notEqual(y); } else bad_script("compare"); }); };
            on(d, inner); e.b("r", r); finish(e, n == !r);
        } else if (o == "identical") {
            Ev e(o); e.str("d", d).str("a", t[2]); bool r = false; on(t[2], [&](auto& v) { typedef std::decay_t<decltype(v)> T; if constexpr (!std::is_same<T, K>::value) r = as<T>(d) == v; else bad_script("identical"); }); e.b("r", r); finish(e, true);
        } else if (o == "reload") {            // slot source
            Ev e(o); e.str("d", d).str("a", t[2]);
            auto go = [&](auto& x, auto const& y) { std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << y; } boost::archive::text_iarchive ia(ss); ia >> x; };
            ok = guard([&] { Slot& x = at(t[2]); if (auto* p = dynamic_cast<Of<F>*>(&x)) go(as<F>(d), p->v); else if (auto* p = dynamic_cast<Of<X>*>(&x)) go(as<X>(d), p->v); else if (auto* p = dynamic_cast<Of<I>*>(&x)) go(as<I>(d), p->v); else bad_script(o); }); finish(e, ok);
        } else if (o == "visit") {
            Ev e(o); e.str("d", d); L f, g;
            on(d, [&](auto& v) { typedef std::decay_t<decltype(v)> T; for (auto i = v.begin(); i != v.end() && f.size() < 60; ++i) f.push_back(as_int(*i));
                if constexpr (std::is_same<T, S>::value) { if (v.size()) for (auto i = v.rbegin(); i != v.rend() && g.size() < 60; --i) g.push_back(as_int(*i)); }
                else { auto i = v.end(); while (i != v.begin() && g.size() < 60) { --i; g.push_back(as_int(*i)); } } });
            finish(e.list("f", f).list("g", g), true);
        } else if (o == "each" || o == "every") {      // memory runs out at the first, second, ... allocation of the operation (every: and from then on), until it succeeds
            Fault& f = Fault::get(); Tok rest(t.begin() + 1, t.end());
            for (long k = 1; k < 200; ++k) { f.left = k; f.hit = false; f.lasting = o == "every"; step(rest); f.left = 0; if (!f.hit) break; }
            f.hit = false;
        } else bad_script(o);
    };
    return drive(step, reset);
}
