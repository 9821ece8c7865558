// Iterators and cursors: ranges with gaps, matrices and windows on one piece of memory.
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "drv.h"
using namespace BlasBooster;
typedef Parameter<size_t, RowMajor> PR;
typedef Parameter<size_t, ColumnMajor, VariableSize, LeadingDimension> PV;
static const long long LOST = -999, N = std::getenv("MEMORY") ? std::atoll(std::getenv("MEMORY")) : 40;    // elements of the memory
struct Place {
    virtual ~Place() {}
    virtual void next() = 0; virtual void prev() = 0;
    virtual Place* copy() = 0; virtual void assign(Place&) { bad_script("assign"); } virtual Place* toConst() { return copy(); }
    virtual bool same(Place& o) = 0;
    virtual long long index() { return LOST; }
    virtual long long where() = 0;               // address of the element
    virtual long long read() = 0; virtual bool write(long long) { return false; }
};
struct Lab {
    virtual ~Lab() {}
    virtual void range(long long s, size_t cs, size_t nb, size_t sep, std::string const& how) = 0;
    virtual void matrix(bool row, long long s, size_t r, size_t c, std::string const& how) = 0;
    virtual void window(size_t r0, size_t c0, size_t r, size_t c, std::string const& how) = 0;
    virtual Place* iterate(std::string const& from, bool c) = 0;
    virtual std::vector<long long> walk(std::string const& from, bool c) = 0;
    virtual Place* outer(std::string const& dir, size_t pos, bool c) = 0;
    virtual Place* inner(Place& a, std::string const& d2, std::string const& from) = 0;
    virtual std::vector<std::vector<long long>> loops(std::string const& d1, std::string const& d2, bool c) = 0;
    virtual void fill(long long v) = 0;
    virtual void copyin(std::string const& kind, long long v) = 0;
    virtual std::vector<long long> memory() = 0;
};
template <class T> struct LabOf : Lab {
    std::vector<T> mem;
    typedef Storage<T, false, false, 0, true> S; typedef Matrix<Dense, T> C; typedef Matrix<Dense, T, PR> R; typedef Matrix<Dense, T, PV> W;
    std::unique_ptr<S> s; std::unique_ptr<C> m; std::unique_ptr<R> r; std::vector<std::unique_ptr<W>> w; std::vector<std::unique_ptr<C>> keep;
    LabOf() { for (long long k = 1; k <= N; ++k) mem.push_back((T)k); }
    std::vector<long long> memory() override { std::vector<long long> v; for (T x : mem) v.push_back(as_int(x)); return v; }
    void clear() { s.reset(); w.clear(); r.reset(); if (m) keep.push_back(std::move(m)); }
    static long long at(LabOf* lab, T const* p) {
        std::uintptr_t a = (std::uintptr_t)p, b = (std::uintptr_t)lab->mem.data();
        return a >= b && a < b + N * sizeof(T) && (a - b) % sizeof(T) == 0 ? (long long)((a - b) / sizeof(T)) : LOST;
    }
    // the object in use is new, or one of another shape that becomes a copy of the new one
    template <class O> static O* settled(std::unique_ptr<O> n, std::unique_ptr<O> old, std::string const& how) {
        if (how == "") return n.release();
        if (how == "copied") return new O(static_cast<O const&>(*n));
        if (how == "moved") return new O(std::move(*n));
        if (how == "assigned") *old = static_cast<O const&>(*n);
        else if (how == "handed") *old = std::move(*n);
        else if (how == "swapped") swap(*old, *n);
        else if (how == "itself") { O& same = *n; *n = static_cast<O const&>(same); return n.release(); }
        else bad_script(how);
        return old.release();
    }
    void range(long long st, size_t cs, size_t nb, size_t sep, std::string const& how) override {
        clear(); s.reset(settled(std::unique_ptr<S>(new S(mem.data() + st, cs, nb, sep)), std::unique_ptr<S>((st + cs) % 2 ? new S() : new S(mem.data() + 1, 3, 2, 4)), how)); }
    void matrix(bool row, long long st, size_t rr, size_t cc, std::string const& how) override {
        clear(); bool e = (st + rr) % 2;
        if (row) r.reset(settled(std::unique_ptr<R>(new R(rr, cc, mem.data() + st)), std::unique_ptr<R>(e ? new R() : new R(3, 5, mem.data() + 2)), how));
        else m.reset(settled(std::unique_ptr<C>(new C(rr, cc, mem.data() + st)), std::unique_ptr<C>(e ? new C() : new C(3, 5, mem.data() + 2)), how)); }
    void window(size_t r0, size_t c0, size_t rr, size_t cc, std::string const& how) override {
        std::unique_ptr<W> n, old;
        if (!w.empty()) { n.reset(new W(*w.back(), rr, cc, r0, c0)); old.reset(new W(*w.back(), r0 + rr, c0, 0, 0)); }
        else if (m) { n.reset(new W(*m, rr, cc, r0, c0)); old.reset(new W(*m, r0, c0 + cc, 0, 0)); }
        else bad_script("window");
        w.emplace_back(settled(std::move(n), std::move(old), how));
    }
    // the object in use, const or not
    template <class F> auto with(F f) -> decltype(f(*s)) { if (s) return f(*s); if (!w.empty()) return f(*w.back()); if (m) return f(*m); if (r) return f(*r); bad_script("no object"); }
    template <class F> auto withMatrix(F f) -> decltype(f(*m)) { if (!w.empty()) return f(*w.back()); if (m) return f(*m); if (r) return f(*r); bad_script("no matrix"); }
    template <class F> auto withMatrix(F f, bool c) -> decltype(f(*m)) { return withMatrix([&](auto& o) { return c ? f(static_cast<typename std::remove_reference<decltype(o)>::type const&>(o)) : f(o); }); }
    // ---- iterators
    template <class I, class CI> struct It : Place {
        LabOf* lab; I i; It(LabOf* l, I x) : lab(l), i(x) {}
        void next() override { ++i; } void prev() override { --i; }
        Place* copy() override { return new It(*this); }
        void assign(Place& o) override { if (auto p = dynamic_cast<It<I, CI>*>(&o)) i = p->i; else bad_script("assign"); }
        Place* toConst() override { return new It<CI, CI>(lab, CI(i)); }
        bool same(Place& o) override {
            if (auto p = dynamic_cast<It<I, CI>*>(&o)) { bool e = i == p->i, n = i != p->i; return e == n ? throw std::logic_error("eq") : e; }
            bad_script("eq of different iterators"); }
        long long where() override { return at(lab, &*i); }
        long long read() override { return where() == LOST ? LOST : as_int(*i); }
        bool write(long long v) override { return put(lab, i, v); }
    };
    template <class I> static auto put(LabOf* lab, I i, long long v) -> typename std::enable_if<!std::is_const<typename std::remove_reference<decltype(*i)>::type>::value, bool>::type { if (at(lab, &*i) == LOST) return false; *i = (T)v; return true; }
    template <class I> static auto put(LabOf*, I i, long long) -> typename std::enable_if<std::is_const<typename std::remove_reference<decltype(*i)>::type>::value, bool>::type { bad_script("write through const"); }
    template <class O> Place* itOf(O& o, std::string const& f, typename std::enable_if<!std::is_same<typename O::iterator, StripedIterator<T>>::value>::type* = 0) {
        typedef typename O::iterator I; typedef typename O::const_iterator CI;
        auto i = f == "begin" ? o.begin() : f == "end" ? o.end() : (bad_script("from"), o.end());
        return new It<typename std::conditional<std::is_const<O>::value, CI, I>::type, CI>(this, i);
    }
    template <class O> Place* itOf(O& o, std::string const& f, typename std::enable_if<std::is_same<typename O::iterator, StripedIterator<T>>::value>::type* = 0) {
        typedef typename O::iterator I; typedef typename O::const_iterator CI;
        auto i = f == "begin" ? o.begin() : f == "end" ? o.end() : f == "rbegin" ? o.rbegin() : f == "rend" ? o.rend() : (bad_script("from"), o.end());
        return new It<typename std::conditional<std::is_const<O>::value, CI, I>::type, CI>(this, i);
    }
    Place* iterate(std::string const& f, bool c) override {
        return with([&](auto& o) -> Place* { typedef typename std::remove_reference<decltype(o)>::type O; return c ? this->itOf(static_cast<O const&>(o), f) : this->itOf(o, f); });
    }
    std::vector<long long> walk(std::string const& from, bool c) override {
        std::unique_ptr<Place> a(iterate(from, c)), e(iterate(from == "begin" ? "end" : from == "end" ? "begin" : "rend", c));
        std::vector<long long> v;
        for (int k = 0; k < 2 * N && !a->same(*e); ++k) {
            if (from == "end") { a->prev(); v.push_back(a->where()); }
            else { v.push_back(a->where()); if (from == "begin") a->next(); else a->prev(); }
        }
        return v;
    }
    // ---- cursors
    template <class O, class D> struct Out : Place {
        typedef Cursor<O, D> Cur; LabOf* lab; Cur i; O& o; Out(LabOf* l, O& x, size_t p) : lab(l), i(x, p), o(x) {}
        Out(Out const& x) : lab(x.lab), i(x.i), o(x.o) {}
        void next() override { ++i; } void prev() override { --i; }
        Place* copy() override { return new Out(*this); }
        bool same(Place& q) override { if (auto p = dynamic_cast<Out*>(&q)) { bool e = i == p->i, n = i != p->i; return e == n ? throw std::logic_error("eq") : e; } bad_script("eq of different cursors"); }
        long long index() override { return as_int(*i); }
        long long where() override { bad_script("where"); } long long read() override { bad_script("read"); }
    };
    template <class O, class D, class E> struct In : Place {
        typedef Cursor<Cursor<O, D>, E> Cur; LabOf* lab; Cur i; In(LabOf* l, Cur x) : lab(l), i(x) {}
        void next() override { ++i; } void prev() override { --i; }
        Place* copy() override { return new In(*this); }
        bool same(Place& q) override { if (auto p = dynamic_cast<In*>(&q)) { bool e = i == p->i, n = i != p->i; return e == n ? throw std::logic_error("eq") : e; } bad_script("eq of different cursors"); }
        long long where() override { return at(lab, &*i); }
        long long read() override { return where() == LOST ? LOST : as_int(*i); }
        bool write(long long v) override { return wr(i, v); }
        template <class Q> auto wr(Q& q, long long v) -> typename std::enable_if<!std::is_const<typename std::remove_reference<decltype(*q)>::type>::value, bool>::type { if (where() == LOST) return false; *q = (T)v; return true; }
        template <class Q> auto wr(Q& q, long long) -> typename std::enable_if<std::is_const<typename std::remove_reference<decltype(*q)>::type>::value, bool>::type { bad_script("write through const"); }
    };
    template <class F> static auto dir(std::string const& d, F f) -> decltype(f(Direction::Row())) {
        if (d == "Row") return f(Direction::Row()); if (d == "Column") return f(Direction::Column()); if (d == "Major") return f(Direction::Major()); if (d == "Minor") return f(Direction::Minor());
        bad_script("direction " + d);
    }
    Place* outer(std::string const& d, size_t pos, bool c) override {
        return withMatrix([&](auto& o) -> Place* { typedef typename std::remove_reference<decltype(o)>::type O;
            return dir(d, [&](auto x) -> Place* { return new Out<O, decltype(x)>(this, o, pos); }); }, c);
    }
    template <class O, class D> static constexpr bool isRow() { typedef typename O::orientation G;
        return std::is_same<D, Direction::Row>::value || (std::is_same<D, Direction::Major>::value && std::is_same<G, ColumnMajor>::value) || (std::is_same<D, Direction::Minor>::value && std::is_same<G, RowMajor>::value); }
    template <class O, class D, class E> Place* innerOf(Out<O, D>& a, std::string const& from, typename std::enable_if<isRow<O, D>() != isRow<O, E>()>::type* = 0) {
        typedef typename In<O, D, E>::Cur Cur;
        return new In<O, D, E>(this, from == "begin" ? Cur(a.o, a.i.begin()) : Cur(a.o, a.i.end()));
    }
    template <class O, class D, class E> Place* innerOf(Out<O, D>&, std::string const&, typename std::enable_if<isRow<O, D>() == isRow<O, E>()>::type* = 0) { bad_script("parallel cursors"); }
    template <class O> Place* innerIf(Place& a, std::string const& d2, std::string const& from) {
        Place* p = nullptr;
        for (std::string d : {"Row", "Column", "Major", "Minor"})
            dir(d, [&](auto x) -> int { if (auto q = dynamic_cast<Out<O, decltype(x)>*>(&a)) dir(d2, [&](auto y) -> int { p = this->template innerOf<O, decltype(x), decltype(y)>(*q, from); return 0; }); return 0; });
        return p;
    }
    Place* inner(Place& a, std::string const& d2, std::string const& from) override {
        Place* p = innerIf<C>(a, d2, from); if (!p) p = innerIf<C const>(a, d2, from); if (!p) p = innerIf<R>(a, d2, from); if (!p) p = innerIf<R const>(a, d2, from);
        if (!p) p = innerIf<W>(a, d2, from); if (!p) p = innerIf<W const>(a, d2, from);
        return p ? p : (bad_script("inner"), nullptr);
    }
    std::vector<std::vector<long long>> loops(std::string const& d1, std::string const& d2, bool c) override {
        std::vector<std::vector<long long>> v;
        bool rows = d1 == "Row" || d1 == (r ? "Minor" : "Major");
        size_t n = withMatrix([&](auto& o) { return rows ? o.getNbRows() : o.getNbColumns(); });
        std::unique_ptr<Place> a(outer(d1, 0, c)), e(outer(d1, n, c));
        for (int k = 0; k < N && !a->same(*e); ++k, a->next()) {
            std::unique_ptr<Place> b(inner(*a, d2, "begin")), f(inner(*a, d2, "end"));
            v.emplace_back();
            for (int q = 0; q < N && !b->same(*f); ++q, b->next()) v.back().push_back(b->where());
        }
        return v;
    }
    void fill(long long v) override { if (s) { for (auto i = s->begin(); i != s->end() ; ++i) { if (at(this, &*i) == LOST) break; *i = (T)v; } } else withMatrix([&](auto& o) { o = (T)v; return 0; }); }
    void copyin(std::string const& kind, long long v) override {
        withMatrix([&](auto& o) {
            size_t rr = o.getNbRows(), cc = o.getNbColumns();
            auto set = [&](auto& x, size_t d) { for (size_t j = 0; j < cc; ++j) for (size_t i = 0; i < rr; ++i) x(i + d, j + d) = (T)(v + (long long)(i + j * rr)); };
            if (kind == "col") { C x(rr, cc); set(x, 0); copy(x, o); }
            else if (kind == "row") { R x(rr, cc); set(x, 0); copy(x, o); }
            else if (kind == "window") { C x(rr + 2, cc + 1, AllFiller<T>(77)); set(x, 1); W y(x, rr, cc, 1, 1); copy(y, o); }
            else bad_script("copyin");
            return 0; });
    }
};
static std::unique_ptr<Lab> lab; static std::map<int, std::unique_ptr<Place>> places;
static Place& place(std::string const& t) { auto i = places.find((int)num(t)); if (i == places.end() || !i->second) bad_script("place"); return *i->second; }
static void done(Ev e) { e.list("mem", lab->memory()); e.emit(); }
int main() {
    return drive([&](Tok const& t) {
        std::string const& o = t[0];
        if (o == "memory") {
            places.clear();
            if (t[1] == "d") lab.reset(new LabOf<double>()); else if (t[1] == "f") lab.reset(new LabOf<float>()); else if (t[1] == "i") lab.reset(new LabOf<int>()); else bad_script(t[1]);
            done(Ev("memory")); return;
        }
        if (!lab) bad_script("no memory");
        if (o == "range") { places.clear(); lab->range(num(t[1]), num(t[2]), num(t[3]), num(t[4]), t.size() > 5 ? t[5] : ""); done(Ev(o).i("start", num(t[1])).i("cs", num(t[2])).i("nb", num(t[3])).i("sep", num(t[4]))); }
        else if (o == "matrix") { places.clear(); lab->matrix(t[1] == "row", num(t[2]), num(t[3]), num(t[4]), t.size() > 5 ? t[5] : ""); done(Ev(o).b("row", t[1] == "row").i("start", num(t[2])).i("r", num(t[3])).i("c", num(t[4]))); }
        else if (o == "window") { places.clear(); lab->window(num(t[1]), num(t[2]), num(t[3]), num(t[4]), t.size() > 5 ? t[5] : ""); done(Ev(o).i("r0", num(t[1])).i("c0", num(t[2])).i("r", num(t[3])).i("c", num(t[4]))); }
        else if (o == "it") { places[(int)num(t[1])].reset(lab->iterate(t[2], t.size() > 3)); done(Ev(o).i("s", num(t[1])).str("from", t[2])); }
        else if (o == "outer") { places[(int)num(t[1])].reset(lab->outer(t[2], num(t[3]), t.size() > 4)); done(Ev(o).i("s", num(t[1])).str("dir", t[2]).i("pos", num(t[3]))); }
        else if (o == "inner") { Place* p = lab->inner(place(t[2]), t[3], t[4]); places[(int)num(t[1])].reset(p); done(Ev(o).i("s", num(t[1])).i("a", num(t[2])).str("dir", t[3]).str("from", t[4])); }
        else if (o == "copy") { Place* p = t.size() > 3 ? place(t[2]).toConst() : place(t[2]).copy(); places[(int)num(t[1])].reset(p); done(Ev(o).i("s", num(t[1])).i("a", num(t[2]))); }
        else if (o == "assign") { place(t[1]).assign(place(t[2])); done(Ev("copy").i("s", num(t[1])).i("a", num(t[2]))); }
        else if (o == "next") { place(t[1]).next(); done(Ev(o).i("s", num(t[1]))); }
        else if (o == "prev") { place(t[1]).prev(); done(Ev(o).i("s", num(t[1]))); }
        else if (o == "index") { done(Ev(o).i("s", num(t[1])).i("v", place(t[1]).index())); }
        else if (o == "read") { done(Ev(o).i("s", num(t[1])).i("off", place(t[1]).where()).i("v", place(t[1]).read())); }
        else if (o == "write") { bool k = place(t[1]).write(num(t[2])); done(Ev(o).i("s", num(t[1])).i("v", num(t[2])).b("ok", k)); }
        else if (o == "eq") { done(Ev(o).i("a", num(t[1])).i("b", num(t[2])).b("res", place(t[1]).same(place(t[2])))); }
        else if (o == "walk") { auto v = lab->walk(t[1], t.size() > 2); done(Ev(o).str("from", t[1]).list("offs", v)); }
        else if (o == "loops") { auto v = lab->loops(t[1], t[2], t.size() > 3); std::string s; for (auto& x : v) { s += s.empty() ? "[" : ",["; for (size_t k = 0; k < x.size(); ++k) s += (k ? "," : "") + std::to_string(x[k]); s += "]"; }
            done(Ev(o).str("d1", t[1]).str("d2", t[2]).raw("lines", "[" + s + "]")); }
        else if (o == "fill") { lab->fill(num(t[1])); done(Ev(o).i("v", num(t[1]))); }
        else if (o == "copyin") { lab->copyin(t[1], num(t[2])); done(Ev(o).str("kind", t[1]).i("v", num(t[2]))); }
        else bad_script(o);
    }, [] { places.clear(); lab.reset(); });
}
