// Drives the absolute value filters (C11, C12).
#include <cassert>
#include <limits>
#include <tuple>
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
#include "drv.h"
using namespace BlasBooster;

// strictly increasing; the index is the abstract value
static std::vector<double> palette = {
    0.0, std::ldexp(1.0, -1074), std::ldexp(1.0, -1000), std::ldexp(1.0, -100), 1e-16, 1e-12, 0.5, std::nextafter(1.0, 0.0), 1.0, std::nextafter(1.0, 2.0),
    1.0 + std::ldexp(1.0, -23), 2.0, 2.5, 3.0, 16777216.0, 16777217.0, 2147483647.0, 2147483648.0, 1e18, 1e300, std::numeric_limits<double>::infinity() };
static double val(std::string const& t) {
    if (t == "-0") return -0.0;
    long long i = num(t);
    if (std::llabs(i) >= (long long)palette.size()) bad_script("palette");
    return i < 0 ? -palette[-i] : palette[i];
}
static long long idx(std::string const& t) { return t == "-0" ? 0 : num(t); }

struct Holder {
    std::shared_ptr<ValueCheckerBase> p;
    std::function<int(std::string const&, double)> test;   // value type, value
};
static std::map<int, Holder> slots;
static std::map<std::shared_ptr<ValueCheckerBase>, long long, ValueCheckerLess> keyed;

template <class C> Holder hold(std::shared_ptr<C> c) {
    Holder h; h.p = c;
    h.test = [c](std::string const& vt, double v) -> int {
        if (vt == "double") return (*c)(v);
        if (vt == "float") return (*c)((float)v);
        if (vt == "int") return (*c)((int)v);
        if (vt == "long") return (*c)((long)v);
        if (vt == "longlong") return (*c)((long long)v);
        bad_script(vt);
    };
    return h;
}
template <class T> Holder make(std::string const& k, T lo, T hi) {
    if (k == "EN") return hold(std::make_shared<AbsoluteValueRangeChecker<T, ExclusiveBound, NoBound>>(lo));
    if (k == "EI") return hold(std::make_shared<AbsoluteValueRangeChecker<T, ExclusiveBound, InclusiveBound>>(lo, hi));
    if (k == "II") return hold(std::make_shared<AbsoluteValueRangeChecker<T, InclusiveBound, InclusiveBound>>(lo, hi));
    if (k == "EE") return hold(std::make_shared<AbsoluteValueRangeChecker<T, ExclusiveBound, ExclusiveBound>>(lo, hi));
    bad_script(k);
}
static void step(Tok const& t) {
    if (t[0] == "make") {           // make slot kind ttype lo hi
        int s = num(t[1]);
        std::string out = "ok";
        try {
            double lo = val(t[4]), hi = val(t[5]);
            Holder h = t[3] == "double" ? make<double>(t[2], lo, hi) : t[3] == "float" ? make<float>(t[2], (float)lo, (float)hi)
                     : t[3] == "int" ? make<int>(t[2], (int)lo, (int)hi) : (bad_script(t[3]), Holder());
            slots[s] = h;
        } catch (CoreException const&) { out = "rejected"; }
        catch (...) { out = "other"; }
        Ev("make").i("s", s).str("k", t[2]).str("tt", t[3]).i("lo", idx(t[4])).i("hi", idx(t[5])).str("out", out).emit();
    } else if (t[0] == "test") {    // test slot vtype value
        int s = num(t[1]);
        if (!slots.count(s)) { Ev("skip").emit(); return; }
        int r = slots[s].test(t[2], val(t[3]));
        Ev("test").i("s", s).str("vt", t[2]).i("v", idx(t[3])).b("r", r).emit();
    } else if (t[0] == "less") {    // less a b
        int a = num(t[1]), b = num(t[2]);
        if (!slots.count(a) || !slots.count(b)) { Ev("skip").emit(); return; }
        bool r = ValueCheckerLess()(slots[a].p, slots[b].p);
        bool r2 = *slots[a].p < *slots[b].p;
        Ev("less").i("a", a).i("b", b).b("r", r).b("r2", r2).emit();
    } else if (t[0] == "put") {     // put slot value   (map[slot] = value)
        int s = num(t[1]);
        if (!slots.count(s)) { Ev("skip").emit(); return; }
        keyed[slots[s].p] = num(t[2]);
        Ev("put").i("s", s).i("v", num(t[2])).i("n", keyed.size()).emit();
    } else if (t[0] == "get") {
        int s = num(t[1]);
        if (!slots.count(s)) { Ev("skip").emit(); return; }
        auto it = keyed.find(slots[s].p);
        Ev("get").i("s", s).i("v", it == keyed.end() ? -1 : it->second).i("n", keyed.size()).emit();
    } else bad_script(t[0]);
}
int main() { return drive(step, [] { slots.clear(); keyed.clear(); }); }
