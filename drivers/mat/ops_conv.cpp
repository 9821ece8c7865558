// conversions, with and without a value filter, and assignments between representations
#include "mat.h"
#include "pairs.h"
typedef ExclusiveBound X_; typedef InclusiveBound I_;
template <class A, class C> void conv() {
    un<C>(std::string("conv.") + Tag<A>::v(), [](C const& c, Tok const&) { return box([&]() -> A { return A(c); }); });
    bin<A, C>("assign", [](A& a, C const& c, Tok const&) -> Any* { a = c; return nullptr; });
}
template <class A, class C> void filt() {    // filt.X dest src kind lowhi lowlo uphi uplo
    un<C>(std::string("filt.") + Tag<A>::v(), [](C const& c, Tok const& t) -> Any* {
        double lo = value(num(t[5]), num(t[6])), up = value(num(t[7]), num(t[8]));
        if (t[4] == "x") return box([&]() -> A { return A(c, AbsoluteValueRangeChecker<double>(lo)); });
        if (t[4] == "xi") return box([&]() -> A { return A(c, AbsoluteValueRangeChecker<double, X_, I_>(lo, up)); });
        if (t[4] == "xx") return box([&]() -> A { return A(c, AbsoluteValueRangeChecker<double, X_, X_>(lo, up)); });
        if (t[4] == "ii") return box([&]() -> A { return A(c, AbsoluteValueRangeChecker<double, I_, I_>(lo, up)); });
        bad_script("filter " + t[4]); });
}
#define CV(a, b) conv<a, b>();
#define FL(a, b) filt<a, b>();
static int reg = [] {
#if PART == 1
    CONV_DC(CV) CONV_FC(CV) CONV_DR(CV) CONV_FR(CV)
#elif PART == 2
    CONV_SC(CV) CONV_SR(CV) CONV_GC(CV) CONV_GR(CV) CONV_Z(CV) CONV_ZR(CV)
#elif PART == 3
    FILT_DC(FL) FILT_FC(FL) FILT_DR(FL) FILT_FR(FL)
#elif PART == 4
    FILT_SC(FL) FILT_SR(FL)
#elif PART == 5
    FILT_GC(FL) FILT_GR(FL)
#endif
    return 0; }();
