// sums, differences and compound assignment
#include "mat.h"
#include "pairs.h"
template <class A, class C> void pm() {
    bin<A, C>("add", [](A const& a, C const& b, Tok const&) { return box([&] { return a + b; }); });
    bin<A, C>("sub", [](A const& a, C const& b, Tok const&) { return box([&] { return a - b; }); });
}
template <class A, class C> void acc() {
    bin<A, C>("iadd", [](A& a, C const& b, Tok const&) -> Any* { a += b; return nullptr; });
    bin<A, C>("isub", [](A& a, C const& b, Tok const&) -> Any* { a -= b; return nullptr; });
}
#define PM(a, b) pm<a, b>();
#define AC(a, b) acc<a, b>();
static int reg = [] {
#if PART == 1
    ADD_C(PM)
#elif PART == 2
    ADD_R(PM)
#elif PART == 3
    ADD_M1(PM) ADD_M2(PM)
#elif PART == 4
    pm<Y, Y>();
#elif PART == 5
    ACC_C(AC) ACC_R(AC)
#elif PART == 6
    ACC_M1(AC) ACC_M2(AC) ACC_M3(AC)
#elif PART == 7
    acc<Y, Y>();
#endif
    return 0; }();
