// products: BACKEND 0 native, 1 OpenBLAS, 2 Eigen, 3 automatic choice, 4 Blaze
#if BACKEND == 1 || (BACKEND == 3 && defined(WITH_OPENBLAS))
    #include <complex>
    #include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
#endif
#include "mat.h"
#include "pairs.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#if BACKEND == 0
    typedef Native Interface;
    #define NAME "mul.native"
#elif BACKEND == 1
    #include "BlasBooster/Core/Multiplication_OpenBLAS.h"
    typedef OpenBLAS Interface;
    #define NAME "mul.openblas"
#elif BACKEND == 2
    #include "BlasBooster/Core/Multiplication_Eigen.h"
    typedef EigenI Interface;
    #define NAME "mul.eigen"
#elif BACKEND == 3
    #include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
    typedef TheBestPolicy Interface;
    #define NAME "mul.best"
#elif BACKEND == 4
    #include "BlasBooster/Core/Multiplication_Blaze.h"
    typedef Blaze Interface;
    #define NAME "mul.blaze"
#endif
template <class A, class C> static void mul() {
    bin<A, C>(NAME, [](A const& a, C const& b, Tok const&) { return box([&] { return (a * b).template execute<Interface>(); }); });
}
#define MU(a, b) mul<a, b>();
static int reg = [] {
#if PART == 1
    MUL_DD(MU)
#elif PART == 2
    MUL_DS(MU) MUL_SD(MU)
#elif PART == 3
    MUL_SS(MU) MUL_Z(MU) MUL_Z2(MU)
#elif PART == 4
    MUL_M1(MU)
#elif PART == 5
    MUL_M2(MU) MUL_MM(MU)
#elif PART == 6
    mul<Y, Y>();
#elif PART == 7      // the pairs the interfaces to external libraries offer
    mul<DC, DC>(); mul<FC, FC>(); mul<DC, DR>(); mul<DR, DC>(); mul<DR, DR>(); mul<FR, FC>(); mul<FC, FR>(); mul<FR, FR>();
#elif PART == 8
    mul<DC, DC>(); mul<FC, FC>(); mul<DR, DR>(); mul<FR, FR>();
#elif PART == 9      // mixed precision
    mul<DC, FC>(); mul<FC, DC>(); mul<DR, FR>(); mul<FR, DR>();
#endif
    return 0; }();
