// transposition
#include "mat.h"
#include "BlasBooster/Core/Transposition.h"
template <class M> void trans() { un<M>("trans", [](M const& m, Tok const&) { return box([&] { return transpose(m); }); }); }
static int reg = [] {
    trans<DC>(); trans<DR>(); trans<FC>(); trans<FR>(); trans<SC>(); trans<SR>(); trans<GC>(); trans<GR>(); trans<I>();
    return 0; }();
