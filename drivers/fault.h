#pragma once
#include <new>
#include "blaze/util/Memory.h"
// memory runs out: the allocation number left fails (lasting: and all later ones), while on
struct Fault {
    long left = 0; bool on = false, hit = false, lasting = false;
    static Fault& get() { static Fault f; return f; }
    void point() { if (!on || blaze::MemLog::busy() || left <= 0) return; if (left > 1) { --left; return; } if (!lasting) left = 0; hit = true; throw std::bad_alloc(); }
};
