// Drivers linked with this file can run out of memory (Fault): in the allocator of the library and in operator new.
#include "mat.h"
static int reg = [] { blaze::MemLog::before() = [] { Fault::get().point(); }; return 0; }();
void* operator new(std::size_t n) { Fault::get().point(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
