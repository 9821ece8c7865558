// Stand-in for blaze's aligned allocation (blaze is not available offline).
// Every allocation is recorded, surrounded by canaries and filled with a pattern, so that the
// drivers can report allocations, releases, out of bounds writes and use of unset memory.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <type_traits>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define MEMLOG_RAW __attribute__((no_sanitize_address))
#else
#define MEMLOG_RAW
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif
namespace blaze {
struct MemLog {
    struct Block { size_t bytes, count; int id; char* raw; };
    std::map<void*, Block> live;
    std::vector<char*> graveyard;            // released blocks are kept (poisoned) until clear()
    std::map<void*, int> freed;              // released but still reserved addresses
    int next = 1;
    std::vector<int> allocs, frees;          // ids since last take()
    int errors = 0;                          // release of unknown or already released memory, damaged canary
    static MemLog& get() { static MemLog* m = new MemLog; return *m; }
    int idOf(void const* p) const { auto i = live.find(const_cast<void*>(p)); return i == live.end() ? 0 : i->second.id; }
    // id of the live block containing p
    int owner(void const* p) const {
        for (auto const& b : live) if ((char const*)p >= (char*)b.first && (char const*)p < (char*)b.first + (b.second.bytes ? b.second.bytes : 1)) return b.second.id;
        return 0;
    }
    static const size_t pad = 64;
    static const unsigned char canary = 0xC9;
    // the log itself allocates
    static int& busy() { static int n = 0; return n; }
    struct Own { Own() { ++busy(); } ~Own() { --busy(); } };
    // called before every allocation; it may throw
    static void (*&before())() { static void (*f)() = nullptr; return f; }
    void* grab(size_t bytes, size_t count) {
        if (before()) before()();
        Own own;
        char* raw = (char*)std::aligned_alloc(64, (bytes + 2 * pad + 63) / 64 * 64);
        if (!raw) throw std::bad_alloc();
        std::memset(raw, canary, bytes + 2 * pad);
        void* p = raw + pad;
        std::memset(p, fill(), bytes);
        live[p] = Block{bytes, count, next, raw};
        ASAN_POISON_MEMORY_REGION(raw, pad);
        ASAN_POISON_MEMORY_REGION((char*)p + bytes, pad);
        allocs.push_back(next++);
        return p;
    }
    static unsigned char& fill() { static unsigned char f = 0xA7; return f; }
    MEMLOG_RAW bool sound(void* p, Block const& b) const {
        for (size_t i = 0; i < pad; ++i)
            if ((unsigned char)b.raw[i] != canary || (unsigned char)((char*)p)[b.bytes + i] != canary) return false;
        return true;
    }
    // checks the surroundings of every live block
    bool allSound() const { for (auto const& b : live) if (!sound(b.first, b.second)) return false; return true; }
    MEMLOG_RAW bool graveSound() const {
        for (auto const& f : freed) { unsigned char const* q = (unsigned char const*)f.first; for (int i = 0; i < f.second; ++i) if (q[i] != 0xDD) return false; }
        return true;
    }
    size_t drop(void* p) {
        auto i = live.find(p);
        if (i == live.end()) { ++errors; return 0; }
        Own own;
        Block b = i->second;
        if (!sound(p, b)) ++errors;
        frees.push_back(b.id);
        live.erase(i);
        return b.count;
    }
    void bury(void* p, size_t bytes, char* raw) { Own own; std::memset(p, 0xDD, bytes); graveyard.push_back(raw); freed[p] = (int)bytes; ASAN_POISON_MEMORY_REGION(p, bytes); }
    void clear() {                           // forget everything (start of a case)
        for (auto& b : live) { ASAN_UNPOISON_MEMORY_REGION(b.second.raw, b.second.bytes + 2 * pad); std::free(b.second.raw); }
        for (auto& f : freed) ASAN_UNPOISON_MEMORY_REGION((char*)f.first - pad, f.second + 2 * pad);
        for (char* g : graveyard) std::free(g);
        live.clear(); graveyard.clear(); freed.clear(); allocs.clear(); frees.clear(); errors = 0; next = 1;
    }
};
template <class T> T* allocate(size_t size) {
    MemLog& m = MemLog::get();
    T* p = static_cast<T*>(m.grab(size * sizeof(T), size));
    if (!std::is_trivially_default_constructible<T>::value) for (size_t i = 0; i < size; ++i) ::new (p + i) T();
    return p;
}
template <class T> void deallocate(T* p) noexcept {
    if (!p) return;
    MemLog& m = MemLog::get();
    auto i = m.live.find((void*)p);
    if (i == m.live.end()) { ++m.errors; return; }
    MemLog::Block b = i->second;
    if (!std::is_trivially_destructible<T>::value) for (size_t k = 0; k < b.count; ++k) p[k].~T();
    m.drop((void*)p);
    m.bury((void*)p, b.bytes, b.raw);
}
}
