#pragma once
#define BLAS_CALLER
#include "blas_boundary.h"
#include "drv.h"
struct Entry { char const* name; char const* types; void (*call)(void**, long long*); std::string (*self)(); };
inline void boundary_json(Ev& e) {
    std::string s = "["; bool f = true;
    for (auto& r : boundary) {
        if (!f) s += ","; f = false;
        s += "{\"sym\":" + Ev::quote(r.sym) + ",\"seen\":[";
        for (size_t i = 0; i < r.seen.size(); ++i) s += (i ? "," : "") + std::to_string(r.seen[i]);
        s += "]}";
    }
    e.raw("log", s + "]");
}
inline int run_calls(Entry* table, size_t n, char const* backend, void (*threads)(int)) {
    static char buffers[32][8 * 16] __attribute__((aligned(16)));
    return drive([=](Tok const& t) {
        boundary.clear();
        if (t[0] == "threads") {
            threads((int)num(t[1]));
            Ev e("threads"); e.str("backend", backend).i("k", num(t[1])); boundary_json(e); e.emit();
            return;
        }
        if (t[0] != "call") bad_script(t[0]);
        for (size_t k = 0; k < n; ++k) if (t[1] == table[k].name) {
            size_t m = std::strlen(table[k].types);
            if (t.size() != m + 2) bad_script("arity");
            void* a[32]; std::vector<long long> v, post;
            for (size_t i = 0; i < m; ++i) {
                a[i] = buffers[i]; v.push_back(num(t[i + 2]));
                store(table[k].types[i], a[i], v.back(), 8);
            }
            long long r[2] = {0, 0};
            table[k].call(a, r);
            for (size_t i = 0; i < m; ++i) post.push_back(token(table[k].types[i], a[i]));
            Ev e("call"); e.str("backend", backend).str("f", t[1]).list("vals", v).list("post", post).i("ret", r[0]).i("ret2", r[1]).str("name", table[k].self());
            boundary_json(e); e.emit();
            return;
        }
        bad_script(t[1]);
    }, [] {});
}
