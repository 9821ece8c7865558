// Recording stand-in for a BLAS library: values are reduced to integer tokens.
#pragma once
#include <complex>
#include <string>
#include <vector>
struct Rec { std::string sym; std::vector<long long> seen; };
inline long long token(char t, void* p) {
    switch (t | 32) {
        case 'h': return *(char*)p;
        case 'i': return *(int*)p;
        case 'f': return (long long)*(float*)p;
        case 'd': return (long long)*(double*)p;
        case 'c': return (long long)((std::complex<float>*)p)->real();
        default: return (long long)((std::complex<double>*)p)->real();
    }
}
inline void store(char t, void* p, long long v, int n = 1) {
    for (int i = 0; i < n; ++i) switch (t | 32) {
        case 'h': ((char*)p)[i] = (char)v; break;
        case 'i': ((int*)p)[i] = (int)v; break;
        case 'f': ((float*)p)[i] = (float)v; break;
        case 'd': ((double*)p)[i] = (double)v; break;
        case 'c': ((std::complex<float>*)p)[i] = std::complex<float>((float)v, (float)-v); break;
        default: ((std::complex<double>*)p)[i] = std::complex<double>((double)v, (double)-v); break;
    }
}
#ifndef BLAS_CALLER
std::vector<Rec> boundary;
static void record(char const* sym, char const* types, void** a) {
    Rec r; r.sym = sym;
    for (int i = 0; types[i]; ++i) r.seen.push_back(token(types[i], a[i]));
    boundary.push_back(r);
    for (int i = 0; types[i]; ++i) if (types[i] < 'a') store(types[i], a[i], types[i] == 'H' ? 90 : 301 + i);
}
#else
extern std::vector<Rec> boundary;
#endif
