// Stand-in for the part of blaze the multiplications use: views of column-major arrays and their
// product. As in blaze, arrays viewed as aligned have to be aligned column by column and arrays
// viewed as padded need room for full SIMD vectors (32 bytes) in every column; otherwise the
// construction throws. An overrun of the array shows up as an error of the recorded memory.
#pragma once
#include "blaze/util/Memory.h"
#include <stdexcept>
namespace blaze {
constexpr bool aligned = true, unaligned = false, padded = true, unpadded = false, columnMajor = true, rowMajor = false;
template <class A, class B> struct Product { A const& a; B const& b; };
template <class T, bool AF, bool PF, bool SO = rowMajor> struct CustomMatrix {
    T* p; size_t m, n, nn;
    CustomMatrix(T* p_, size_t m_, size_t n_, size_t nn_) : p(p_), m(m_), n(n_), nn(nn_) {
        const size_t simd = 32 / sizeof(T), inner = SO ? m : n;
        if (!p) throw std::invalid_argument("Invalid array of elements");
        if (nn < inner) throw std::invalid_argument("Invalid spacing detected");
        if (AF && ((size_t)p % 32 || nn % simd)) throw std::invalid_argument("Invalid alignment detected");
        if (PF && nn < (inner + simd - 1) / simd * simd) throw std::invalid_argument("Insufficient capacity for padded matrix");
    }
    CustomMatrix(T* p_, size_t m_, size_t n_) : CustomMatrix(p_, m_, n_, SO ? m_ : n_) { static_assert(!PF, "padded views need the spacing"); }
    size_t rows() const { return m; }
    size_t columns() const { return n; }
    T& operator () (size_t i, size_t j) { return p[SO ? i + j * nn : i * nn + j]; }
    T const& operator () (size_t i, size_t j) const { return p[SO ? i + j * nn : i * nn + j]; }
    template <class A, class B> CustomMatrix& operator = (Product<A, B> const& x) {
        if (x.a.rows() != m || x.b.columns() != n) throw std::invalid_argument("Matrix sizes do not match");
        std::vector<T> r(m * n);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) { T s = 0; for (size_t k = 0; k < x.a.columns(); ++k) s += x.a(i, k) * x.b(k, j); r[i + j * m] = s; }
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) (*this)(i, j) = r[i + j * m];
        return *this;
    }
};
template <class T, bool A, bool P, bool S, class U, bool B, bool Q, bool R>
Product<CustomMatrix<T, A, P, S>, CustomMatrix<U, B, Q, R>> operator * (CustomMatrix<T, A, P, S> const& a, CustomMatrix<U, B, Q, R> const& b) {
    if (a.columns() != b.rows()) throw std::invalid_argument("Matrix sizes do not match");
    return {a, b};
}
}
