// Stand-in for blaze/Math.h (https://bitbucket.org/blaze-lib/blaze), which is not installed here: the documented
// interface of CustomMatrix as far as BlasBooster uses it, for an AVX machine. The constructor refuses what the
// documentation of the class says it refuses:
//   - the passed pointer is a null pointer;
//   - the alignment flag is set to aligned, but the pointer is not aligned for the instruction set, or the spacing
//     is not a multiple of the SIMD size;
//   - the padding flag is set to padded, but the spacing is insufficient for the instruction set;
//   - the spacing is smaller than the number of rows (column-major) or columns (row-major).
// The product is the mathematical one; assigning to a matrix of another size is refused.
#pragma once

#include "blaze/util/Memory.h"
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <utility>
#include <vector>

namespace blaze {

enum AlignmentFlag : bool { unaligned = false, aligned = true };
enum PaddingFlag : bool { unpadded = false, padded = true };
const bool rowMajor = false, columnMajor = true;

template <class A, class B> struct Product { A const& a; B const& b; };

template <typename T, AlignmentFlag AF, PaddingFlag PF, bool SO = rowMajor>
class CustomMatrix
{
    static constexpr std::size_t simd = 32 / sizeof(T);
public:
    typedef T ElementType;

    CustomMatrix(T* p, std::size_t m, std::size_t n, std::size_t nn) : p(p), m(m), n(n), nn(nn) { check(); }
    CustomMatrix(T* p, std::size_t m, std::size_t n) : p(p), m(m), n(n), nn(SO == columnMajor ? m : n)
    {
        static_assert(PF == unpadded, "a padded matrix needs its spacing");
        check();
    }
    CustomMatrix(CustomMatrix const&) = default;

    std::size_t rows() const { return m; }
    std::size_t columns() const { return n; }
    std::size_t spacing() const { return nn; }
    T& operator()(std::size_t i, std::size_t j) { return p[SO == columnMajor ? j * nn + i : i * nn + j]; }
    T const& operator()(std::size_t i, std::size_t j) const { return p[SO == columnMajor ? j * nn + i : i * nn + j]; }

    template <class A, class B>
    CustomMatrix& operator = (Product<A,B> const& x)
    {
        if (m != x.a.rows() || n != x.b.columns()) throw std::invalid_argument("Invalid assignment to custom matrix");
        std::vector<T> r(m * n);                // the operands may be this matrix
        for (std::size_t i = 0; i < m; ++i) for (std::size_t j = 0; j < n; ++j) {
            typedef decltype(typename A::ElementType() * typename B::ElementType()) S;
            S s = 0;
            for (std::size_t k = 0; k < x.a.columns(); ++k) s += x.a(i, k) * x.b(k, j);
            r[i * n + j] = static_cast<T>(s);
        }
        for (std::size_t i = 0; i < m; ++i) for (std::size_t j = 0; j < n; ++j) (*this)(i, j) = r[i * n + j];
        if (PF == padded)                       // the padding elements are set to zero
            for (std::size_t j = 0; j < (SO == columnMajor ? n : m); ++j)
                for (std::size_t i = SO == columnMajor ? m : n; i < nn; ++i) p[j * nn + i] = T();
        return *this;
    }

private:
    void check() const
    {
        std::size_t need = SO == columnMajor ? m : n;
        if (p == nullptr) throw std::invalid_argument("Invalid array of elements");
        if (AF == aligned && reinterpret_cast<std::uintptr_t>(p) % 32 != 0) throw std::invalid_argument("Invalid alignment detected");
        if (AF == aligned && nn % simd != 0) throw std::invalid_argument("Invalid alignment detected");
        if (PF == padded && nn < (need + simd - 1) / simd * simd) throw std::invalid_argument("Insufficient capacity for padded matrix");
        if (nn < need) throw std::invalid_argument("Invalid spacing");
    }

    T* p;
    std::size_t m, n, nn;
};

template <class T1, AlignmentFlag A1, PaddingFlag P1, bool S1, class T2, AlignmentFlag A2, PaddingFlag P2, bool S2>
Product<CustomMatrix<T1,A1,P1,S1>, CustomMatrix<T2,A2,P2,S2>> operator * (CustomMatrix<T1,A1,P1,S1> const& a, CustomMatrix<T2,A2,P2,S2> const& b)
{
    if (a.columns() != b.rows()) throw std::invalid_argument("Matrix sizes do not match");
    return {a, b};
}

} // namespace blaze
