// Reference matrices, generators and readers shared by the harnesses.
// A Ref is the plain mathematical object; every BlasBooster matrix is compared with one.
#pragma once

#include <cassert>
#include <array>
#include <memory>
#include <sstream>
#include <iomanip>
#include <vector>
#include <functional>

#include "pbt.h"

#include "BlasBooster/Core/AllMatrixTypes.h"
#include "BlasBooster/Core/BinaryFunctors.h"
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/Transposition.h"

namespace bb {

using namespace BlasBooster;
using pbt::Ctx;

typedef Parameter<size_t, ColumnMajor> PC;
typedef Parameter<size_t, RowMajor> PR;
typedef Matrix<Dense,float> DeF;
typedef Matrix<Dense,double> DeD;
typedef Matrix<Sparse,float> SpF;
typedef Matrix<Sparse,double> SpD;
typedef Matrix<Zero> ZeM;
typedef MultipleMatrix<SpD,SpF> MuS;
typedef MultipleMatrix<SpD,DeF> MuD;
typedef MultipleMatrix<DeD,DeF> MuDD;

// The release build uses -ffast-math, where x != x is folded away: look at the bits.
inline bool is_finite(double x)
{
    uint64_t b; std::memcpy(&b, &x, 8);
    return (b & 0x7ff0000000000000ull) != 0x7ff0000000000000ull;
}
inline bool is_finite(float x)
{
    uint32_t b; std::memcpy(&b, &x, 4);
    return (b & 0x7f800000u) != 0x7f800000u;
}
template <class T> inline double value_of(T x) { return is_finite(x) ? static_cast<double>(x) : 1e300; }
template <> inline double value_of(int x) { return x; }

struct Ref
{
    size_t r = 0, c = 0;
    std::vector<double> v;                      // column by column
    bool plain = true;                          // small multiples of 1/4, sums of them are exact
    Ref() {}
    Ref(size_t r, size_t c) : r(r), c(c), v(r * c, 0.0) {}
    double& operator () (size_t i, size_t j) { return v[i + j * r]; }
    double operator () (size_t i, size_t j) const { return v[i + j * r]; }
    size_t nnz() const { size_t n = 0; for (double x : v) n += x != 0.0; return n; }
};

inline Ref operator + (Ref const& a, Ref const& b) { Ref o(a); for (size_t i = 0; i < o.v.size(); ++i) o.v[i] += b.v[i]; return o; }
inline Ref operator - (Ref const& a, Ref const& b) { Ref o(a); for (size_t i = 0; i < o.v.size(); ++i) o.v[i] -= b.v[i]; return o; }
inline Ref mul(Ref const& a, Ref const& b)
{
    Ref o(a.r, b.c);
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) {
        double s = 0.0;
        for (size_t k = 0; k < a.c; ++k) s += a(i,k) * b(k,j);
        o(i,j) = s;
    }
    return o;
}
inline Ref trans(Ref const& a) { Ref o(a.c, a.r); o.plain = a.plain; for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) o(j,i) = a(i,j); return o; }
inline Ref sub(Ref const& a, size_t r, size_t c, size_t i0, size_t j0)
{ Ref o(r, c); o.plain = a.plain; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) o(i,j) = a(i0+i,j0+j); return o; }

inline std::string show(Ref const& a)
{
    std::ostringstream os;
    os.precision(17);
    os << a.r << "x" << a.c << " [";
    for (size_t i = 0; i < a.r && i < 12; ++i) {
        for (size_t j = 0; j < a.c && j < 12; ++j) os << (j ? " " : i ? "; " : "") << a(i,j);
    }
    os << "]";
    return os.str();
}

/// Values which float represents exactly and whose sums of products stay exact: multiples of 1/4.
inline double gen_value(Ctx& c, int64_t m = 32) { return static_cast<double>(c.sym(m)) / 4.0; }
inline double gen_nonzero(Ctx& c, int64_t m = 32) { double x = gen_value(c, m); return x == 0.0 ? 0.25 : x; }

/// density class: 0 all zero, 1 sparse, 2 half, 3 full
inline Ref gen_ref(Ctx& c, size_t r, size_t cols, int64_t m = 32)
{
    Ref a(r, cols);
    int d = static_cast<int>(c.below(4));
    size_t of = d == 1 && a.v.size() > 1000 ? c.pick({4, 400, 20000}) : 4;      // long lines with few elements, too
    for (auto& x : a.v) {
        if (d == 0) break;
        if (d == 3 || c.chance(d == 1 ? 1 : of / 2, of)) x = gen_nonzero(c, m);
    }
    c.tag(d == 0 ? "zeros" : d == 1 ? "sparse" : d == 2 ? "half" : "full");
    return a;
}

/// A positive value where every bit of the mantissa can matter: simple fractions, all bits of a float, all bits of a double.
inline double gen_wide(Ctx& c, int exponent = 40)
{
    double m = 1.0;
    switch (c.below(4)) {
        case 0: m += static_cast<double>(c.below(8)) / 8.0; break;
        case 1: m += static_cast<double>(c.below(1u << 23)) / 8388608.0; break;
        case 2: m += static_cast<double>(c.below(1ull << 52)) / 4503599627370496.0; break;
        case 3: m += static_cast<double>(c.below(10)) / 10.0; break;
    }
    return std::ldexp(m, static_cast<int>(c.sym(exponent)));
}
/// the neighbor of a positive double, d representable values further
inline double neighbor(double x, int d) { uint64_t b; std::memcpy(&b, &x, 8); b += static_cast<uint64_t>(static_cast<int64_t>(d)); std::memcpy(&x, &b, 8); return x; }
/// A few wide values together with what is hard to tell from them: neighbors and float roundings.
struct Pool
{
    std::vector<double> base;
    explicit Pool(Ctx& c, int exponent = 40) { size_t n = c.size(1, 4); for (size_t i = 0; i < n; ++i) base.push_back(gen_wide(c, exponent)); }
    double positive(Ctx& c) const
    {
        double x = base[c.below(base.size())];
        switch (c.below(5)) {
            case 1: return neighbor(x, 1);
            case 2: return neighbor(x, -1);
            case 3: return static_cast<double>(static_cast<float>(x));
            case 4: return neighbor(static_cast<double>(static_cast<float>(x)), static_cast<int>(c.sym(2)));
            default: return x;
        }
    }
    double any(Ctx& c) const { double x = positive(c); return c.chance(1, 3) ? -x : x; }
};
inline Ref gen_wide_ref(Ctx& c, size_t r, size_t cols, Pool const& pool)
{
    Ref a(r, cols);
    a.plain = false;
    unsigned d = static_cast<unsigned>(c.below(4));
    for (auto& x : a.v) if (d && c.chance(d, 3)) x = pool.any(c);
    return a;
}
template <class T> inline Ref rounded(Ref a) { for (auto& x : a.v) x = static_cast<double>(static_cast<T>(x)); return a; }

/// a number of rows or columns, now and then none
inline size_t extent(Ctx& c, size_t hi) { return c.size(c.chance(1, 16) ? 0 : 1, c.big(hi)); }

/// lengths around the limits of small integer types
inline size_t gen_long(Ctx& c) { size_t n = c.pick({255, 256, 257, 300, 32768, 65535, 65536, 65537, 70000}); c.tag("long line"); c.bulk(); return n; }
struct Shape { size_t r, n; };
/// many rows and many columns, more than the tiles which a cache or a vector unit suggest
inline size_t gen_many(Ctx& c, size_t hi) { size_t n = c.chance(1, 3) ? c.pick({63, 64, 65, 127, 128, 129, 192}) : c.range(40, hi); return std::min(n, hi); }
/// numbers of rows and columns, rarely those of one or two very long lines (of which only one choice decides the elements)
inline Shape shape_of_lines(Ctx& c)
{
    bool rows = c.chance(1, 2);
    size_t few = c.size(1, 2), many = gen_long(c);
    return rows ? Shape{few, many} : Shape{many, few};
}
inline Shape shape(Ctx& c, size_t hi)
{
    if (c.chance(1, 200)) {
        if (c.chance(2, 3)) return shape_of_lines(c);
        size_t r = gen_many(c, 260), n = gen_many(c, 260);
        c.tag("many lines"); c.bulk();
        return Shape{r, n};
    }
    size_t r = extent(c, hi);
    return Shape{r, extent(c, hi)};
}
inline Ref gen_ref(Ctx& c, Shape s, int64_t m = 32) { return gen_ref(c, s.r, s.n, m); }
inline Ref gen_wide_ref(Ctx& c, Shape s, Pool const& pool) { return gen_wide_ref(c, s.r, s.n, pool); }

/// elements which T represents exactly: small numbers, or with all bits of its mantissa
template <class T> inline Ref gen_exact(Ctx& c, Shape s) { return c.chance(1, 3) ? rounded<T>(gen_wide_ref(c, s, Pool(c))) : gen_ref(c, s); }
template <class T> inline Ref gen_exact(Ctx& c, size_t r, size_t n) { return gen_exact<T>(c, Shape{r, n}); }
template <class T> inline double gen_exact_value(Ctx& c) { return c.chance(1, 3) ? static_cast<double>(static_cast<T>(Pool(c).any(c))) : gen_value(c); }
template <class S, class T> struct Less { typedef float type; };
template <> struct Less<double,double> { typedef double type; };

// ---- operands whose sum or product is exact, whatever the order of the operations --------------
// Besides small numbers: wide ranges of magnitudes (rows and columns scaled by powers of two), and all bits of the
// mantissa in one operand where the other one only selects.

/// how precise an operand is: 53 bits, 24 bits, or (multiple matrices) small numbers only
enum Bits { small_numbers, single_precision, double_precision };
inline double gen_bits(Ctx& c, Pool const& p, Bits b)
{
    if (b == small_numbers) return gen_nonzero(c);
    double x = p.any(c);
    return b == single_precision ? static_cast<double>(static_cast<float>(x)) : x;
}
inline std::vector<double> gen_powers(Ctx& c, size_t n, int exponent = 14) { std::vector<double> s(n); for (auto& x : s) x = std::ldexp(1.0, static_cast<int>(c.sym(exponent))); return s; }
/// how far the elements of a matrix may be away from 1: within small numbers, everything float holds, everything double holds
inline int gen_magnitude(Ctx& c, Bits a, Bits b) { if (c.chance(1, 2)) return 14; return a == double_precision && b == double_precision ? 240 : 28; }
/// dividing by the scale is exact, too
inline void scale(Ref& a, std::vector<double> const& rows, std::vector<double> const& cols, bool divide_rows = false)
{
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) a(i,j) *= (divide_rows ? 1.0 / rows[i] : rows[i]) * cols[j];
    a.plain = false;
}
inline void gen_sum(Ctx& c, size_t r, size_t n, Bits ba, Bits bb, Ref& a, Ref& b)
{
    a = gen_ref(c, r, n); b = gen_ref(c, r, n);
    switch (c.below(4)) {
        case 1: { int e = gen_magnitude(c, ba, bb); auto x = gen_powers(c, r, e), y = gen_powers(c, n, e); scale(a, x, y); scale(b, x, y); c.tag("scaled"); break; }
        case 2: { // each position is of one of the matrices
            Pool p(c);
            for (size_t i = 0; i < a.v.size(); ++i) {
                if (c.chance(1, 2)) { b.v[i] = 0.0; if (a.v[i] != 0.0) a.v[i] = gen_bits(c, p, ba); }
                else { a.v[i] = 0.0; if (b.v[i] != 0.0) b.v[i] = gen_bits(c, p, bb); }
            }
            a.plain = b.plain = false; c.tag("all bits"); break; }
        default: ;
    }
}
/// rows, inner dimension and columns of a product; rarely one of them is very long
inline void product_shape(Ctx& c, size_t hi, size_t& r, size_t& k, size_t& n)
{
    if (c.chance(1, 800)) { r = gen_many(c, 160); k = gen_many(c, 160); n = gen_many(c, 160); c.tag("many lines"); c.bulk(); return; }
    if (c.chance(1, 250)) {
        size_t where = c.below(3), x = c.size(1, 2), y = c.size(1, 2), many = gen_long(c);
        r = where == 0 ? many : x; k = where == 1 ? many : where == 0 ? x : y; n = where == 2 ? many : y;
        return;
    }
    r = c.size(c.chance(1, 12) ? 0 : 1, c.big(hi)); k = c.size(c.chance(1, 12) ? 0 : 1, c.big(hi)); n = c.size(c.chance(1, 12) ? 0 : 1, c.big(hi));
}
/// the elements of factors: the sums must be exact with float, too
inline int64_t factor_range(size_t k) { return k > 200 ? 2 : 32; }
inline void gen_product(Ctx& c, size_t r, size_t k, size_t n, Bits ba, Bits bb, Ref& a, Ref& b)
{
    a = gen_ref(c, r, k, factor_range(k)); b = gen_ref(c, k, n, factor_range(k));
    switch (c.below(4)) {
        case 1: { int e = gen_magnitude(c, ba, bb); auto x = gen_powers(c, r, e), y = gen_powers(c, k, e), z = gen_powers(c, n, e); scale(a, x, y); scale(b, y, z, true); c.tag("scaled"); break; }
        case 2: { // one matrix with all bits, the other one with a power of two per column (row)
            Pool p(c);
            bool left = c.chance(1, 2);
            Ref& f = left ? a : b; Ref& s = left ? b : a;
            for (auto& x : f.v) if (x != 0.0) x = gen_bits(c, p, left ? ba : bb);
            s = Ref(s.r, s.c);
            if (k) for (size_t i = 0; i < (left ? n : r); ++i) if (!c.chance(1, 5)) {
                double x = std::ldexp(c.chance(1, 2) ? 1.0 : -1.0, static_cast<int>(c.sym(10)));
                size_t q = c.below(k);
                if (left) s(q,i) = x; else s(i,q) = x;
            }
            a.plain = b.plain = false; c.tag("all bits"); break; }
        default: ;
    }
}

// ---- building -----------------------------------------------------------------------------

template <class T, class P = Parameter<>>
inline Matrix<Dense,T,P> dense(Ref const& a)
{
    Matrix<Dense,T,P> m(a.r, a.c);
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) m(i,j) = static_cast<T>(a(i,j));
    return m;
}

/// Sparse matrix through the dense-to-sparse conversion of the same orientation
template <class T, class P = Parameter<>>
inline Matrix<Sparse,T,P> sparse(Ref const& a) { return a.r == 0 && a.c == 0 ? Matrix<Sparse,T,P>() : Matrix<Sparse,T,P>(dense<T,P>(a)); }

/// a split of a into two summands with exact sum, element by element
inline void split(Ctx& c, Ref const& a, Ref& x, Ref& y)
{
    x = a; y = Ref(a.r, a.c);
    for (size_t i = 0; i < a.v.size(); ++i) {
        int k = static_cast<int>(c.below(4));
        if (k == 1) { x.v[i] = 0.0; y.v[i] = a.v[i]; }
        if (k == 2 && a.plain) { double t = gen_value(c); x.v[i] = a.v[i] - t; y.v[i] = t; }
    }
}
template <class M> struct Build;
template <class T, class P> struct Build<Matrix<Dense,T,P>> { static std::shared_ptr<Matrix<Dense,T,P>> make(Ctx&, Ref const& a) { return std::make_shared<Matrix<Dense,T,P>>(dense<T,P>(a)); } };
template <class T, class P> struct Build<Matrix<Sparse,T,P>> { static std::shared_ptr<Matrix<Sparse,T,P>> make(Ctx&, Ref const& a) { return std::make_shared<Matrix<Sparse,T,P>>(sparse<T,P>(a)); } };
template <class P> struct Build<Matrix<Zero,NullType,P>> { static std::shared_ptr<Matrix<Zero,NullType,P>> make(Ctx&, Ref const& a) { return std::make_shared<Matrix<Zero,NullType,P>>(a.r, a.c); } };
template <class X, class Y> struct Build<MultipleMatrix<X,Y>> {
    static std::shared_ptr<MultipleMatrix<X,Y>> make(Ctx& c, Ref const& a) {
        Ref x, y; split(c, a, x, y);
        return std::make_shared<MultipleMatrix<X,Y>>(Build<X>::make(c, x), Build<Y>::make(c, y));
    }
};
/// what the type can hold: a Zero matrix only the zero matrix
template <class M> struct IsZeroType : std::false_type {};
template <class P> struct IsZeroType<Matrix<Zero,NullType,P>> : std::true_type {};
template <class M> inline Ref holdable(Ref a) { if (IsZeroType<M>::value) std::fill(a.v.begin(), a.v.end(), 0.0); return a; }

template <class M> struct BitsOf { static constexpr Bits value = small_numbers; };
inline Bits less_precise(Bits a, Bits b) { return a < b ? a : b; }
template <class P> struct BitsOf<Matrix<Dense,double,P>> { static constexpr Bits value = double_precision; };
template <class P> struct BitsOf<Matrix<Sparse,double,P>> { static constexpr Bits value = double_precision; };
template <class P> struct BitsOf<Matrix<Dense,float,P>> { static constexpr Bits value = single_precision; };
template <class P> struct BitsOf<Matrix<Sparse,float,P>> { static constexpr Bits value = single_precision; };

template <class P> inline std::string parameter_name()
{
    std::string s;
    if (std::is_same<typename P::orientation,RowMajor>::value) s += ",row";
    if (!std::is_same<typename P::IndexType,size_t>::value) s += ",index of " + std::to_string(sizeof(typename P::IndexType)) + " bytes";
    if (P::isFixed) s += P::onStack ? ",stack" : ",fixed";
    if (!std::is_same<typename P::NormType,NormTwo>::value) s += ",norm";
    return s;
}
template <class M> struct Name;
template <class T, class P> struct Name<Matrix<Dense,T,P>> { static std::string s() { return std::string("Dense<") + (sizeof(T)==4?"float":"double") + parameter_name<P>() + ">"; } };
template <class T, class P> struct Name<Matrix<Sparse,T,P>> { static std::string s() { return std::string("Sparse<") + (sizeof(T)==4?"float":"double") + parameter_name<P>() + ">"; } };
template <class P> struct Name<Matrix<Zero,NullType,P>> { static std::string s() { std::string n = parameter_name<P>(); return n.empty() ? "Zero" : "Zero<" + n.substr(1) + ">"; } };

// ---- other parameters: index types, fixed size, storage on the stack, norms -------------------
typedef Parameter<int> PI;
typedef Parameter<unsigned,RowMajor> PUR;
typedef Parameter<size_t,ColumnMajor,VariableSize,NoLeadingDimension,NoUnblockedDimension,NormOne> PN;
template <size_t R, size_t N, class O = ColumnMajor> using PF = Parameter<size_t,O,FixedSize<R,N>>;
template <size_t R, size_t N, class O = ColumnMajor> using PS = Parameter<size_t,O,FixedSize<R,N>,NoLeadingDimension,NoUnblockedDimension,NormTwo,OnStack>;
template <class S> struct FixedDims { static constexpr size_t r = 0, c = 0; };
template <size_t R, size_t N> struct FixedDims<FixedSize<R,N>> { static constexpr size_t r = R, c = N; };
/// the dimensions of matrices of type M: any, or those of the type
template <class M> inline void fix(size_t& r, size_t& n) { if (M::parameter::isFixed) { r = FixedDims<typename M::parameter::SizeType>::r; n = FixedDims<typename M::parameter::SizeType>::c; } }
template <class X, class Y> struct Name<MultipleMatrix<X,Y>> { static std::string s() { return "Multiple<" + Name<X>::s() + "," + Name<Y>::s() + ">"; } };

// ---- reading ------------------------------------------------------------------------------

template <class T, class P>
inline Ref to_ref(Matrix<Dense,T,P> const& m)
{
    Ref a(m.getNbRows(), m.getNbColumns());
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) a(i,j) = value_of(m(i,j));
    return a;
}
/// also checks that the three arrays form a sparse matrix
template <class T, class P>
inline Ref to_ref(Matrix<Sparse,T,P> const& m)
{
    bool row = std::is_same<typename P::orientation, RowMajor>::value;
    Ref a(m.getNbRows(), m.getNbColumns());
    size_t outer = row ? a.r : a.c, inner = row ? a.c : a.r;
    REQUIRE(static_cast<size_t>(m.endOffset() - m.beginOffset()) == outer + 1, "sparse matrix " << a.r << "x" << a.c << " has "
        << (m.endOffset() - m.beginOffset()) << " offsets");
    REQUIRE(m.beginOffset()[0] == 0, "first offset is " << m.beginOffset()[0]);
    for (size_t o = 0; o < outer; ++o) {
        size_t b = m.beginOffset()[o], e = m.beginOffset()[o+1];
        REQUIRE(b <= e && e <= m.nnz() && e - b <= inner, "offsets of line " << o << ": " << b << ".." << e << " of " << m.nnz());
        for (size_t k = b; k < e; ++k) {
            size_t key = m.beginKey()[k];
            REQUIRE(key < inner, "key " << key << " out of range in line " << o);
            REQUIRE(k == b || m.beginKey()[k-1] < key, "keys of line " << o << " not increasing");
            (row ? a(o,key) : a(key,o)) = value_of(m.begin()[k]);
        }
    }
    REQUIRE(m.beginOffset()[outer] == m.nnz(), "the sparse matrix says it has " << m.nnz() << " elements but its offsets end at "
        << m.beginOffset()[outer]);
    return a;
}
template <class P>
inline Ref to_ref(Matrix<Zero,NullType,P> const& m) { return Ref(m.getNbRows(), m.getNbColumns()); }
template <class X, class Y>
inline Ref to_ref(MultipleMatrix<X,Y> const& m) { return to_ref(m.getMatrix1()) + to_ref(m.getMatrix2()); }

inline Ref to_ref(DynamicMatrix const& d)
{
    REQUIRE(d, "null dynamic matrix");
    switch (d->getTypeIndex()) {
        case 0: return to_ref(*std::dynamic_pointer_cast<ZeM>(d));
        case 1: return to_ref(*std::dynamic_pointer_cast<SpF>(d));
        case 2: return to_ref(*std::dynamic_pointer_cast<DeF>(d));
        case 3: return to_ref(*std::dynamic_pointer_cast<SpD>(d));
        case 4: return to_ref(*std::dynamic_pointer_cast<MuS>(d));
        case 5: return to_ref(*std::dynamic_pointer_cast<MuD>(d));
        case 6: return to_ref(*std::dynamic_pointer_cast<DeD>(d));
    }
    REQUIRE(false, "type index " << d->getTypeIndex() << " out of range");
    return Ref();
}

inline Bits kind_bits(size_t k) { return k == 3 || k == 6 ? double_precision : k == 1 || k == 2 ? single_precision : small_numbers; }
inline const char* kind_name(size_t k)
{
    static const char* n[] = {"Zero", "Sparse<float>", "Dense<float>", "Sparse<double>", "Multiple<SpD,SpF>", "Multiple<SpD,DeF>", "Dense<double>"};
    return k < 7 ? n[k] : "?";
}
/// any values which type number k of the type list can hold, of simple numbers or of all bits
inline Ref gen_dyn_ref(Ctx& c, size_t k, size_t r, size_t n)
{
    if (k == 0) return Ref(r, n);
    if (c.chance(1, 2)) return gen_ref(c, r, n);
    Ref a = gen_wide_ref(c, r, n, Pool(c));
    if (kind_bits(k) == double_precision) return a;
    bool plain = a.plain; a = rounded<float>(a); a.plain = plain;
    return a;
}
/// dynamic matrix of type number k of the type list
inline DynamicMatrix make_dyn(Ctx& c, size_t k, Ref const& a)
{
    switch (k) {
        case 0: return Build<ZeM>::make(c, a);
        case 1: return Build<SpF>::make(c, a);
        case 2: return Build<DeF>::make(c, a);
        case 3: return Build<SpD>::make(c, a);
        case 4: return Build<MuS>::make(c, a);
        case 5: return Build<MuD>::make(c, a);
        default: return Build<DeD>::make(c, a);
    }
}

/// other elements for the same object of type number k
inline bool assign_dyn(Ctx& c, size_t k, DynamicMatrix const& m, Ref const& a)
{
    DynamicMatrix n = make_dyn(c, k, a);
    switch (k) {
        case 1: static_cast<SpF&>(*m) = static_cast<SpF const&>(*n); return true;
        case 2: static_cast<DeF&>(*m) = static_cast<DeF const&>(*n); return true;
        case 3: static_cast<SpD&>(*m) = static_cast<SpD const&>(*n); return true;
        case 6: static_cast<DeD&>(*m) = static_cast<DeD const&>(*n); return true;
    }
    return false;
}

// ---- comparing ----------------------------------------------------------------------------

inline void require_same(Ref const& got, Ref const& want, std::string const& what, double tol = 0.0)
{
    REQUIRE(got.r == want.r && got.c == want.c, what << ": result is " << got.r << "x" << got.c << " instead of " << want.r << "x" << want.c);
    for (size_t j = 0; j < got.c; ++j) for (size_t i = 0; i < got.r; ++i) {
        double d = got(i,j) - want(i,j);
        if (d < 0) d = -d;
        if (d > tol) {
            std::ostringstream os;
            os.precision(17);
            os << what << ": element (" << i << "," << j << ") is " << got(i,j) << " instead of " << want(i,j);
            throw pbt::Failure{os.str()};
        }
    }
}

} // namespace bb
