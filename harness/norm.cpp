// Norms of every type of matrix.
#include "bbgen.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
using namespace bb;

namespace {

enum { ONE, TWO, MAX };
const char* norm_name(int n) { return n == ONE ? "NormOne" : n == TWO ? "NormTwo" : "NormMax"; }

double ref_norm(Ref const& a, int n)
{
    long double s = 0.0L;
    for (double x : a.v) {
        long double y = x < 0 ? -x : x;
        if (n == ONE) s += y;
        if (n == TWO) s += y * y;
        if (n == MAX) s = s < y ? y : s;
    }
    return static_cast<double>(n == TWO ? sqrtl(s) : s);
}

template <class M> double get_norm(M const& m, int n) { return n == ONE ? norm<NormOne>(m) : n == TWO ? norm<NormTwo>(m) : norm<NormMax>(m); }

void close(double got, double want, std::string const& what, double rel = 1e-10)
{
    double d = got - want, t = rel * (want < 0 ? -want : want);
    REQUIRE(is_finite(got) && (d < 0 ? -d : d) <= t, what << " is " << got << " instead of " << want);
}

/// small values, values of very different size, values where every bit matters
Ref gen_wild(Ctx& c, size_t r, size_t n)
{
    switch (c.below(4)) {
        case 1: c.tag("all bits"); return gen_wide_ref(c, r, n, Pool(c));
        case 2: c.tag("very large or small"); return gen_wide_ref(c, r, n, Pool(c, 100));
        case 3: { Ref a = gen_ref(c, r, n); for (auto& x : a.v) x = std::ldexp(x, static_cast<int>(c.range(0, 40)) - 20); c.tag("different sizes"); return a; }
        default: return gen_ref(c, r, n);
    }
}
Ref gen_wild(Ctx& c, Shape s) { return gen_wild(c, s.r, s.n); }

/// the norm has no rounding error, whatever the order of the operations
bool exact_norm(Ref const& a, int n)
{
    if (n == MAX || a.nnz() == 0) return true;
    if (n == TWO && a.nnz() > 1) return false;
    for (double x : a.v) if (x < -1e6 || x > 1e6 || x * 64 != std::floor(x * 64)) return false;
    return true;
}

template <class M, class = void> struct HasSmaller : std::false_type {};
template <class M> struct HasSmaller<M, decltype(void(std::declval<M const&>().isNormSmallerThan(0.0)))> : std::true_type {};

/// "larger" and "smaller" are strict: the norm itself is neither
template <class M>
void strict(M const& m, Ref const& v, int n, std::string const& what)
{
    if (!exact_norm(v, n)) return;
    double want = ref_norm(v, n);
    REQUIRE(!m.isNormLargerThan(want), what << ": norm " << want << " is larger than itself");
    if constexpr (HasSmaller<M>::value) REQUIRE(!m.isNormSmallerThan(want), what << ": norm " << want << " is smaller than itself");
}

/// also for isNormLargerThan etc., at values clearly above and below the norm
template <class M>
void thresholds(M const& m, double want, std::string const& what)
{
    REQUIRE(!m.isNormLargerThan(want * (1 + 1e-9) + 1e-30), what << ": norm " << want << " is larger than " << want * (1 + 1e-9) + 1e-30);
    if (want > 0.0) REQUIRE(m.isNormLargerThan(want * (1 - 1e-9)), what << ": norm " << want << " is not larger than " << want * (1 - 1e-9));
    if (want > 0.0) REQUIRE(m.isNormLargerThan(0.0), what << ": norm " << want << " is not larger than 0");
}
template <class M>
void smaller(M const& m, double want, std::string const& what)
{
    REQUIRE(m.isNormSmallerThan(want * (1 + 1e-9) + 1e-30), what << ": norm " << want << " is not smaller than " << want * (1 + 1e-9) + 1e-30);
    REQUIRE(!m.isNormSmallerThan(want * (1 - 1e-9)), what << ": norm " << want << " is smaller than " << want * (1 - 1e-9));
}

template <class M>
void type_law(Ctx& c)
{
    Ref v = holdable<M>(gen_wild(c, shape(c, 8)));
    c.tag(Name<M>::s());
    c.log() << Name<M>::s() << " " << show(v);
    c.nontrivial(v.nnz() > 1);
    auto m = Build<M>::make(c, v);
    v = to_ref(*m);
    for (int n : {ONE, TWO, MAX}) {
        c.step(norm_name(n));
        close(get_norm(*m, n), ref_norm(v, n), std::string(norm_name(n)) + " of " + Name<M>::s());
    }
    c.step("getNorm");
    double want = ref_norm(v, TWO);
    close(m->getNorm(), want, "getNorm of " + Name<M>::s());
    close(m->getNorm(), want, "getNorm, again, of " + Name<M>::s());
    thresholds(*m, want, Name<M>::s());
    strict(*m, v, TWO, Name<M>::s());
    require_same(to_ref(*m), v, "the matrix afterwards");
}

/// the norm chosen by the parameters of the matrix
template <class T, class O, class N>
void parameter_law(Ctx& c, int n)
{
    typedef Parameter<size_t,O,VariableSize,NoLeadingDimension,NoUnblockedDimension,N> P;
    Ref v = rounded<T>(gen_wild(c, shape(c, 8)));
    c.log() << (c.chance(1, 2) ? "smaller" : "larger") << " first, " << norm_name(n) << " " << show(v);
    c.nontrivial(v.nnz() > 1);
    double want = ref_norm(v, n);
    auto d = dense<T,P>(v);
    c.step("dense");
    smaller(d, want, "dense");
    thresholds(d, want, "dense");
    strict(d, v, n, "dense");
    close(d.getNorm(), want, std::string(norm_name(n)) + " by parameter of Dense");
    c.step("sparse");
    Matrix<Sparse,T,P> s(d);
    thresholds(s, want, "sparse");
    smaller(s, want, "sparse");
    strict(s, v, n, "sparse");
    close(s.getNorm(), want, std::string(norm_name(n)) + " by parameter of Sparse");
}

typedef void (*Fn)(Ctx&);
typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Sparse,float,PR> SpFR;
typedef Matrix<Sparse,double,PR> SpDR;

} // namespace

LAW("norms of every type", 0.6)
{
    static std::vector<Fn> t = {type_law<DeD>, type_law<DeF>, type_law<SpD>, type_law<SpF>, type_law<ZeM>, type_law<MuS>, type_law<MuD>,
        type_law<DeDR>, type_law<DeFR>, type_law<SpDR>, type_law<SpFR>};
    c.pick(t)(c);
}
LAW("norm by parameter", 0.3)
{
    switch (c.below(6)) {
        case 0: return parameter_law<double,ColumnMajor,NormOne>(c, ONE);
        case 1: return parameter_law<double,ColumnMajor,NormTwo>(c, TWO);
        case 2: return parameter_law<double,ColumnMajor,NormMax>(c, MAX);
        case 3: return parameter_law<float,RowMajor,NormOne>(c, ONE);
        case 4: return parameter_law<float,RowMajor,NormTwo>(c, TWO);
        default: return parameter_law<float,RowMajor,NormMax>(c, MAX);
    }
}
LAW("norms of dynamic matrices", 0.4)
{
    size_t k = c.below(7);
    Ref v = gen_wild(c, shape(c, 8));
    if (k == 0) v = Ref(v.r, v.c);
    c.tag(kind_name(k));
    c.log() << kind_name(k) << " " << show(v);
    c.nontrivial(v.nnz() > 1);
    DynamicMatrix m = make_dyn(c, k, v);
    v = to_ref(m);
    for (int n : {ONE, TWO, MAX}) {
        c.step(norm_name(n));
        close(get_norm(m, n), ref_norm(v, n), std::string(norm_name(n)) + " of dynamic " + kind_name(k));
    }
    double want = ref_norm(v, TWO);
    c.step("getNorm");
    close(getNorm(m), want, std::string("getNorm of dynamic ") + kind_name(k));
    REQUIRE(!isNormLargerThan(m, want * (1 + 1e-9) + 1e-30), "norm " << want << " is larger than " << want * (1 + 1e-9) + 1e-30);
    if (want > 0.0) REQUIRE(isNormLargerThan(m, want * (1 - 1e-9)), "norm " << want << " is not larger than " << want * (1 - 1e-9));
    if (exact_norm(v, TWO)) REQUIRE(!isNormLargerThan(m, want), "norm " << want << " is larger than itself");
}
LAW("norms of blocked matrices", 0.3)
{
    size_t br = c.size(1, 3), bc = c.size(1, 3);
    std::vector<size_t> rows(br), cols(bc);
    size_t r = 0, n = 0;
    for (auto& x : rows) r += x = c.size(1, 4);
    for (auto& x : cols) n += x = c.size(1, 4);
    Ref all(r, n);
    BlockedDenseMatrix m(br, bc, r, n);
    for (size_t i = 0, i0 = 0; i < br; i0 += rows[i++]) for (size_t j = 0, j0 = 0; j < bc; j0 += cols[j++]) {
        size_t k = c.below(7);
        Ref v = gen_wild(c, rows[i], cols[j]);
        if (k == 0) v = Ref(v.r, v.c);
        m(i,j) = make_dyn(c, k, v);
        v = to_ref(m(i,j));
        for (size_t x = 0; x < v.r; ++x) for (size_t y = 0; y < v.c; ++y) all(i0+x,j0+y) = v(x,y);
    }
    c.log() << br << "x" << bc << " blocks of " << show(all);
    c.nontrivial(br * bc > 1 && all.nnz() > 1);
    for (int k : {ONE, TWO, MAX}) {
        c.step(norm_name(k));
        close(get_norm(m, k), ref_norm(all, k), std::string(norm_name(k)) + " of a blocked matrix");
    }
    c.step("getNorm");
    close(m.getNorm(), ref_norm(all, TWO), "getNorm of a blocked matrix");
}
LAW("norms of sub-matrices", 0.3)
{
    typedef Matrix<Dense,double,Parameter<size_t,ColumnMajor,VariableSize,LeadingDimension>> Sub;
    Ref v = gen_wild(c, shape(c, 8));
    size_t r = std::min(v.r, extent(c, 8)), n = std::min(v.c, extent(c, 8)), i0 = c.size(0, v.r - r), j0 = c.size(0, v.c - n);
    c.log() << "rows " << i0 << "+" << r << ", columns " << j0 << "+" << n << " of " << show(v);
    DeD d = dense<double>(v);
    Ref w = sub(v, r, n, i0, j0);
    c.nontrivial(w.nnz() > 1);
    Sub s(d, r, n, i0, j0);
    for (int k : {ONE, TWO, MAX}) {
        c.step(norm_name(k));
        close(get_norm(s, k), ref_norm(w, k), std::string(norm_name(k)) + " of a sub-matrix");
    }
    close(s.getNorm(), ref_norm(w, TWO), "getNorm of a sub-matrix");
}
LAW("norm laws", 0.3)
{
    Ref a = gen_wild(c, shape(c, 6)), b = gen_wild(c, a.r, a.c);
    double s = std::ldexp(c.chance(1, 2) ? -1.0 : 1.0, static_cast<int>(c.range(0, 8)) - 4);
    c.log() << show(a) << " + " << show(b) << ", times " << s;
    c.nontrivial(a.nnz() > 0 && b.nnz() > 0);
    DeD x = dense<double>(a), y = dense<double>(b), z = x + y, k = dense<double>(a);
    for (auto& e : k) e *= s;
    for (int n : {ONE, TWO, MAX}) {
        double nx = get_norm(x, n), ny = get_norm(y, n), nz = get_norm(z, n), nk = get_norm(k, n), nt = get_norm(transpose(x), n), nsp = get_norm(SpD(x), n);
        REQUIRE(nz <= (nx + ny) * (1 + 1e-12), norm_name(n) << ": triangle inequality");
        close(nk, nx * (s < 0 ? -s : s), std::string(norm_name(n)) + ": of the scaled matrix");
        close(nt, nx, std::string(norm_name(n)) + ": of the transposed matrix");
        close(nsp, nx, std::string(norm_name(n)) + ": of the sparse matrix");
        REQUIRE((nx == 0.0) == (a.nnz() == 0), norm_name(n) << " is " << nx);
    }
}
