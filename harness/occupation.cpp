// Number of significant elements and occupation of every type of matrix, for every value checker.
#include "bbgen.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/Occupation.h"
using namespace bb;

namespace {

typedef AbsoluteValueRangeChecker<double> Above;
typedef AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound> EI;
typedef AbsoluteValueRangeChecker<double,InclusiveBound,InclusiveBound> II;
typedef AbsoluteValueRangeChecker<double,ExclusiveBound,ExclusiveBound> EE;

/// what the checkers mean, written down independently; zero is never significant here
struct Range { int kind; double lo, hi; };
bool in(Range const& k, double x)
{
    double a = x < 0 ? -x : x;
    if (a == 0.0) return false;
    switch (k.kind) {
        case 0: return a > k.lo;
        case 1: return a > k.lo && a <= k.hi;
        case 2: return a >= k.lo && a <= k.hi;
        default: return a > k.lo && a < k.hi;
    }
}
Range gen_range(Ctx& c)
{
    Range k;
    k.kind = static_cast<int>(c.below(4));
    k.lo = static_cast<double>(c.below(16)) / 4.0;         // on the values, so that the bounds matter
    k.hi = k.lo + static_cast<double>(1 + c.below(16)) / 4.0;
    if (k.kind == 2) { k.lo += 0.25; if (c.chance(1, 4)) k.hi = k.lo; else k.hi += 0.25; }
    return k;
}
std::ostream& operator << (std::ostream& os, Range const& k)
{
    os << (k.kind == 2 ? "[" : "(") << k.lo;
    if (k.kind) os << "," << k.hi << (k.kind == 3 ? ")" : "]"); else os << ",...";
    return os;
}
template <class F> auto with(Range const& k, F f)
{
    switch (k.kind) {
        case 0: return f(Above(k.lo));
        case 1: return f(EI(k.lo, k.hi));
        case 2: return f(II(k.lo, k.hi));
        default: return f(EE(k.lo, k.hi));
    }
}
size_t count(Ref const& v, Range const& k) { size_t n = 0; for (double x : v.v) n += in(k, x); return n; }

/// the share of n of all elements, nothing of an empty matrix
double share(size_t n, size_t of) { return of ? static_cast<double>(n) / static_cast<double>(of) : 0.0; }

void near(double got, double want, std::string const& what)
{
    double d = got - want;
    REQUIRE((d < 0 ? -d : d) < 1e-12, what << " is " << got << " instead of " << want);
}

template <class M>
void type_law(Ctx& c)
{
    Ref v = holdable<M>(gen_ref(c, shape(c, 8), 20));
    Range k = gen_range(c);
    c.tag(Name<M>::s());
    c.log() << Name<M>::s() << " " << k << " " << show(v);
    auto m = Build<M>::make(c, v);
    size_t n = count(v, k), size = v.v.size();
    c.nontrivial(n > 0 && n < v.nnz());
    c.step("count");
    with(k, [&](auto const& checker) {
        size_t got = m->getNbOfSignificantElements(checker);
        REQUIRE(got == n, Name<M>::s() << ": " << got << " significant elements instead of " << n);
        double occ = share(n, size);
        near(m->getOccupation(checker), occ, Name<M>::s() + ": occupation");
        REQUIRE(!m->isOccupationLargerThan(occ + 1e-9, checker), Name<M>::s() << ": occupation " << occ << " is larger than " << occ + 1e-9);
        REQUIRE(m->isOccupationLargerThan(occ - 1e-9, checker), Name<M>::s() << ": occupation " << occ << " is not larger than " << occ - 1e-9);
        return 0;
    });
    require_same(to_ref(*m), v, "the matrix afterwards");
}

typedef void (*Fn)(Ctx&);
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Sparse,double,PR> SpDR;

/// values and bounds where every bit matters; a value of a float matrix is rounded before it is judged
Range gen_wide_range(Ctx& c, Pool const& pool)
{
    Range k;
    k.kind = static_cast<int>(c.below(4));
    k.lo = pool.positive(c);
    k.hi = pool.positive(c);
    if (k.lo > k.hi) std::swap(k.lo, k.hi);
    if (k.kind != 2 && k.lo == k.hi) k.hi = neighbor(k.lo, 1);
    return k;
}
template <class M>
void wide_law(Ctx& c)
{
    typedef typename M::value_type T;
    Pool pool(c);
    Ref v = rounded<T>(gen_wide_ref(c, shape(c, 6), pool));
    Range k = gen_wide_range(c, pool);
    c.tag(Name<M>::s());
    c.log() << std::setprecision(17) << Name<M>::s() << " " << k << " " << show(v);
    auto m = Build<M>::make(c, v);
    size_t n = count(v, k);
    c.nontrivial(n > 0 && n < v.nnz());
    with(k, [&](auto const& checker) {
        c.step("getNbOfSignificantElements");
        size_t got = m->getNbOfSignificantElements(checker);
        REQUIRE(got == n, Name<M>::s() << ": " << got << " significant elements instead of " << n);
        c.step("countDesiredElements");
        got = countDesiredElements(*m, checker);
        REQUIRE(got == n, Name<M>::s() << ": " << got << " counted elements instead of " << n);
        near(m->getOccupation(checker), share(n, v.v.size()), Name<M>::s() + ": occupation");
        return 0;
    });
}

} // namespace

LAW("significant elements where every bit matters", 0.5)
{
    static std::vector<Fn> t = {wide_law<DeD>, wide_law<DeF>, wide_law<SpD>, wide_law<SpF>, wide_law<DeDR>, wide_law<DeFR>, wide_law<SpDR>};
    c.pick(t)(c);
}
LAW("significant elements of two summands where every bit matters", 0.2)
{
    Pool pool(c);
    Ref v = gen_wide_ref(c, shape(c, 6), pool), x(v.r, v.c), y(v.r, v.c);
    for (size_t i = 0; i < v.v.size(); ++i) {       // each element in one of the summands
        if (c.chance(1, 2)) x.v[i] = v.v[i]; else y.v[i] = v.v[i] = static_cast<double>(static_cast<float>(v.v[i]));
    }
    Range k = gen_wide_range(c, pool);
    c.log() << std::setprecision(17) << k << " " << show(x) << " + " << show(y);
    size_t n = count(v, k);
    c.nontrivial(n > 0 && n < v.nnz());
    MuS s(std::make_shared<SpD>(sparse<double>(x)), std::make_shared<SpF>(sparse<float>(y)));
    MuD d(std::make_shared<SpD>(sparse<double>(x)), std::make_shared<DeF>(dense<float>(y)));
    with(k, [&](auto const& checker) {
        c.step("count");
        REQUIRE(s.getNbOfSignificantElements(checker) == n, "two sparse: " << s.getNbOfSignificantElements(checker) << " significant elements instead of " << n);
        REQUIRE(d.getNbOfSignificantElements(checker) == n, "sparse and dense: " << d.getNbOfSignificantElements(checker) << " significant elements instead of " << n);
        return 0;
    });
}
LAW("significant elements of every type", 0.5)
{
    static std::vector<Fn> t = {type_law<DeD>, type_law<DeF>, type_law<SpD>, type_law<SpF>, type_law<ZeM>, type_law<MuS>, type_law<MuD>,
        type_law<DeDR>, type_law<DeFR>, type_law<SpDR>};
    c.pick(t)(c);
}
LAW("smaller occupation", 0.2)
{
    Ref v = gen_ref(c, shape(c, 8), 20);
    Range k = gen_range(c);
    c.log() << k << " " << show(v);
    size_t n = count(v, k);
    c.nontrivial(n > 0);
    double occ = share(n, v.v.size());
    DeD d = dense<double>(v);
    SpF s = sparse<float>(v);
    ZeM z(v.r, v.c);
    with(k, [&](auto const& checker) {
        REQUIRE(d.isOccupationSmallerThan(occ + 1e-9, checker) && !d.isOccupationSmallerThan(occ - 1e-9, checker), "dense: occupation " << occ);
        REQUIRE(s.isOccupationSmallerThan(occ + 1e-9, checker) && !s.isOccupationSmallerThan(occ - 1e-9, checker), "sparse: occupation " << occ);
        REQUIRE(z.isOccupationSmallerThan(1e-9, checker) && !z.isOccupationSmallerThan(-1e-9, checker), "zero");
        return 0;
    });
}
LAW("significant elements of dynamic matrices", 0.4)
{
    size_t kind = c.below(7);
    Ref v = gen_ref(c, shape(c, 8), 20);
    if (kind == 0) v = Ref(v.r, v.c);
    Range k = gen_range(c);
    c.tag(kind_name(kind));
    c.log() << kind_name(kind) << " " << k << " " << show(v);
    DynamicMatrix m = make_dyn(c, kind, v);
    size_t n = count(v, k);
    c.nontrivial(n > 0 && n < v.nnz());
    double occ = share(n, v.v.size());
    REQUIRE(getSize(m) == v.v.size() && getNbRows(m) == v.r && getNbColumns(m) == v.c, "size is " << getNbRows(m) << "x" << getNbColumns(m) << "=" << getSize(m));
    with(k, [&](auto const& checker) {
        c.step("countDesiredElements");
        REQUIRE(countDesiredElements(m, checker) == n, kind_name(kind) << ": " << countDesiredElements(m, checker) << " significant elements instead of " << n);
        c.step("getOccupation");
        near(getOccupation(m, checker), occ, std::string(kind_name(kind)) + ": occupation");
        c.step("isOccupationLargerThan");
        REQUIRE(!isOccupationLargerThan(m, occ + 1e-9, checker), kind_name(kind) << ": occupation " << occ << " is larger than " << occ + 1e-9);
        REQUIRE(isOccupationLargerThan(m, occ - 1e-9, checker), kind_name(kind) << ": occupation " << occ << " is not larger than " << occ - 1e-9);
        return 0;
    });
}
LAW("significant elements of blocked matrices and sub-matrices", 0.3)
{
    typedef Matrix<Dense,double,Parameter<size_t,ColumnMajor,VariableSize,LeadingDimension>> Sub;
    size_t br = c.size(1, 3), bc = c.size(1, 3), r = extent(c, 4), n = extent(c, 4), want = 0, wsub = 0;
    bool full = false;
    if (c.chance(1, 120)) { br = 1; bc = c.size(1, 2); r = c.range(255, 300); n = c.range(255, 300); c.bulk(); c.tag("large blocks"); full = c.chance(1, 2); }
    Range k = gen_range(c);
    Ref all(br * r, bc * n);
    BlockedDenseMatrix m(br, bc, all.r, all.c);
    for (size_t i = 0; i < br; ++i) for (size_t j = 0; j < bc; ++j) {
        size_t kind = c.below(7);
        Ref v = gen_ref(c, r, n, 20);
        if (kind == 0) v = Ref(r, n);
        if (full && kind) for (auto& x : v.v) if (x == 0) x = 1;
        m(i,j) = make_dyn(c, kind, v);
        for (size_t x = 0; x < r; ++x) for (size_t y = 0; y < n; ++y) all(i*r+x,j*n+y) = v(x,y);
    }
    want = count(all, k);
    size_t h = std::min(all.r, extent(c, 12)), w = std::min(all.c, extent(c, 12)), i0 = c.size(0, all.r - h), j0 = c.size(0, all.c - w);
    c.log() << k << " " << br << "x" << bc << " blocks of " << show(all) << ", rows " << i0 << "+" << h << ", columns " << j0 << "+" << w;
    c.nontrivial(want > 0 && br * bc > 1);
    DeD d = dense<double>(all);
    Sub s(d, h, w, i0, j0);
    Ref part = sub(all, h, w, i0, j0);
    wsub = count(part, k);
    with(k, [&](auto const& checker) {
        c.step("blocked");
        REQUIRE(m.getNbOfSignificantElements(checker) == want, "blocked matrix: " << m.getNbOfSignificantElements(checker) << " significant elements instead of " << want);
        near(m.getOccupation(checker), share(want, all.v.size()), "occupation of the blocked matrix");
        c.step("sub-matrix");
        REQUIRE(s.getNbOfSignificantElements(checker) == wsub, "sub-matrix: " << s.getNbOfSignificantElements(checker) << " significant elements instead of " << wsub);
        near(s.getOccupation(checker), share(wsub, h * w), "occupation of the sub-matrix");
        return 0;
    });
}
