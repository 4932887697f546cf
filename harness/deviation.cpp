// getMaximalDeviation, getRootMeanSquareDeviation, equalWithinNumericalAccuracy.
#include "bbgen.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
#include "BlasBooster/Utilities/EqualWithinNumericalAccuracy.h"
#include <limits>
using namespace bb;

namespace {

typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Sparse,double,PR> SpDR;
typedef Matrix<Dense,double,Parameter<size_t,ColumnMajor,VariableSize,LeadingDimension>> View;

/// a matrix with the given elements, possibly a part of a larger one
template <class M> struct Holder
{
    std::shared_ptr<M> m;
    Holder(Ctx& c, Ref const& a) : m(Build<M>::make(c, a)) {}
    M const& get() const { return *m; }
};
template <> struct Holder<View>
{
    DeD whole; View v;
    static DeD around(Ctx& c, Ref const& a) { DeD w(a.r + 2, a.c + 1, AllFiller<double>(gen_value(c))); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) w(i+1,j) = a(i,j); return w; }
    Holder(Ctx& c, Ref const& a) : whole(around(c, a)), v(whole, a.r, a.c, 1, 0) {}
    View const& get() const { return v; }
};

template <class A, class B> void law(Ctx& c)
{
    auto [r, n] = shape(c, 9);
    fix<A>(r, n);
    fix<B>(r, n);
    Ref a, b;
    if (c.chance(1, 2)) { a = holdable<A>(gen_ref(c, r, n)); b = holdable<B>(c.chance(1, 3) ? a : gen_ref(c, r, n)); }
    else { // large numbers with small differences
        Pool p(c);
        a = gen_wide_ref(c, r, n, p); b = c.chance(1, 2) ? gen_wide_ref(c, r, n, p) : a;
        if (BitsOf<A>::value == single_precision) a = rounded<float>(a);
        if (BitsOf<B>::value == single_precision) b = rounded<float>(b);
        a = holdable<A>(a); b = holdable<B>(b); c.tag("all bits");
    }
    if (c.chance(1, 3)) { b = holdable<B>(a); for (size_t k = r * n ? c.size(0, 3) : 0; k; --k) { size_t p = c.below(r * n); if (!IsZeroType<B>::value) b.v[p] = gen_value(c); } if (BitsOf<B>::value == single_precision) b = rounded<float>(b); }
    bool rms = c.chance(1, 2);
    c.log() << (rms ? "root mean square deviation of " : "maximal deviation of ") << show(a) << " and " << show(b);
    double want = 0.0;
    for (size_t i = 0; i < a.v.size(); ++i) { double d = std::abs(a.v[i] - b.v[i]); if (rms) want += d * d; else want = std::max(want, d); }
    if (rms) want = r * n ? std::sqrt(want / (double)(r * n)) : 0.0;
    c.nontrivial(want > 0.0 && r > 1 && n > 1);
    Holder<A> x(c, a); Holder<B> y(c, b);
    c.step("deviation");
    double got = rms ? getRootMeanSquareDeviation(x.get(), y.get()) : getMaximalDeviation(x.get(), y.get());
    REQUIRE(is_finite(got) && std::abs(got - want) <= (rms ? 1e-12 * want : 0.0), "deviation is " << got << " instead of " << want);
    require_same(to_ref(x.get()), a, "first matrix afterwards");
    require_same(to_ref(y.get()), b, "second matrix afterwards");
}

typedef void (*Fn)(Ctx&);
template <class A> std::vector<Fn> with() { return {law<A,DeD>, law<A,DeF>, law<A,DeDR>, law<A,DeFR>, law<A,SpD>, law<A,SpF>, law<A,SpDR>, law<A,ZeM>, law<A,View>}; }

LAW("deviation of two matrices", 1)
{
    static std::vector<std::vector<Fn>> t = {with<DeD>(), with<DeF>(), with<DeDR>(), with<DeFR>(), with<SpD>(), with<SpF>(), with<SpDR>(), with<ZeM>(), with<View>()};
    size_t i = c.below(t.size()), j = c.below(t[i].size());
    c.log() << "types " << i << ", " << j << ": ";
    t[i][j](c);
}

LAW("deviation of matrices with other parameters", 0.3)
{
    typedef Matrix<Dense,double,PI> DI; typedef Matrix<Sparse,float,PUR> GU; typedef Matrix<Dense,float,PF<3,5,RowMajor>> Y; typedef Matrix<Dense,double,PS<3,5>> S;
    static std::vector<Fn> t = {law<DI,DI>, law<DI,SpD>, law<GU,DI>, law<DeD,GU>, law<Y,S>, law<S,Y>, law<DeDR,S>, law<S,SpD>, law<Y,DI>, law<SpF,Y>, law<DeD,Y>, law<GU,SpDR>};
    c.pick(t)(c);
}

// ---- scalars -----------------------------------------------------------------------------

template <class T> struct Acc { static double value() { return 0.0; } };
template <> struct Acc<double> { static double value() { return 1e-12; } };
template <> struct Acc<float> { static double value() { return 1e-4; } };
template <> struct Acc<std::complex<double>> { static double value() { return 1e-12; } };

/// |x - y| in units of the accuracy: below, or above; near 1 is left to rounding
template <class A, class B> void scalar(Ctx& c)
{
    double acc = std::max(Acc<A>::value(), Acc<B>::value());
    static const double factors[] = {0.0, 0.1, 0.5, 0.9, 1.1, 2.0, 10.0, 1e6, 1e12};
    double f = factors[c.below(9)], base = (double)c.sym(3), sign = c.chance(1, 2) ? 1.0 : -1.0;
    A a = static_cast<A>(base);
    B b = static_cast<B>(base + sign * f * acc);
    if (std::is_same<B,float>::value && !std::is_same<A,float>::value) { a = static_cast<A>(base); }
    long double d = std::abs((long double)a - (long double)b);
    bool want = d <= acc;
    if (d > 0.95 * acc && d < 1.05 * acc) return;
    c.log() << "scalars " << (double)a << " and " << (double)b << ", accuracy " << acc << ", difference " << (double)d;
    c.nontrivial(d > 0);
    c.step("comparison");
    REQUIRE(equalWithinNumericalAccuracy(a, b) == want, "they are " << (want ? "not " : "") << "equal");
    REQUIRE(equalWithinNumericalAccuracy(b, a) == want, "they are " << (want ? "not " : "") << "equal the other way round");
}
template <class A, class B> void integers(Ctx& c)
{
    static const long long v[] = {0, 1, 2, 3, 1000, 2147483646ll, 2147483647ll};
    A a = (A)v[c.below(7)]; B b = (B)(c.chance(1, 2) ? (long long)a : v[c.below(7)]);
    if (c.chance(1, 3)) b = (B)(b + (c.chance(1, 2) || b == 0 ? (b < (B)2147483647ll ? 1 : 0) : -1));
    c.log() << "integers " << a << " and " << b; c.nontrivial(a != (A)b);
    c.step("comparison");
    bool want = (long long)a == (long long)b;
    REQUIRE(equalWithinNumericalAccuracy(a, b) == want && equalWithinNumericalAccuracy(b, a) == want, "they are " << (want ? "not " : "") << "equal");
}
void complexes(Ctx& c)
{
    static const double factors[] = {0.0, 0.1, 0.6, 1.2, 2.0, 1e6};
    std::complex<double> a((double)c.sym(3), (double)c.sym(3)), b(a.real() + factors[c.below(6)] * 1e-12, a.imag() - factors[c.below(6)] * 1e-12);
    double d = std::abs(a - b);
    if (d > 0.95e-12 && d < 1.05e-12) return;
    c.log() << "complex numbers " << a << " and " << b << ", difference " << d; c.nontrivial(d > 0);
    c.step("comparison");
    REQUIRE(equalWithinNumericalAccuracy(a, b) == (d <= 1e-12), "they are " << (d <= 1e-12 ? "not " : "") << "equal");
}

LAW("comparison of scalars", 0.5)
{
    static std::vector<Fn> t = {scalar<double,double>, scalar<float,float>, scalar<double,float>, scalar<float,double>, scalar<int,double>, scalar<int,float>,
        integers<int,int>, integers<unsigned,unsigned>, integers<unsigned long,unsigned long>, integers<int,unsigned long>, integers<unsigned,unsigned long>, complexes};
    c.pick(t)(c);
}

} // namespace
