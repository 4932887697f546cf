// Conversions between matrix types keep dimensions and element values.
#include "bbgen.h"
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
using namespace bb;

namespace {

typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Sparse,float,PR> SpFR;
typedef Matrix<Sparse,double,PR> SpDR;

template <class M> struct Elem { static double store(double x) { return x; } };
template <class P> struct Elem<Matrix<Dense,float,P>> { static double store(double x) { return static_cast<float>(x); } };
template <class P> struct Elem<Matrix<Sparse,float,P>> { static double store(double x) { return static_cast<float>(x); } };

/// any finite magnitude within the range of float
double gen_wild(Ctx& c)
{
    switch (c.below(4)) {
        case 0: return gen_value(c);
        case 1: return static_cast<double>(c.sym(1 << 20)) / 1048576.0 / 3.0;
        case 2: return std::ldexp(1.0 + static_cast<double>(c.below(1u << 30)) / (1u << 30), static_cast<int>(c.range(0, 80)) - 40) * (c.chance(1, 2) ? -1 : 1);
        default: return static_cast<double>(c.sym(1000000007));
    }
}
Ref gen_wild_ref(Ctx& c, size_t r, size_t n)
{
    Ref a(r, n);
    int d = static_cast<int>(c.below(4));
    for (auto& x : a.v) { if (d == 0) break; if (d == 3 || c.chance(d == 1 ? 1 : 2, 4)) x = gen_wild(c); }
    c.tag(d == 0 ? "zeros" : d == 1 ? "sparse" : d == 2 ? "half" : "full");
    return a;
}
Ref map_ref(Ref a, std::function<double(double)> f) { for (auto& x : a.v) x = f(x); return a; }

template <class A, class B>
void convert_law(Ctx& c)
{
    auto [r, n] = shape(c, 8);
    fix<B>(r, n);
    fix<A>(r, n);
    Ref want = holdable<A>(gen_wild_ref(c, r, n));
    c.log() << Name<B>::s() << " from " << Name<A>::s() << "  " << show(want);
    auto a = Build<A>::make(c, map_ref(want, Elem<A>::store));
    want = map_ref(want, Elem<A>::store);
    Ref before = to_ref(*a);
    require_same(before, want, "the source as built");
    c.nontrivial(want.nnz() > 0 && r + n > 2);
    c.step("conversion");
    B b(*a);
    Ref w = holdable<B>(map_ref(want, Elem<B>::store));
    require_same(to_ref(b), w, Name<B>::s() + " from " + Name<A>::s());
    REQUIRE(static_cast<size_t>(b.getSize()) == r * n, "size of the result is " << b.getSize() << " instead of " << r * n);
    require_same(to_ref(*a), before, "the source afterwards");
    // the copy is independent of its source
    c.step("independence");
    if constexpr (!IsZeroType<A>::value && !IsZeroType<B>::value) {
        for (auto& x : *a) x = 77.0;
        require_same(to_ref(b), w, Name<B>::s() + " after its source changed");
    }
}

/// dense -> sparse keeps exactly the elements in the range of the value checker
template <class A, class B>
void filter_law(Ctx& c)
{
    auto [r, n] = shape(c, 8);
    Ref v = gen_ref(c, r, n, 12);
    double lo = static_cast<double>(c.below(10)) / 4.0, up = lo + static_cast<double>(c.range(1, 6)) / 4.0;
    int kind = static_cast<int>(c.below(4));
    c.log() << Name<B>::s() << " from " << Name<A>::s() << ", range kind " << kind << " lower " << lo << " upper " << up << "  " << show(v);
    auto keep = [&](double x) {
        double m = x < 0 ? -x : x;
        switch (kind) {
            case 0: return m > lo;
            case 1: return m > lo && m <= up;
            case 2: return m >= lo && m <= up && m != 0.0;
            default: return m > lo && m < up;
        }
    };
    Ref want = map_ref(v, [&](double x) { return keep(x) ? x : 0.0; });
    c.nontrivial(want.nnz() > 0 && want.nnz() < v.nnz());
    auto a = Build<A>::make(c, v);
    c.step("conversion");
    if (kind == 0) { B b(*a, AbsoluteValueRangeChecker<double>(lo)); require_same(to_ref(b), want, "filtered"); REQUIRE(b.nnz() == want.nnz(), "keeps " << b.nnz() << " elements instead of " << want.nnz()); }
    if (kind == 1) { B b(*a, AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound>(lo, up)); require_same(to_ref(b), want, "filtered"); REQUIRE(b.nnz() == want.nnz(), "keeps " << b.nnz() << " elements instead of " << want.nnz()); }
    if (kind == 2) { B b(*a, AbsoluteValueRangeChecker<double,InclusiveBound,InclusiveBound>(lo, up)); require_same(to_ref(b), want, "filtered"); }
    if (kind == 3) { B b(*a, AbsoluteValueRangeChecker<double,ExclusiveBound,ExclusiveBound>(lo, up)); require_same(to_ref(b), want, "filtered"); REQUIRE(b.nnz() == want.nnz(), "keeps " << b.nnz() << " elements instead of " << want.nnz()); }
    require_same(to_ref(*a), v, "the source afterwards");
}

/// dense -> dense through a value checker: elements out of range become zero
template <class A, class B>
void dense_filter_law(Ctx& c)
{
    auto [r, n] = shape(c, 8);
    Ref v = gen_ref(c, r, n, 12);
    double lo = static_cast<double>(c.below(10)) / 4.0, up = lo + static_cast<double>(c.range(1, 6)) / 4.0;
    bool two = c.chance(1, 2);
    c.log() << Name<B>::s() << " from " << Name<A>::s() << ", range " << lo << " to " << (two ? up : 1e9) << "  " << show(v);
    Ref want = map_ref(v, [&](double x) { double m = x < 0 ? -x : x; return m > lo && (!two || m <= up) ? x : 0.0; });
    c.nontrivial(want.nnz() > 0 && want.nnz() < v.nnz());
    auto a = Build<A>::make(c, v);
    if (two) { B b(*a, AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound>(lo, up)); require_same(to_ref(b), want, "filtered"); }
    else { B b(*a, AbsoluteValueRangeChecker<double>(lo)); require_same(to_ref(b), want, "filtered"); }
    require_same(to_ref(*a), v, "the source afterwards");
}

/// values and bounds where every bit matters: the source's value is judged
template <class A, class B>
void wide_filter_law(Ctx& c)
{
    Pool pool(c);
    Ref v = map_ref(gen_wide_ref(c, shape(c, 6), pool), Elem<A>::store);
    double lo = pool.positive(c), up = pool.positive(c);
    if (lo > up) std::swap(lo, up);
    if (lo == up) up = neighbor(lo, 1);
    bool two = c.chance(1, 2);
    c.log() << std::setprecision(17) << Name<B>::s() << " from " << Name<A>::s() << ", range " << lo << " to " << (two ? up : 1e300) << "  " << show(v);
    Ref want = map_ref(v, [&](double x) { double m = x < 0 ? -x : x; return m > lo && (!two || m <= up) ? Elem<B>::store(x) : 0.0; });
    c.nontrivial(want.nnz() > 0 && want.nnz() < v.nnz());
    auto a = Build<A>::make(c, v);
    c.step("conversion");
    if (two) { B b(*a, AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound>(lo, up)); require_same(to_ref(b), want, "filtered"); }
    else { B b(*a, AbsoluteValueRangeChecker<double>(lo)); require_same(to_ref(b), want, "filtered"); }
    require_same(to_ref(*a), v, "the source afterwards");
}

typedef void (*Fn)(Ctx&);
template <class... Ts> struct TL {};
template <class A, class... Bs> void row(std::vector<Fn>& v, TL<Bs...>) { (v.push_back(convert_law<A,Bs>), ...); }
template <class... As, class B> std::vector<Fn> table(TL<As...>, B b) { std::vector<Fn> v; (row<As>(v, b), ...); return v; }

} // namespace

#if PART == 1
typedef TL<DeF,DeD,DeFR,DeDR> D;
typedef TL<SpF,SpD,SpFR,SpDR> S;
LAW("dense to dense", 0.2) { static auto t = table(D(), D()); c.pick(t)(c); }
LAW("dense to sparse", 0.2) { static auto t = table(D(), S()); c.pick(t)(c); }
LAW("sparse to dense", 0.2) { static auto t = table(S(), D()); c.pick(t)(c); }
LAW("sparse to sparse", 0.2) { static auto t = table(S(), S()); c.pick(t)(c); }
LAW("zero to dense, any to zero", 0.1)
{
    static std::vector<Fn> t = {convert_law<ZeM,DeF>, convert_law<ZeM,DeD>, convert_law<ZeM,DeDR>, convert_law<DeF,ZeM>, convert_law<DeD,ZeM>, convert_law<SpF,ZeM>, convert_law<SpD,ZeM>, convert_law<DeDR,ZeM>};
    c.pick(t)(c);
}
LAW("conversions between other parameters", 0.3)
{
    typedef Matrix<Dense,double,PI> DI; typedef Matrix<Dense,float,PUR> FU; typedef Matrix<Sparse,double,PI> SI; typedef Matrix<Sparse,float,PUR> GU;
    typedef Matrix<Dense,double,PN> DN; typedef Matrix<Sparse,float,PN> GN;
    static auto t = [] {
        auto v = table(TL<DI,FU,SI,GU,DN,GN>(), TL<DI,FU,SI,GU,DN,GN>());
        for (auto f : table(TL<DI,FU,SI,GU,DN,GN>(), TL<DeD,DeFR,SpD,SpFR>())) v.push_back(f);
        for (auto f : table(TL<DeD,DeFR,SpD,SpFR>(), TL<DI,FU,SI,GU,DN,GN>())) v.push_back(f);
        return v;
    }();
    c.pick(t)(c);
}
LAW("conversions of matrices of fixed size", 0.2)
{
    typedef Matrix<Dense,double,PF<3,5>> X; typedef Matrix<Dense,float,PF<3,5,RowMajor>> Y; typedef Matrix<Dense,double,PS<3,5>> S; typedef Matrix<Dense,float,PS<3,5,RowMajor>> SR;
    static auto t = [] {
        auto v = table(TL<X,Y,S,SR,DeD,DeFR>(), TL<X,Y>());
        for (auto f : table(TL<X,Y,S,SR>(), TL<DeD,DeFR,SpD,SpFR>())) v.push_back(f);
        return v;
    }();
    c.pick(t)(c);
}
#elif PART == 2
LAW("multiple to dense", 0.3)
{
    size_t k = c.below(3), r = extent(c, 8), n = extent(c, 8);
    Ref v = gen_dyn_ref(c, k == 2 ? 4 : 4 + k, r, n);
    bool f = c.chance(1, 2);
    c.log() << "Dense<" << (f ? "float" : "double") << "> from multiple matrix " << k << " " << show(v);
    c.nontrivial(v.nnz() > 0);
    auto go = [&](auto p) {
        if (f) { DeF d(*p); require_same(to_ref(d), v, "dense float"); REQUIRE(d.getSize() == r * n, "size"); }
        else { DeD d(*p); require_same(to_ref(d), v, "dense double"); REQUIRE(d.getSize() == r * n, "size"); }
        require_same(to_ref(*p), v, "the source afterwards");
    };
    if (k == 0) go(Build<MuS>::make(c, v)); else if (k == 1) go(Build<MuD>::make(c, v)); else go(Build<MuDD>::make(c, v));
}
LAW("dynamic to dense", 0.4)
{
    size_t k = c.below(7), r = extent(c, 8), n = extent(c, 8);
    Ref v = gen_dyn_ref(c, k, r, n);
    bool f = c.chance(1, 2);
    c.log() << "Dense<" << (f ? "float" : "double") << "> from dynamic " << kind_name(k) << " " << show(v);
    c.nontrivial(v.nnz() > 0);
    DynamicMatrix d = make_dyn(c, k, v);
    c.step("conversion");
    if (f) { DeF x(d); require_same(to_ref(x), rounded<float>(v), "dense float"); REQUIRE(x.getSize() == r * n, "getSize() is " << x.getSize() << " for a " << r << "x" << n << " matrix"); }
    else { DeD x(d); require_same(to_ref(x), v, "dense double"); REQUIRE(x.getSize() == r * n, "getSize() is " << x.getSize() << " for a " << r << "x" << n << " matrix"); }
    require_same(to_ref(d), v, "the source afterwards");
}
LAW("dynamic to sparse", 0.4)
{
    size_t k = c.below(7), r = extent(c, 8), n = extent(c, 8);
    Ref v = gen_dyn_ref(c, k, r, n);
    size_t target = c.below(3);
    double threshold = c.chance(1, 2) ? 0.0 : (double)c.below(16);
    if (threshold != 0.0 && v.nnz()) { double x = std::abs(v.v[c.below(v.v.size())]); if (x != 0.0) threshold = c.pick({x, neighbor(x, 1), neighbor(x, -1), static_cast<double>(static_cast<float>(x)), threshold}); }
    c.log() << "sparse " << target << " from dynamic " << kind_name(k) << " " << show(v) << std::setprecision(17) << " threshold " << threshold;
    c.nontrivial(v.nnz() > 0);
    DynamicMatrix d = make_dyn(c, k, v);
    Ref w(v);
    for (double& x : w.v) if (!(std::abs(x) > threshold)) x = 0.0;
    c.step("conversion");
    auto go = [&](auto x) { require_same(to_ref(x), w, "sparse matrix"); REQUIRE((size_t)(x.end() - x.begin()) == w.nnz(), "number of elements"); };
    if (target == 0) w = rounded<float>(w);
    if (target == 0) go(threshold == 0.0 ? SpF(d) : SpF(d, threshold)); else if (target == 1) go(threshold == 0.0 ? SpD(d) : SpD(d, threshold)); else go(SpDR(d, threshold));
    require_same(to_ref(d), v, "the source afterwards");
}
#else
LAW("dense to sparse through a value checker", 0.4)
{
    static std::vector<Fn> t = {filter_law<DeD,SpD>, filter_law<DeD,SpF>, filter_law<DeF,SpD>, filter_law<DeF,SpF>, filter_law<DeDR,SpD>, filter_law<DeD,SpDR>, filter_law<DeDR,SpDR>};
    c.pick(t)(c);
}
LAW("sparse to sparse through a value checker", 0.2)
{
    static std::vector<Fn> t = {filter_law<SpD,SpF>, filter_law<SpF,SpD>, filter_law<SpDR,SpD>, filter_law<SpD,SpDR>};
    c.pick(t)(c);
}
LAW("dense to dense through a value checker", 0.2)
{
    static std::vector<Fn> t = {dense_filter_law<DeD,DeF>, dense_filter_law<DeF,DeD>, dense_filter_law<DeDR,DeD>, dense_filter_law<DeD,DeDR>, dense_filter_law<DeDR,DeFR>};
    c.pick(t)(c);
}
LAW("value checkers where every bit matters", 0.4)
{
    static std::vector<Fn> t = {wide_filter_law<DeD,SpD>, wide_filter_law<DeD,SpF>, wide_filter_law<DeF,SpD>, wide_filter_law<DeF,SpF>, wide_filter_law<DeDR,SpD>,
        wide_filter_law<DeD,DeF>, wide_filter_law<DeF,DeD>, wide_filter_law<DeDR,DeD>, wide_filter_law<SpD,SpDR>, wide_filter_law<SpDR,SpD>};
    c.pick(t)(c);
}
#endif
