// P22: products computed with the Intel MKL. The library itself is not here; the routines which are used are
// replaced by stand-ins which follow its reference documentation and refuse illegal arguments as it does.
#define WITH_INTELMKL 1
#include <complex>
#include "bbgen.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
using namespace bb;

#include "mkl_stubs.h"

// ------------------------------------------------------------------------------------------- laws
namespace {
Ref scale2(Ref r) { for (size_t i = 0; i < r.r; ++i) for (size_t j = 0; j < r.c; ++j) r(i, j) *= 2; return r; }
template <class I> struct IName;
template <> struct IName<IntelMKL> { static const char* s() { return "IntelMKL"; } };
template <> struct IName<TheBestPolicy> { static const char* s() { return "TheBestPolicy"; } };

template <class M> struct IsSparse : std::false_type {};
template <class T, class P> struct IsSparse<Matrix<Sparse,T,P>> : std::true_type {};

size_t dim(Ctx& c) { return c.size(c.chance(1, 12) ? 0 : 1, c.big(7)); }

template <class A, class B, class I>
void pair_law(Ctx& c)
{
    size_t r = dim(c), k = dim(c), n = dim(c);
    Ref ra, rb;
    // TheBestPolicy leaves the mixed product of dense matrices to the single precision routine
    Bits top = BitsOf<A>::value != BitsOf<B>::value && !IsSparse<A>::value && !IsSparse<B>::value ? single_precision : double_precision;
    gen_product(c, r, k, n, less_precise(top, BitsOf<A>::value), less_precise(top, BitsOf<B>::value), ra, rb);
    ra = holdable<A>(ra); rb = holdable<B>(rb);
    std::string what = Name<A>::s() + " * " + Name<B>::s() + " by " + IName<I>::s();
    c.tag(what);
    c.log() << what << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(mul(ra, rb).nnz());
    auto a = Build<A>::make(c, ra);
    auto b = Build<B>::make(c, rb);
    c.step(what);
    fresh();
    auto p = (*a * *b).template execute<I>();
    REQUIRE(illegal == 0, "argument " << illegal << " of the routine of the library is illegal");
    if (std::is_same<I,IntelMKL>::value) REQUIRE(calls > 0, "the library is not used");
    require_same(to_ref(p), mul(ra, rb), what);
    require_same(to_ref(p + p), scale2(mul(ra, rb)), "twice the product");
    require_same(to_ref(*a), ra, "left operand afterwards");
    require_same(to_ref(*b), rb, "right operand afterwards");
}

typedef void (*PairFn)(Ctx&);
template <class... Ts> struct TL {};
template <class I, class A, class... Bs> void row(std::vector<PairFn>& v, TL<Bs...>) { (v.push_back(pair_law<A,Bs,I>), ...); }
template <class I, class... As> std::vector<PairFn> table(TL<As...>) { std::vector<PairFn> v; (row<I,As>(v, TL<As...>()), ...); return v; }
} // namespace

LAW("IntelMKL", 1)
{
    static std::vector<PairFn> t = { pair_law<DeD,DeD,IntelMKL>, pair_law<DeF,DeF,IntelMKL>, pair_law<SpD,DeD,IntelMKL>, pair_law<SpF,DeF,IntelMKL>,
        pair_law<SpD,SpD,IntelMKL>, pair_law<SpF,SpF,IntelMKL> };
    c.pick(t)(c);
}
LAW("TheBestPolicy with IntelMKL", 1) { static auto t = table<TheBestPolicy>(TL<ZeM,SpF,DeF,SpD,DeD>()); c.pick(t)(c); }
LAW("dynamic products with IntelMKL", 0.5)
{
    size_t r = dim(c), k = dim(c), n = dim(c), ka = c.below(7), kb = c.below(7);
    Ref ra, rb;
    auto has_float = [](size_t x) { return x == 2 || x == 5; };
    Bits top = has_float(ka) || has_float(kb) ? single_precision : double_precision;
    gen_product(c, r, k, n, less_precise(top, kind_bits(ka)), less_precise(top, kind_bits(kb)), ra, rb);
    if (ka == 0) ra = Ref(r, k);
    if (kb == 0) rb = Ref(k, n);
    c.tag(std::string(kind_name(ka)) + " * " + kind_name(kb));
    c.log() << "dynamic " << kind_name(ka) << " * " << kind_name(kb) << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(mul(ra, rb).nnz());
    DynamicMatrix a = make_dyn(c, ka, ra), b = make_dyn(c, kb, rb);
    c.step("multiplication");
    fresh();
    DynamicMatrix d = (a * b).execute<TheBestPolicy>();
    REQUIRE(illegal == 0, "argument " << illegal << " of the routine of the library is illegal");
    require_same(to_ref(d), mul(ra, rb), "A * B");
    require_same(to_ref(a), ra, "left operand afterwards");
    require_same(to_ref(b), rb, "right operand afterwards");
}
