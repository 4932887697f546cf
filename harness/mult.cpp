// Matrix-matrix multiplication of every pair of types through every interface.
#include "bbgen.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "BlasBooster/Core/Multiplication_Blaze.h"
using namespace bb;

namespace {

template <class I> struct IName;
template <> struct IName<Native> { static const char* s() { return "Native"; } };
template <> struct IName<TheBestPolicy> { static const char* s() { return "TheBestPolicy"; } };
template <> struct IName<OpenBLAS> { static const char* s() { return "OpenBLAS"; } };
template <> struct IName<Blaze> { static const char* s() { return "Blaze"; } };
template <> struct IName<EigenI> { static const char* s() { return "EigenI"; } };

template <class A, class B, class I>
void pair_law(Ctx& c)
{
    // every now and then large enough for the blocked kernels of the libraries
    size_t r, k, n;
    product_shape(c, 6, r, k, n);
    bool self = false;
    if constexpr (std::is_same<A,B>::value) self = c.chance(1, 12);
    Ref ra, rb;
    if (self) { r = n = k = std::min({r, k, n}); ra = rb = gen_ref(c, r, k, factor_range(k)); c.tag("both operands are the same"); }
    else gen_product(c, r, k, n, BitsOf<A>::value, BitsOf<B>::value, ra, rb);
    ra = holdable<A>(ra); rb = holdable<B>(rb);
    std::string what = Name<A>::s() + " * " + Name<B>::s() + " by " + IName<I>::s();
    c.tag(what);
    c.log() << what << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(mul(ra, rb).nnz());
    auto a = Build<A>::make(c, ra);
    auto b = Build<B>::make(c, rb);
    if constexpr (std::is_same<A,B>::value) if (self) b = a;
    c.step(what);
    require_same(to_ref((*a * *b).template execute<I>()), mul(ra, rb), what);
    require_same(to_ref(*a), ra, "left operand afterwards");
    require_same(to_ref(*b), rb, "right operand afterwards");
    if (c.chance(1, 10) && r * k + k * n < 2000) {
        // the same objects with other elements
        Ref rx = gen_ref(c, r, k), ry = gen_ref(c, k, n);
        bool left = c.chance(1, 2), right = !left || c.chance(1, 2);
        if (left || self) { ra = holdable<A>(rx); *a = *Build<A>::make(c, ra); if (self) rb = ra; }
        if (right && !self) { rb = holdable<B>(ry); *b = *Build<B>::make(c, rb); }
        if (!ra.plain || !rb.plain) return;       // the sum of products from different cases isn't exact
        c.tag("again"); c.log() << "; then A=" << show(ra) << " B=" << show(rb); c.step(what + ", again");
        require_same(to_ref((*a * *b).template execute<I>()), mul(ra, rb), what + ", for the changed operands");
    }
}

typedef void (*PairFn)(Ctx&);
template <class... Ts> struct TL {};
template <class I, class A, class... Bs> void row(std::vector<PairFn>& v, TL<Bs...>) { (v.push_back(pair_law<A,Bs,I>), ...); }
template <class I, class... As> std::vector<PairFn> table(TL<As...>) { std::vector<PairFn> v; (row<I,As>(v, TL<As...>()), ...); return v; }

} // namespace

typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Sparse,double,PR> SpDR;
typedef Matrix<Sparse,float,PR> SpFR;

#if PART == 1
LAW("static products, Native", 0.4) { static auto t = table<Native>(TL<ZeM,SpF,DeF,SpD,DeD>()); c.pick(t)(c); }
LAW("static products, TheBestPolicy", 0.4) { static auto t = table<TheBestPolicy>(TL<ZeM,SpF,DeF,SpD,DeD>()); c.pick(t)(c); }
LAW("dense products, OpenBLAS, Eigen and Blaze", 0.4)
{
    static std::vector<PairFn> t = {
        pair_law<DeF,DeF,OpenBLAS>, pair_law<DeD,DeD,OpenBLAS>, pair_law<DeF,DeF,EigenI>, pair_law<DeD,DeD,EigenI>,
        pair_law<DeF,DeD,EigenI>, pair_law<DeD,DeF,EigenI>,
        pair_law<DeF,DeF,Blaze>, pair_law<DeD,DeD,Blaze>, pair_law<DeF,DeD,Blaze>, pair_law<DeD,DeF,Blaze>};
    c.pick(t)(c);
}
#elif PART == 2
LAW("products with multiple matrices", 0.3)
{
    static std::vector<PairFn> t = {
        pair_law<MuS,MuS,Native>, pair_law<MuS,MuD,Native>, pair_law<MuD,MuS,Native>, pair_law<MuD,MuD,TheBestPolicy>,
        pair_law<MuDD,MuDD,TheBestPolicy>,
        pair_law<MuS,ZeM,Native>, pair_law<MuS,SpF,Native>, pair_law<MuS,DeF,Native>, pair_law<MuD,SpD,Native>, pair_law<MuD,DeD,TheBestPolicy>,
        pair_law<ZeM,MuS,Native>, pair_law<SpF,MuS,Native>, pair_law<DeF,MuS,Native>, pair_law<SpD,MuD,Native>, pair_law<DeD,MuD,TheBestPolicy>};
    c.pick(t)(c);
}
LAW("products of row-major dense matrices", 0.3)
{
    static std::vector<PairFn> t = {
        pair_law<DeDR,DeDR,Native>, pair_law<DeDR,DeD,Native>, pair_law<DeD,DeDR,Native>, pair_law<DeFR,DeDR,Native>,
        pair_law<DeDR,DeDR,TheBestPolicy>, pair_law<DeDR,DeD,TheBestPolicy>, pair_law<DeDR,SpD,Native>};
    c.pick(t)(c);
}
LAW("products of matrices with other index types", 0.2)
{
    static auto t = [] {
        typedef TL<Matrix<Zero,NullType,PI>,Matrix<Sparse,float,PI>,Matrix<Dense,double,PI>,Matrix<Sparse,double,PI>> L;
        auto v = table<Native>(L());
        for (auto f : table<TheBestPolicy>(L())) v.push_back(f);
        for (auto f : table<Native>(TL<Matrix<Sparse,double,PUR>,Matrix<Dense,double,PUR>>())) v.push_back(f);
        return v;
    }();
    c.pick(t)(c);
}
LAW("products of row-major sparse matrices", 0.3)
{
    static std::vector<PairFn> t = {
        pair_law<SpDR,DeD,Native>, pair_law<SpDR,SpD,Native>, pair_law<SpD,DeDR,Native>, pair_law<DeD,SpDR,Native>, pair_law<SpDR,SpDR,Native>,
        pair_law<DeDR,SpDR,Native>, pair_law<SpDR,DeDR,Native>, pair_law<SpD,SpFR,Native>, pair_law<SpFR,DeDR,Native>, pair_law<DeFR,SpDR,Native>,
        pair_law<SpDR,DeD,TheBestPolicy>, pair_law<SpDR,SpDR,TheBestPolicy>, pair_law<DeDR,SpDR,TheBestPolicy>};
    c.pick(t)(c);
}
LAW("a matrix from a product expression", 0.1)
{
    size_t r, k, n;
    product_shape(c, 6, r, k, n);
    Ref ra = gen_ref(c, r, k, factor_range(k)), rb = gen_ref(c, k, n, factor_range(k));
    c.log() << "A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(mul(ra, rb).nnz());
    switch (c.below(4)) {
        case 0: { DeD a = dense<double>(ra), b = dense<double>(rb); DeD x = a * b; require_same(to_ref(x), mul(ra, rb), "DeD"); break; }
        case 1: { DeF a = dense<float>(ra), b = dense<float>(rb); DeF x(a * b); require_same(to_ref(x), mul(ra, rb), "DeF"); break; }
        case 2: { SpD a = sparse<double>(ra), b = sparse<double>(rb); SpD x(a * b); require_same(to_ref(x), mul(ra, rb), "SpD"); break; }
        default: { SpF a = sparse<float>(ra); DeD b = dense<double>(rb); DeD x; x = a * b; require_same(to_ref(x), mul(ra, rb), "SpF*DeD"); }
    }
}
#else
LAW("dynamic products", 1.0)
{
    size_t r, k, n, ka = c.below(7), kb = c.below(7);
    product_shape(c, 6, r, k, n);
    Ref ra, rb;
    gen_product(c, r, k, n, kind_bits(ka), kind_bits(kb), ra, rb);
    if (ka == 0) ra = Ref(r, k);
    if (kb == 0) rb = Ref(k, n);
    bool best = c.chance(1, 2), self = c.chance(1, 20);
    if (self) {
        kb = ka; r = k = n = std::min(r, k);
        ra = Ref(r, r);
        if (ka) ra = gen_ref(c, r, r, factor_range(r));
        rb = ra; c.tag("both operands are the same");
    }
    c.tag(std::string(kind_name(ka)) + " * " + kind_name(kb));
    c.log() << "dynamic " << kind_name(ka) << " * " << kind_name(kb) << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(mul(ra, rb).nnz());
    DynamicMatrix a = make_dyn(c, ka, ra), b = self ? a : make_dyn(c, kb, rb);
    c.step("multiplication");
    DynamicMatrix d = best ? (a * b).execute<TheBestPolicy>() : (a * b).execute<Native>();
    require_same(to_ref(d), mul(ra, rb), "A * B");
    REQUIRE(d != a && d != b, "the product is an operand");
    require_same(to_ref(a), ra, "left operand afterwards");
    require_same(to_ref(b), rb, "right operand afterwards");
    require_same(to_ref(DeD(d)), mul(ra, rb), "the product as a dense matrix");
    if (c.chance(1, 10) && ra.plain && rb.plain && r * k + k * n < 2000) {
        // the same objects with other elements; the earlier product stays
        Ref first = mul(ra, rb), x = gen_ref(c, r, k, factor_range(k)), y = gen_ref(c, k, n, factor_range(k));
        if (assign_dyn(c, ka, a, x)) { ra = x; if (self) rb = x; }
        if (!self && c.chance(1, 2) && assign_dyn(c, kb, b, y)) rb = y;
        c.tag("again"); c.log() << "; then A=" << show(ra) << " B=" << show(rb); c.step("multiplication, again");
        DynamicMatrix e = best ? (a * b).execute<TheBestPolicy>() : (a * b).execute<Native>();
        require_same(to_ref(e), mul(ra, rb), "A * B of the changed operands");
        require_same(to_ref(d), first, "the first product afterwards");
    }
}
#endif
