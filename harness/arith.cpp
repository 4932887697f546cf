// Addition and subtraction of matrices of every pair of types.
#include "bbgen.h"
using namespace bb;

namespace {

template <class A, class B>
void pair_law(Ctx& c)
{
    auto [r, n] = shape(c, 7);
    Ref ra, rb;
    gen_sum(c, r, n, BitsOf<A>::value, BitsOf<B>::value, ra, rb);
    ra = holdable<A>(ra); rb = holdable<B>(rb);
    bool self = false;
    if constexpr (std::is_same<A,B>::value) self = c.chance(1, 12);
    if (self) { rb = ra; c.tag("both operands are the same"); }
    bool minus = c.chance(1, 2);
    c.tag(Name<A>::s() + (minus ? " - " : " + ") + Name<B>::s());
    c.log() << Name<A>::s() << (minus ? " - " : " + ") << Name<B>::s() << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(ra.nnz() || rb.nnz());
    auto a = Build<A>::make(c, ra);
    auto b = Build<B>::make(c, rb);
    if constexpr (std::is_same<A,B>::value) if (self) b = a;
    c.step("operator");
    auto result = [&] { if (minus) return to_ref(*a - *b); else return to_ref(*a + *b); };
    require_same(result(), minus ? ra - rb : ra + rb, minus ? "A - B" : "A + B");
    require_same(to_ref(*a), ra, "left operand afterwards");
    require_same(to_ref(*b), rb, "right operand afterwards");
    if (c.chance(1, 10)) {
        // the same objects with other elements
        Ref rx, ry;
        gen_sum(c, r, n, BitsOf<A>::value, BitsOf<B>::value, rx, ry);
        bool left = c.chance(1, 2), right = !left || c.chance(1, 2);
        if (left || self) { ra = holdable<A>(rx); *a = *Build<A>::make(c, ra); if (self) rb = ra; }
        if (right && !self) { rb = holdable<B>(ry); *b = *Build<B>::make(c, rb); }
        if (!ra.plain || !rb.plain) return;       // the sum of elements from different cases isn't exact
        c.tag("again"); c.log() << "; then A=" << show(ra) << " B=" << show(rb); c.step("operator, again");
        require_same(result(), minus ? ra - rb : ra + rb, "the result for the changed operands");
    }
}

typedef void (*PairFn)(Ctx&);
template <class... Ts> struct TL {};
template <class A, class... Bs> void row(std::vector<PairFn>& v, TL<Bs...>) { (v.push_back(pair_law<A,Bs>), ...); }
template <class... As> std::vector<PairFn> table(TL<As...>) { std::vector<PairFn> v; (row<As>(v, TL<As...>()), ...); return v; }

} // namespace

#if PART == 1
LAW("static add/sub, column major", 0.3) { static auto t = table(TL<ZeM,SpF,DeF,SpD,DeD>()); c.pick(t)(c); }
LAW("static add/sub with multiple matrices", 0.3)
{
    static std::vector<PairFn> t = {
        pair_law<MuS,MuS>, pair_law<MuS,MuD>, pair_law<MuD,MuS>, pair_law<MuD,MuD>, pair_law<MuDD,MuDD>,
        pair_law<MuS,ZeM>, pair_law<MuS,SpF>, pair_law<MuS,DeF>, pair_law<MuS,SpD>, pair_law<MuS,DeD>,
        pair_law<MuD,ZeM>, pair_law<MuD,SpF>, pair_law<MuD,DeF>, pair_law<MuD,SpD>, pair_law<MuD,DeD>,
        pair_law<ZeM,MuS>, pair_law<SpF,MuS>, pair_law<DeF,MuS>, pair_law<SpD,MuS>, pair_law<DeD,MuS>,
        pair_law<ZeM,MuD>, pair_law<SpF,MuD>, pair_law<DeF,MuD>, pair_law<SpD,MuD>, pair_law<DeD,MuD>};
    c.pick(t)(c);
}
#elif PART == 2
typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Sparse,float,PR> SpFR;
typedef Matrix<Sparse,double,PR> SpDR;
typedef Matrix<Zero,NullType,PR> ZeR;
LAW("static add/sub, row major", 0.3) { static auto t = table(TL<ZeR,SpFR,DeFR,SpDR,DeDR>()); c.pick(t)(c); }
LAW("static add/sub, other parameters", 0.2)
{
    static auto t = [] {
        auto v = table(TL<Matrix<Zero,NullType,PI>,Matrix<Sparse,float,PI>,Matrix<Dense,double,PI>,Matrix<Sparse,double,PI>>());
        for (auto f : table(TL<Matrix<Sparse,double,PUR>,Matrix<Dense,float,PUR>,Matrix<Dense,double,PUR>>())) v.push_back(f);
        for (auto f : table(TL<Matrix<Sparse,double,PN>,Matrix<Dense,float,PN>,Matrix<Dense,double,PN>>())) v.push_back(f);
        return v;
    }();
    c.pick(t)(c);
}
#else
LAW("dynamic add/sub", 1.0)
{
    auto [r, n] = shape(c, 7); size_t ka = c.below(7), kb = c.below(7);
    Ref ra, rb;
    gen_sum(c, r, n, kind_bits(ka), kind_bits(kb), ra, rb);
    if (ka == 0) ra = Ref(r, n);
    if (kb == 0) rb = Ref(r, n);
    bool minus = c.chance(1, 2);
    c.tag(std::string(kind_name(ka)) + (minus ? " - " : " + ") + kind_name(kb));
    c.log() << "dynamic " << kind_name(ka) << (minus ? " - " : " + ") << kind_name(kb) << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(ra.nnz() || rb.nnz());
    bool self = c.chance(1, 20);
    if (self) { rb = ra; c.tag("both operands are the same"); }
    DynamicMatrix a = make_dyn(c, ka, ra), b = self ? a : make_dyn(c, kb, rb);
    c.step("operator");
    DynamicMatrix d = minus ? a - b : a + b;
    require_same(to_ref(d), minus ? ra - rb : ra + rb, minus ? "A - B" : "A + B");
    REQUIRE(d != a && d != b, "the result is an operand");
    require_same(to_ref(a), ra, "left operand afterwards");
    require_same(to_ref(b), rb, "right operand afterwards");
    require_same(to_ref(DeD(d)), minus ? ra - rb : ra + rb, "the result as a dense matrix");
}
#endif
