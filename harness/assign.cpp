// Compound assignment A += B, A -= B.
// Where the combination is implemented the result is A +- B; where it is not, the call throws and
// leaves both operands as they were.
#include "bbgen.h"
using namespace bb;

namespace {

/// combinations which have to work
template <class A> struct TakesAll : std::false_type {};
template <class T, class P> struct TakesAll<Matrix<Dense,T,P>> : std::true_type {};
template <class X, class Y> struct TakesAll<MultipleMatrix<X,Y>> : TakesAll<X> {};

template <class M> struct Params { typedef Parameter<> type; };
template <class M, class T, class P> struct Params<Matrix<M,T,P>> { typedef P type; };
template <class A, class B> void fix_any(size_t& r, size_t& n)
{
    if constexpr (Params<A>::type::isFixed) fix<A>(r, n);
    else if constexpr (Params<B>::type::isFixed) fix<B>(r, n);
}

template <class A, class B>
void check(Ctx& c, std::string const& what, bool minus, Ref const& ra, Ref const& rb, A& a, B& b, bool required, bool alias)
{
    c.step("operator");
    bool thrown = false;
    try {
        if (minus) a -= b; else a += b;
    } catch (std::runtime_error const&) {
        thrown = true;
    }
    if (thrown) {
        c.tag("throws");
        REQUIRE(!required, what << " threw 'not implemented'");
        require_same(to_ref(a), ra, "left operand after the exception");
    } else {
        c.tag("works");
        require_same(to_ref(a), minus ? ra - rb : ra + rb, what);
    }
    if (!alias) require_same(to_ref(b), rb, "right operand afterwards");
}

template <class A, class B>
void pair_law(Ctx& c)
{
    auto [r, n] = shape(c, 7);
    fix_any<A,B>(r, n);
    bool minus = c.chance(1, 2);
    Ref ra, rb;
    gen_sum(c, r, n, BitsOf<A>::value, less_precise(BitsOf<A>::value, BitsOf<B>::value), ra, rb);
    ra = holdable<A>(ra); rb = holdable<B>(rb);
    std::string what = Name<A>::s() + (minus ? " -= " : " += ") + Name<B>::s();
    c.log() << what << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(rb.nnz() && (TakesAll<A>::value || ra.nnz()));
    auto a = Build<A>::make(c, ra);
    bool alias = false;
    if constexpr (std::is_same<A,B>::value) alias = c.chance(1, 6);
    auto b = Build<B>::make(c, rb);
    bool required = TakesAll<A>::value || IsZeroType<B>::value;
    if constexpr (std::is_same<A,B>::value) {
        if (alias) { c.tag("aliased"); check(c, what, minus, ra, ra, *a, *a, required, true); return; }
    }
    check(c, what, minus, ra, rb, *a, *b, required, false);
}

typedef void (*PairFn)(Ctx&);
template <class... Ts> struct TL {};
template <class A, class... Bs> void row(std::vector<PairFn>& v, TL<Bs...>) { (v.push_back(pair_law<A,Bs>), ...); }
template <class... As> std::vector<PairFn> table(TL<As...>) { std::vector<PairFn> v; (row<As>(v, TL<As...>()), ...); return v; }

} // namespace

#if PART == 1
LAW("static compound assignment", 0.4) { static auto t = table(TL<ZeM,SpF,DeF,SpD,DeD>()); c.pick(t)(c); }
typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Sparse,double,PR> SpDR;
typedef Matrix<Zero,NullType,PR> ZeR;
LAW("static compound assignment, row major", 0.3) { static auto t = table(TL<ZeR,DeFR,DeDR,SpDR>()); c.pick(t)(c); }
LAW("static compound assignment, other parameters", 0.3)
{
    static auto t = [] {
        auto v = table(TL<Matrix<Zero,NullType,PI>,Matrix<Sparse,float,PI>,Matrix<Dense,double,PI>,Matrix<Sparse,double,PI>>());
        for (auto f : table(TL<Matrix<Dense,double,PF<3,5>>,Matrix<Dense,float,PF<3,5>>>())) v.push_back(f);
        for (auto f : table(TL<Matrix<Dense,double,PF<4,2,RowMajor>>,Matrix<Dense,float,PF<4,2,RowMajor>>>())) v.push_back(f);
        v.push_back(pair_law<Matrix<Dense,double,PS<3,5>>,Matrix<Dense,double,PS<3,5>>>);
        for (auto f : table(TL<Matrix<Dense,double,PN>,Matrix<Sparse,double,PN>,Matrix<Dense,float,PN>>())) v.push_back(f);
        return v;
    }();
    c.pick(t)(c);
}
#elif PART == 2
LAW("compound assignment of and to multiple matrices", 0.5)
{
    static std::vector<PairFn> t = {
        pair_law<DeD,MuS>, pair_law<DeD,MuD>, pair_law<DeF,MuS>, pair_law<DeF,MuD>, pair_law<DeD,MuDD>, pair_law<SpD,MuS>,
        pair_law<MuDD,DeD>, pair_law<MuDD,DeF>, pair_law<MuDD,SpD>, pair_law<MuDD,SpF>, pair_law<MuDD,ZeM>,
        pair_law<MuDD,MuDD>, pair_law<MuDD,MuS>, pair_law<MuDD,MuD>, pair_law<MuS,MuD>, pair_law<MuD,MuS>,
        pair_law<MuD,DeD>, pair_law<MuD,ZeM>, pair_law<MuS,ZeM>};
    c.pick(t)(c);
}
template <class X, class Y, bool first>
void shared_part(Ctx& c)
{
    typedef typename std::conditional<first, X, Y>::type A;
    auto [r, n] = shape(c, 6);
    bool minus = c.chance(1, 2);
    Ref ra, rx;
    gen_sum(c, r, n, small_numbers, small_numbers, ra, rx);
    c.log() << "A" << (minus ? " -= " : " += ") << "Multiple" << (first ? "(A,X)" : "(X,A)") << "  A=" << show(ra) << " X=" << show(rx);
    c.nontrivial(ra.nnz() && rx.nnz());
    auto a = Build<A>::make(c, ra);
    if constexpr (first) { MultipleMatrix<X,Y> m(a, Build<Y>::make(c, rx)); if (minus) *a -= m; else *a += m; }
    else { MultipleMatrix<X,Y> m(Build<X>::make(c, rx), a); if (minus) *a -= m; else *a += m; }
    Ref b = ra + rx;
    require_same(to_ref(*a), minus ? ra - b : ra + b, "matrix which is also a part of the right operand");
}
LAW("left operand is a part of the right operand", 0.2)
{
    static std::vector<PairFn> t = {shared_part<DeD,DeF,true>, shared_part<DeD,DeF,false>, shared_part<SpD,DeF,false>, shared_part<DeD,SpF,true>, shared_part<DeF,DeD,true>};
    c.pick(t)(c);
}
#else
LAW("dynamic compound assignment", 1.0)
{
    auto [r, n] = shape(c, 7); size_t ka = c.below(7), kb = c.below(7);
    Ref ra, rb;
    gen_sum(c, r, n, kind_bits(ka), less_precise(kind_bits(ka), kind_bits(kb)), ra, rb);
    if (ka == 0) ra = Ref(r, n);
    if (kb == 0) rb = Ref(r, n);
    bool minus = c.chance(1, 2), alias = c.chance(1, 8);
    if (alias) { kb = ka; rb = ra; }
    std::string what = std::string(kind_name(ka)) + (minus ? " -= " : " += ") + kind_name(kb);
    c.log() << "dynamic " << what << (alias ? " (same object)" : "") << "  A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(rb.nnz());
    DynamicMatrix a = make_dyn(c, ka, ra);
    DynamicMatrix b = alias ? a : make_dyn(c, kb, rb);
    // a dense left operand takes everything, everything takes a zero matrix
    bool required = ka == 2 || ka == 6 || kb == 0;
    c.step("operator");
    bool thrown = false;
    DynamicMatrix res;
    try {
        res = minus ? a -= b : a += b;
    } catch (std::runtime_error const&) {
        thrown = true;
    }
    if (thrown) {
        c.tag("throws");
        REQUIRE(!required, what << " threw 'not implemented'");
        require_same(to_ref(a), ra, "left operand after the exception");
    } else {
        c.tag("works");
        require_same(to_ref(a), minus ? ra - rb : ra + rb, what);
        require_same(to_ref(res), minus ? ra - rb : ra + rb, what + ", value of the expression");
    }
    if (!alias) require_same(to_ref(b), rb, "right operand afterwards");
}
#endif
