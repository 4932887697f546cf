// Run-time type dispatch: exec_if, exec_if_2dim, exec_dyn, exec_dyn_2dim, the type lists, and every operation of
// dynamic matrices over types which are listed and types which are not.
#ifndef BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION
#define BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION
#endif
#include "bbgen.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Core/Occupation.h"
#include "BlasBooster/Utilities/exec_dyn.h"
#include "BlasBooster/Utilities/exec_dyn_2dim.h"
#include "BlasBooster/Utilities/exec_if.h"
#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Utilities/TypeChecker.h"
using namespace bb;

namespace {

const char* op_name[] = {"+", "-", "+=", "-=", "* native", "norm one", "norm two", "norm max"};

/// result of an operation of two dynamic matrices as a reference matrix
Ref apply(size_t op, DynamicMatrix a, DynamicMatrix b)
{
    Ref s(1, 1);
    switch (op) {
        case 0: return to_ref(a + b);
        case 1: return to_ref(a - b);
        case 2: a += b; return to_ref(a);
        case 3: a -= b; return to_ref(a);
        case 4: return to_ref((a * b).execute<Native>());
        case 5: s(0,0) = norm<NormOne>(a); return s;
        case 6: s(0,0) = norm<NormTwo>(a); return s;
        default: s(0,0) = norm<NormMax>(a); return s;
    }
}
Ref expected(size_t op, Ref const& a, Ref const& b)
{
    Ref s(1, 1);
    switch (op) {
        case 0: case 2: return a + b;
        case 1: case 3: return a - b;
        case 4: return mul(a, b);
        case 5: for (double x : a.v) s(0,0) += std::abs(x); return s;
        case 6: for (double x : a.v) s(0,0) += x * x; s(0,0) = std::sqrt(s(0,0)); return s;
        default: for (double x : a.v) s(0,0) = std::max(s(0,0), std::abs(x)); return s;
    }
}
/// can the result be held: sums into the left operand exist for dense ones
bool defined(size_t op, size_t i, size_t j) { return !(op == 2 || op == 3) || ((i == 2 || i == 6) && (j == 0 || j == 2 || j == 6)); }

// ---- during static initialization --------------------------------------------------------

struct Early
{
    struct Entry { Ref a, b, got; std::string what; };
    std::vector<Entry> e;
    Early()
    {
        for (size_t op = 0; op < 8; ++op) for (size_t i = 0; i < 7; ++i) for (size_t j = 0; j < 7; ++j) {
            Entry x;
            x.a = x.b = Ref(2, 2);
            for (size_t k = 0; k < 4; ++k) { x.a.v[k] = i ? double(k) - 2.0 : 0.0; x.b.v[k] = j ? 3.0 - k : 0.0; }
            if (defined(op, i, j)) try { x.got = apply(op, make(i, x.a), make(j, x.b)); }
            catch (pbt::Failure const& f) { x.what = f.msg; }
            catch (std::exception const& f) { x.what = f.what(); }
            e.push_back(x);
        }
    }
    static DynamicMatrix make(size_t k, Ref const& a)
    {
        switch (k) {
            case 0: return std::make_shared<ZeM>(a.r, a.c);
            case 1: return std::make_shared<SpF>(sparse<float>(a));
            case 2: return std::make_shared<DeF>(dense<float>(a));
            case 3: return std::make_shared<SpD>(sparse<double>(a));
            case 4: return std::make_shared<MuS>(std::make_shared<SpD>(sparse<double>(a)), std::make_shared<SpF>(sparse<float>(a - a)));
            case 5: return std::make_shared<MuD>(std::make_shared<SpD>(sparse<double>(a - a)), std::make_shared<DeF>(dense<float>(a)));
            default: return std::make_shared<DeD>(dense<double>(a));
        }
    }
} early;

LAW("operations during static initialization", 0.1)
{
    size_t op = c.below(8), i = c.below(7), j = c.below(7);
    c.log() << op_name[op] << " of " << kind_name(i) << " and " << kind_name(j) << " before main()";
    if (!defined(op, i, j)) return;
    c.nontrivial(i && j);
    Early::Entry const& x = early.e[(op * 7 + i) * 7 + j];
    REQUIRE(x.what.empty(), "the operation failed with " << x.what);
    require_same(x.got, expected(op, x.a, x.b), "result", 1e-6);
}

LAW("operations of listed types", 1)
{
    size_t op = c.below(8), i = c.below(7), j = c.below(7), r = extent(c, 6), n = extent(c, 6), m = op == 4 ? c.size(1, 6) : n;
    if (!defined(op, i, j)) i = j = 6;
    Ref a = gen_ref(c, r, n), b = gen_ref(c, op == 4 ? n : r, m);
    if (!i) std::fill(a.v.begin(), a.v.end(), 0.0);
    if (!j) std::fill(b.v.begin(), b.v.end(), 0.0);
    DynamicMatrix da = make_dyn(c, i, a), db = make_dyn(c, j, b);
    c.log() << op_name[op] << " of " << kind_name(i) << " " << show(a) << " and " << kind_name(j) << " " << show(b);
    c.nontrivial(i && j && a.nnz() && b.nnz());
    c.step(op_name[op]);
    Ref want = expected(op, a, b);
    double scale = 0.0;
    for (double x : want.v) scale = std::max(scale, std::abs(x));
    require_same(apply(op, da, db), want, "result", op == 6 ? 1e-5 * scale : 0.0);
}

// ---- types which aren't in the list ------------------------------------------------------

DynamicMatrix unlisted(size_t k, size_t r, size_t n)
{
    switch (k) {
        case 0: return std::make_shared<Matrix<Dense,int>>(r, n);
        case 1: return std::make_shared<Matrix<Dense,double,PR>>(r, n);
        case 2: return std::make_shared<Matrix<Dense,float,PR>>(r, n);
        case 3: return std::make_shared<Matrix<Sparse,double,PR>>(sparse<double,PR>(Ref(r, n)));
        case 4: return std::make_shared<Matrix<Zero,NullType,PR>>(r, n);
        default: return std::make_shared<MuDD>(std::make_shared<DeD>(r, n), std::make_shared<DeF>(r, n));
    }
}
const char* unlisted_name[] = {"Dense<int>", "Dense<double,row>", "Dense<float,row>", "Sparse<double,row>", "Zero<row>", "Multiple<DeD,DeF>"};

LAW("operations of types which aren't listed", 0.5)
{
    size_t k = c.below(6), r = extent(c, 5), n = extent(c, 5), op = c.below(20), j = c.below(13), side = c.below(2);
    DynamicMatrix u = unlisted(k, r, n), l = j < 7 ? make_dyn(c, j, Ref(r, n)) : unlisted(j - 7, r, n);
    DynamicMatrix a = side && op < 5 ? l : u, b = side && op < 5 ? u : l;
    c.log() << "operation " << op << " of " << unlisted_name[k] << " " << r << "x" << n << (op < 5 ? (side ? " right of " : " left of ") : " next to ")
            << (j < 7 ? kind_name(j) : unlisted_name[j - 7]);
    c.nontrivial();
    std::ostringstream os;
    AbsoluteValueRangeChecker<double> checker(0.5);
    c.step("operation");
    REQUIRE(u->getTypeIndex() >= 7, unlisted_name[k] << " has type index " << u->getTypeIndex());
    try {
        switch (op) {
            case 0: a + b; break;
            case 1: a - b; break;
            case 2: a += b; break;
            case 3: a -= b; break;
            case 4: (a * b).execute<Native>(); break;
            case 5: norm<NormOne>(u); break;
            case 6: norm<NormTwo>(u); break;
            case 7: norm<NormMax>(u); break;
            case 8: getNbRows(u); break;
            case 9: getNbColumns(u); break;
            case 10: getSize(u); break;
            case 11: getNorm(u); break;
            case 12: isNormLargerThan(u, 1.0); break;
            case 13: getOccupation(u, checker); break;
            case 14: isOccupationLargerThan(u, 0.5, checker); break;
            case 15: countDesiredElements(u, checker); break;
            case 16: os << u; break;
            case 17: { DeD x(u); break; }
            case 18: { DeF x(u); break; }
            default: { SpD x(u); break; }
        }
    } catch (CoreException const& e) {
        REQUIRE(std::string(e.what()) == "type not found", "error is '" << e.what() << "'");
        return;
    }
    REQUIRE(false, "the operation wasn't refused");
}

// ---- tables of functions -----------------------------------------------------------------

struct ExtraA { enum { id = 100 }; };
struct ExtraB { enum { id = 200 }; };
template <class... T> struct Exec1;
template <class A> struct Exec1<A> { int operator () (DynamicMatrix const& a) const { return (int)A::typeIndex_ + (dynamic_cast<A*>(a.get()) ? 0 : 10000); } };
template <class E, class A> struct Exec1<E,A> { int operator () (DynamicMatrix const& a) const { return E::id + Exec1<A>()(a); } };
template <class E, class F, class A> struct Exec1<E,F,A> { int operator () (DynamicMatrix const& a) const { return E::id * 1000 + F::id + Exec1<A>()(a); } };
template <class... T> struct Exec2;
template <class A, class B> struct Exec2<A,B> {
    int operator () (DynamicMatrix const& a, DynamicMatrix const& b) const
    { return (int)A::typeIndex_ * 8 + (int)B::typeIndex_ + (dynamic_cast<A*>(a.get()) && dynamic_cast<B*>(b.get()) ? 0 : 10000); }
};
template <class E, class A, class B> struct Exec2<E,A,B> { int operator () (DynamicMatrix const& a, DynamicMatrix const& b) const { return E::id + Exec2<A,B>()(a, b); } };
typedef TypeList<ZeM,SpF,DeF> Three;
typedef TypeList<ZeM> One;
typedef std::function<int(DynamicMatrix const&)> F1;
typedef std::function<int(DynamicMatrix const&, DynamicMatrix const&)> F2;

LAW("tables of one type", 0.5)
{
    size_t i = c.below(7), e = c.below(4), l = c.below(3);
    DynamicMatrix a = make_dyn(c, i, Ref(2, 3));
    c.log() << "exec_dyn of " << kind_name(i) << " in a list of " << (l == 0 ? 7 : l == 1 ? 3 : 1) << " types with extra types " << e;
    c.nontrivial();
    size_t n = l == 0 ? 7 : l == 1 ? 3 : 1;
    int want = (int)i + (e == 0 ? 0 : e == 1 ? 100 : e == 2 ? 200 : 100200), got = -1;
    c.step("exec_dyn");
    try {
#define GO(L) got = e == 0 ? exec_dyn<L, Exec1, TypeList<>, F1>(a) : e == 1 ? exec_dyn<L, Exec1, TypeList<ExtraA>, F1>(a) \
                 : e == 2 ? exec_dyn<L, Exec1, TypeList<ExtraB>, F1>(a) : exec_dyn<L, Exec1, TypeList<ExtraA,ExtraB>, F1>(a)
        if (l == 0) GO(DynamicMatrixTypeList); else if (l == 1) GO(Three); else GO(One);
#undef GO
    } catch (CoreException const&) {
        REQUIRE(i >= n, "type number " << i << " not found in a list of " << n);
        return;
    }
    REQUIRE(i < n, "type number " << i << " found in a list of " << n);
    REQUIRE(got == want, "result is " << got << " instead of " << want);
}

LAW("tables of two types", 0.5)
{
    size_t i = c.below(7), j = c.below(7), e = c.below(3), l = c.below(3), n = l == 0 ? 7 : l == 1 ? 3 : 1;
    DynamicMatrix a = make_dyn(c, i, Ref(2, 3)), b = make_dyn(c, j, Ref(2, 3));
    c.log() << "exec_dyn_2dim of " << kind_name(i) << " and " << kind_name(j) << " in a list of " << n << " types with extra types " << e;
    c.nontrivial(i != j);
    int want = (int)(i * 8 + j) + (e == 0 ? 0 : e == 1 ? 100 : 200), got = -1;
    c.step("exec_dyn_2dim");
    try {
#define GO(L) got = e == 0 ? exec_dyn_2dim<L, Exec2, TypeList<>, F2>(a, b) : e == 1 ? exec_dyn_2dim<L, Exec2, TypeList<ExtraA>, F2>(a, b) \
                 : exec_dyn_2dim<L, Exec2, TypeList<ExtraB>, F2>(a, b)
        if (l == 0) GO(DynamicMatrixTypeList); else if (l == 1) GO(Three); else GO(One);
#undef GO
    } catch (CoreException const&) {
        REQUIRE(i >= n || j >= n, "types number " << i << " and " << j << " not found in a list of " << n);
        return;
    }
    REQUIRE(i < n && j < n, "types number " << i << " and " << j << " found in a list of " << n);
    REQUIRE(got == want, "result is " << got << " instead of " << want);
}

// ---- searching a list --------------------------------------------------------------------

template <size_t I> struct Tag { static const size_t typeIndex_ = I; };
struct Mask { unsigned m; template <class T> bool operator () (T*) const { return m >> T::typeIndex_ & 1; } };
struct Pick1 { typedef int result_type; std::vector<int>* seen; template <class T> int operator () (T*) const { seen->push_back((int)T::typeIndex_); return (int)T::typeIndex_; } };
struct Pick2 { typedef int result_type; std::vector<int>* seen; template <class T, class U> int operator () (T*, U*) const { int x = (int)(T::typeIndex_ * 8 + U::typeIndex_); seen->push_back(x); return x; } };
typedef TypeList<Tag<0>> L1;
typedef TypeList<Tag<1>,Tag<0>> L2;
typedef TypeList<Tag<3>,Tag<1>,Tag<2>,Tag<1>> L4;
typedef TypeList<Tag<6>,Tag<5>,Tag<4>,Tag<3>,Tag<2>,Tag<1>,Tag<0>> L7;
const std::vector<std::vector<int>> lists = {{0}, {1,0}, {3,1,2,1}, {6,5,4,3,2,1,0}};

int first(std::vector<int> const& l, unsigned m) { for (int x : l) if (m >> x & 1) return x; return -1; }

LAW("search of one type", 0.5)
{
    size_t l = c.below(4); unsigned m = (unsigned)c.below(128);
    if (c.chance(1, 3)) m = 1u << c.below(7);
    int want = first(lists[l], m), got = -1;
    bool checker = (m & (m - 1)) == 0 && m && c.chance(1, 2);
    size_t index = 0; while (m && !(m >> index & 1)) ++index;
    c.log() << "exec_if over list " << l << " with types " << m << (checker ? " by TypeChecker" : "");
    c.nontrivial(l > 0);
    std::vector<int> seen; Pick1 e{&seen};
    c.step("exec_if");
    try {
#define GO(L) got = checker ? exec_if<L>(TypeChecker(index), e) : exec_if<L>(Mask{m}, e)
        if (l == 0) GO(L1); else if (l == 1) GO(L2); else if (l == 2) GO(L4); else GO(L7);
#undef GO
    } catch (CoreException const&) {
        REQUIRE(want == -1, "type " << want << " not found");
        REQUIRE(seen.empty(), "function called though no type was found");
        return;
    }
    REQUIRE(got == want, "function of type " << got << " called instead of " << want);
    REQUIRE(seen.size() == 1, "function called " << seen.size() << " times");
}

LAW("search of two types", 0.5)
{
    size_t l = c.below(4); unsigned m1 = (unsigned)c.below(128), m2 = (unsigned)c.below(128);
    int w1 = first(lists[l], m1), w2 = first(lists[l], m2), want = w1 < 0 || w2 < 0 ? -1 : w1 * 8 + w2, got = -1;
    c.log() << "exec_if_2dim over list " << l << " with types " << m1 << " and " << m2;
    c.nontrivial(l > 0 && w1 != w2);
    std::vector<int> seen; Pick2 e{&seen};
    c.step("exec_if_2dim");
    try {
#define GO(L) got = exec_if_2dim<L>(Mask{m1}, Mask{m2}, e)
        if (l == 0) GO(L1); else if (l == 1) GO(L2); else if (l == 2) GO(L4); else GO(L7);
#undef GO
    } catch (CoreException const&) {
        REQUIRE(want == -1, "types " << w1 << " and " << w2 << " not found");
        REQUIRE(seen.empty(), "function called though no types were found");
        return;
    }
    REQUIRE(got == want, "function of types " << got << " called instead of " << want);
    REQUIRE(seen.size() == 1, "function called " << seen.size() << " times");
}

// ---- type lists --------------------------------------------------------------------------

template <class L> struct Look;
template <class... T> struct Look<TypeList<T...>>
{
    typedef TypeList<T...> L;
    static std::vector<size_t> indices() { return {(size_t)GetIndex<T,L>::value...}; }
    static size_t absent() { return GetIndex<Tag<99>,L>::value; }
    template <size_t... I> static std::vector<size_t> types(std::index_sequence<I...>) { return {GetType<I,L>::type::typeIndex_...}; }
    static std::vector<size_t> types() { return types(std::make_index_sequence<sizeof...(T)>()); }
};

LAW("type lists", 0.1)
{
    size_t l = c.below(5), k = c.below(7);
    c.log() << "list " << l << " position " << k; c.nontrivial();
    std::vector<int> want = {0,1,2,3,4,5,6};
    if (l < 4) want = lists[l];
    k %= want.size();
    std::vector<size_t> idx, types; size_t n, absent;
#define GO(L) idx = Look<L>::indices(), types = Look<L>::types(), n = GetSize<L>::value, absent = Look<L>::absent()
    if (l == 0) GO(L1); else if (l == 1) GO(L2); else if (l == 2) GO(L4); else if (l == 3) GO(L7); else GO(DynamicMatrixTypeList);
#undef GO
    REQUIRE(n == want.size(), "size is " << n);
    REQUIRE(types[k] == (size_t)want[k], "type at position " << k << " is " << types[k]);
    size_t f = std::find(want.begin(), want.end(), want[k]) - want.begin();
    REQUIRE(idx[k] == f, "index of the type at position " << k << " is " << idx[k] << " instead of " << f);
    REQUIRE(absent == n, "index of a type which isn't listed is " << absent);
}

// ---- parts of different dimensions -------------------------------------------------------

LAW("parts of a multiple matrix", 0.2)
{
    size_t r1 = c.size(0, 4), n1 = c.size(0, 4), r2 = c.chance(1, 2) ? r1 : c.size(0, 4), n2 = c.chance(1, 2) ? n1 : c.size(0, 4), how = c.below(3);
    bool same = r1 == r2 && n1 == n2;
    c.log() << "parts of " << r1 << "x" << n1 << " and " << r2 << "x" << n2 << (how ? " by reset" : " by constructor");
    c.nontrivial(!same);
    auto go = [&](auto* t, auto p1, auto p2) {
        typedef typename std::remove_pointer<decltype(t)>::type M;
        try {
            M m;
            if (how == 0) m = M(p1, p2); else m.reset(p1, p2);
            REQUIRE(same, "parts of different dimensions were accepted");
            REQUIRE(m.getNbRows() == r1 && m.getNbColumns() == n1, "dimension is " << m.getNbRows() << "x" << m.getNbColumns());
        } catch (CoreException const&) {
            REQUIRE(!same, "parts of the same dimension were refused");
        }
    };
    if (how < 2) go((MuS*)nullptr, std::make_shared<SpD>(sparse<double>(Ref(r1, n1))), std::make_shared<SpF>(sparse<float>(Ref(r2, n2))));
    else go((MuD*)nullptr, std::make_shared<SpD>(sparse<double>(Ref(r1, n1))), std::make_shared<DeF>(r2, n2));
}

} // namespace
