// Matrices are values: histories of construction, copy, move, assignment, swap and resizing over every type
// of matrix; equality of values.
#include "bbgen.h"
#include <algorithm>
using namespace bb;

namespace {

typedef Parameter<size_t,ColumnMajor,FixedSize<3,2>> PFC;
typedef Parameter<size_t,RowMajor,FixedSize<3,2>> PFR;
typedef Parameter<size_t,ColumnMajor,FixedSize<3,2>,NoLeadingDimension,NoUnblockedDimension,NormTwo,OnStack> PSC;
typedef Parameter<size_t,RowMajor,FixedSize<3,2>,NoLeadingDimension,NoUnblockedDimension,NormTwo,OnStack> PSR;

template <class M> struct Traits;
template <class T, class P> struct Traits<Matrix<Dense,T,P>>
{
    typedef Matrix<Dense,T,P> M;
    static constexpr bool fixed = P::isFixed;
    static std::string name() { return Name<M>::s() + (P::onStack ? " on stack" : P::isFixed ? " of fixed size" : ""); }
    static Ref gen(Ctx& c) { return fixed ? gen_exact<T>(c, 3, 2) : gen_exact<T>(c, shape(c, 5)); }
    static M* make(Ref const& r) { return new M(dense<T,P>(r)); }
    /// change one stored element
    static bool poke(Ctx& c, M& m, Ref& r)
    {
        if (r.v.empty()) return false;
        size_t i = c.below(r.r), j = c.below(r.c);
        r(i,j) = gen_exact_value<T>(c);
        if (c.chance(1, 2)) m(i,j) = static_cast<T>(r(i,j));
        else {
            size_t p = std::is_same<typename P::orientation,RowMajor>::value ? i * r.c + j : i + j * r.r;
            m.begin()[p] = static_cast<T>(r(i,j));
        }
        return true;
    }
    static bool resize(Ctx& c, M& m, Ref& r)
    {
        if constexpr (fixed) return false;
        else {
            size_t a = c.size(0, c.big(5)), b = c.size(0, c.big(5));
            double x = gen_exact_value<T>(c);
            bool filler = c.chance(1, 2);
            if (filler) m.resize(a, b, AllFiller<T>(static_cast<T>(x)));
            else { m.resize(a, b); m = static_cast<T>(x); }
            r = Ref(a, b);
            std::fill(r.v.begin(), r.v.end(), x);
            return true;
        }
    }
};
template <class T, class P> struct Traits<Matrix<Sparse,T,P>>
{
    typedef Matrix<Sparse,T,P> M;
    static constexpr bool fixed = false;
    static std::string name() { return Name<M>::s(); }
    static Ref gen(Ctx& c) { return gen_exact<T>(c, shape(c, 5)); }
    static M* make(Ref const& r) { return new M(sparse<T,P>(r)); }
    static bool poke(Ctx& c, M& m, Ref& r)
    {
        if (m.nnz() == 0) return false;
        size_t k = c.below(m.nnz());
        m.begin()[k] = static_cast<T>(gen_nonzero(c));
        r = to_ref(m);
        return true;
    }
    static bool resize(Ctx& c, M& m, Ref& r)
    {
        size_t a = c.size(0, c.big(5)), b = c.size(0, c.big(5));
        bool row = std::is_same<typename P::orientation,RowMajor>::value;
        if (!a || !b || c.chance(1, 2)) {       // no elements yet, full storage
            m.resize(a, b);
            REQUIRE(m.nnz() == a * b, "resized to " << a << "x" << b << ": " << m.nnz() << " elements");
            // fill completely
            r = gen_exact<T>(c, a, b);
            size_t outer = row ? a : b, inner = row ? b : a;
            REQUIRE(m.sizeOffset() == outer + 1, "resized to " << a << "x" << b << ": " << m.sizeOffset() << " offsets");
            for (size_t o = 0; o <= outer; ++o) m.beginOffset()[o] = o * inner;
            for (size_t o = 0; o < outer; ++o) for (size_t i = 0; i < inner; ++i) {
                m.beginKey()[o * inner + i] = i;
                m.begin()[o * inner + i] = static_cast<T>(row ? r(o,i) : r(i,o));
            }
        } else {                                // one element
            m.resize(a, b, 1);
            REQUIRE(m.nnz() == 1, "resized for one element: " << m.nnz());
            size_t i = c.below(a), j = c.below(b), o = row ? i : j;
            r = Ref(a, b);
            r(i,j) = gen_nonzero(c);
            for (size_t k = 0; k < m.sizeOffset(); ++k) m.beginOffset()[k] = k > o;
            m.beginKey()[0] = row ? j : i;
            m.begin()[0] = static_cast<T>(r(i,j));
        }
        return true;
    }
};
template <class P> struct Traits<Matrix<Zero,NullType,P>>
{
    typedef Matrix<Zero,NullType,P> M;
    static constexpr bool fixed = false;
    static std::string name() { return Name<M>::s(); }
    static Ref gen(Ctx& c) { return Ref(c.size(0, c.big(5)), c.size(0, c.big(5))); }
    static M* make(Ref const& r) { return new M(r.r, r.c); }
    static bool poke(Ctx&, M&, Ref&) { return false; }
    static bool resize(Ctx& c, M& m, Ref& r) { r = Ref(c.size(0, c.big(5)), c.size(0, c.big(5))); m.resize(r.r, r.c); return true; }
};

template <class M>
void history(Ctx& c)
{
    typedef Traits<M> Tr;
    struct Slot { std::unique_ptr<M> m; Ref r; bool known = true; };      // !known: moved from
    std::vector<Slot> w(3);
    std::string name = Tr::name();
    c.tag(name);
    c.log() << name << ": ";
    size_t n = c.size(1, 16), changes = 0, moved = 0;
    for (size_t i = 0; i < 3; ++i) { w[i].r = Tr::gen(c); w[i].m.reset(Tr::make(w[i].r)); }
    for (size_t k = 0; k < n; ++k) {
        size_t i = c.below(3), j = c.below(3);
        Slot& a = w[i]; Slot& b = w[j];
        std::ostringstream what;
        switch (c.below(11)) {
            case 0:
                if (b.known && c.chance(1, 3)) { Ref r = b.r; std::reverse(r.v.begin(), r.v.end()); a.r = r; what << "(" << j << " reversed) "; }     // as many elements at other places
                else a.r = Tr::gen(c);
                what << i << "=new " << a.r.r << "x" << a.r.c; c.step(what.str()); a.m.reset(Tr::make(a.r)); a.known = true; break;
            case 1: if (!b.known) continue; what << i << "=copy of " << j; c.step(what.str()); { std::unique_ptr<M> m(new M(*b.m)); a.m = std::move(m); a.r = b.r; a.known = true; } ++changes; break;
            case 2: if (!b.known || i == j) continue; what << i << "=moved " << j; c.step(what.str()); a.m.reset(new M(std::move(*b.m))); a.r = b.r; a.known = true; b.known = false; ++changes; ++moved; break;
            case 3: case 4: if (!b.known) continue; what << i << ":=" << j; c.step(what.str()); *a.m = *b.m; a.r = b.r; a.known = true; ++changes; break;
            case 5: if (!b.known) continue; what << i << ":=move " << j; c.step(what.str()); *a.m = std::move(*b.m); if (i != j) { a.r = b.r; a.known = true; b.known = false; ++moved; } ++changes; break;
            case 6: what << "swap " << i << " " << j; c.step(what.str()); { using std::swap; swap(*a.m, *b.m); } std::swap(a.r, b.r); std::swap(a.known, b.known); ++changes; break;
            case 7: what << i << " resized"; c.step(what.str()); if (Tr::fixed || !Tr::resize(c, *a.m, a.r)) continue; a.known = true; ++changes; break;
            case 8: case 9: if (!a.known) continue; what << i << " changed"; c.step(what.str()); if (!Tr::poke(c, *a.m, a.r)) continue; ++changes; break;
            default: what << i << ":=temporary"; c.step(what.str()); { Ref r = Tr::gen(c); std::unique_ptr<M> t(Tr::make(r)); *a.m = std::move(*t); a.r = r; a.known = true; } ++changes; break;
        }
        c.log() << what.str() << "; ";
        c.step("check after " + what.str());
        for (size_t q = 0; q < 3; ++q) if (w[q].known) {
            std::ostringstream os; os << name << " " << q << " after " << what.str();
            require_same(to_ref(*w[q].m), w[q].r, os.str());
            REQUIRE(w[q].m->getSize() == w[q].r.v.size(), os.str() << ": getSize() is " << w[q].m->getSize());
        }
    }
    if (moved) c.tag("moved");
    c.nontrivial(changes > 2);
}

/// equal() is equality of dimensions and elements, for any two orientations, precisions and storages
template <class A, class B>
void equality(Ctx& c)
{
    Ref a = gen_ref(c, shape(c, 5)), b = a;
    bool fixed = Traits<A>::fixed || Traits<B>::fixed;
    if (fixed) b = a = gen_ref(c, 3, 2);
    const char* what = "same";
    switch (c.below(6)) {
        case 5: if (b.v.size() > 1) {       // one element at another place, mostly beside the old one
            size_t i = c.below(b.r), j = c.below(b.c), p = i, q = j;
            switch (c.below(3)) { case 0: p = (i + 1) % b.r; break; case 1: q = (j + 1) % b.c; break; default: p = c.below(b.r); q = c.below(b.c); }
            std::swap(b(i,j), b(p,q)); what = "two elements exchanged";
        } break;
        case 0: if (!b.v.empty()) { size_t i = c.below(b.r), j = c.below(b.c); b(i,j) = b(i,j) + (c.chance(1, 2) ? 0.25 : -0.25); what = "one element"; } break;
        case 1: b = fixed ? gen_ref(c, 3, 2) : trans(a); what = "transposed"; break;
        case 2: if (!fixed) { b.r = c.size(0, 6); b.v.resize(b.r * b.c); what = "other number of rows"; } break;
        case 3: if (!fixed) { b.c = c.size(0, 6); b.v.resize(b.r * b.c); what = "other number of columns"; } break;
        default: break;
    }
    a = holdable<A>(a); b = holdable<B>(b);
    c.tag(what);
    c.log() << Traits<A>::name() << " " << show(a) << "  " << Traits<B>::name() << " " << show(b);
    c.nontrivial(a.v.size() > 1);
    bool want = a.r == b.r && a.c == b.c && a.v == b.v;
    c.tag(want ? "equal" : "different");
    std::unique_ptr<A> x(Traits<A>::make(a)); std::unique_ptr<B> y(Traits<B>::make(b));
    REQUIRE(x->equal(*y) == want, Traits<A>::name() << " equal " << Traits<B>::name() << " says " << x->equal(*y) << " (" << what << ")");
    REQUIRE(y->equal(*x) == want, Traits<B>::name() << " equal " << Traits<A>::name() << " says " << y->equal(*x) << " (" << what << ")");
    REQUIRE(x->notEqual(*y) == !want && y->notEqual(*x) == !want, "notEqual is not the opposite of equal (" << what << ")");
    A z(*x);
    REQUIRE(z.equal(*x) && x->equal(*x), "a copy is not equal");
}

/// a matrix over external memory shows that memory; copies of it do not
void external(Ctx& c)
{
    Ref v = gen_ref(c, c.size(1, 5), c.size(1, 5));
    std::vector<double> mem(v.v);
    DeD m(v.r, v.c, mem.data());
    c.log() << show(v);
    c.nontrivial(v.v.size() > 1);
    require_same(to_ref(m), v, "matrix over external memory");
    DeD copy(m);
    DeD moved(std::move(m));
    size_t steps = c.size(1, 6);
    for (size_t k = 0; k < steps; ++k) {
        size_t i = c.below(v.r), j = c.below(v.c); double x = gen_value(c);
        Ref old = to_ref(copy);
        if (c.chance(1, 2)) moved(i,j) = x; else mem[i + j * v.r] = x;
        v(i,j) = x;
        require_same(to_ref(moved), v, "matrix over external memory after a change");
        REQUIRE(mem == v.v, "the external memory does not have the elements of the matrix");
        require_same(to_ref(copy), old, "copy of the matrix over external memory");
    }
    copy(0,0) = 99.5;
    REQUIRE(mem == v.v, "changing the copy changes the external memory");
    bool thrown = false;
    try { moved.resize(v.r + 1, v.c); } catch (std::runtime_error const&) { thrown = true; }
    REQUIRE(thrown, "external memory can be resized");
}

/// initializer lists
template <class M> void lists(Ctx& c)
{
    double x[6]; for (auto& e : x) { e = gen_value(c); c.log() << e << " "; }
    c.nontrivial();
    Ref a(2, 3), b(3, 2), s(1, 1), l(1, 4), t(4, 1);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) a(i,j) = x[3*i+j];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) b(i,j) = x[2*i+j];
    s(0,0) = x[5];
    for (int j = 0; j < 4; ++j) l(0,j) = t(j,0) = x[j];
    typedef typename M::value_type T;
#define E(k) static_cast<T>(x[k])
    require_same(to_ref(M{{E(0),E(1),E(2)},{E(3),E(4),E(5)}}), a, "2x3 list");
    require_same(to_ref(M{{E(0),E(1)},{E(2),E(3)},{E(4),E(5)}}), b, "3x2 list");
    require_same(to_ref(M{{E(5)}}), s, "1x1 list");
    require_same(to_ref(M{{E(0),E(1),E(2),E(3)}}), l, "1x4 list");
    require_same(to_ref(M{{E(0)},{E(1)},{E(2)},{E(3)}}), t, "4x1 list");
}
template <class M> void fixed_lists(Ctx& c)
{
    double x[6]; for (auto& e : x) { e = gen_value(c); c.log() << e << " "; }
    c.nontrivial();
    typedef typename M::value_type T;
    Ref b(3, 2);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) b(i,j) = x[2*i+j];
    M m{{E(0),E(1)},{E(2),E(3)},{E(4),E(5)}};
    require_same(to_ref(m), b, "3x2 list");
    require_same(to_ref(transpose(m)), trans(b), "transpose of a matrix of fixed size");
    require_same(to_ref(transpose(transpose(m))), b, "transpose of the transpose of a matrix of fixed size");
    require_same(to_ref(DeD(m)), b, "conversion of a matrix of fixed size");
    require_same(to_ref(Matrix<Dense,double,PR>(m)), b, "conversion of a matrix of fixed size to row-major");
    require_same(to_ref(Matrix<Sparse,T,Parameter<size_t,typename M::orientation>>(m)), b, "conversion of a matrix of fixed size to sparse");
    double n = 0.0; for (double e : x) n += e * e;
    double d = m.getNorm() * m.getNorm() - n;
    REQUIRE((d < 0 ? -d : d) <= 1e-9 * n, "norm of a matrix of fixed size");
    M s = m;
    s += m;
    require_same(to_ref(s), b + b, "sum of matrices of fixed size");
    s -= m;
    REQUIRE(s.equal(m), "difference of matrices of fixed size");
}

} // namespace

typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Sparse,double,PR> SpDR;

LAW("values of Dense<double>", 1) { history<DeD>(c); }
LAW("values of Dense<float>", 0.3) { history<DeF>(c); }
LAW("values of Dense<double,row>", 0.5) { history<DeDR>(c); }
LAW("values of Sparse<double>", 1) { history<SpD>(c); }
LAW("values of Sparse<float>", 0.3) { history<SpF>(c); }
LAW("values of Sparse<double,row>", 0.5) { history<SpDR>(c); }
LAW("values of Zero", 0.3) { history<ZeM>(c); }
LAW("values of matrices of fixed size", 0.5)
{
    switch (c.below(4)) {
        case 0: history<Matrix<Dense,double,PFC>>(c); break;
        case 1: history<Matrix<Dense,float,PFR>>(c); break;
        case 2: history<Matrix<Dense,double,PSC>>(c); break;
        default: history<Matrix<Dense,double,PSR>>(c); break;
    }
}
LAW("equality", 1)
{
    switch (c.below(12)) {
        case 0: equality<DeD,DeD>(c); break;
        case 1: equality<DeD,DeF>(c); break;
        case 2: equality<DeD,DeDR>(c); break;
        case 3: equality<DeFR,DeD>(c); break;
        case 4: equality<DeDR,DeFR>(c); break;
        case 5: equality<SpD,SpD>(c); break;
        case 6: equality<SpD,SpF>(c); break;
        case 7: equality<SpD,SpDR>(c); break;
        case 8: equality<ZeM,ZeM>(c); break;
        case 9: equality<Matrix<Dense,double,PFC>,DeD>(c); break;
        case 10: equality<Matrix<Dense,double,PFC>,Matrix<Dense,float,PSR>>(c); break;
        default: equality<Matrix<Dense,double,PFR>,Matrix<Dense,double,PFC>>(c); break;
    }
}
LAW("external memory", 0.5) { external(c); }
LAW("initializer lists", 0.3) { switch (c.below(3)) { case 0: lists<DeD>(c); break; case 1: lists<DeFR>(c); break; default: lists<DeF>(c); break; } }
LAW("fixed size", 0.3)
{
    switch (c.below(4)) {
        case 0: fixed_lists<Matrix<Dense,double,PFC>>(c); break;
        case 1: fixed_lists<Matrix<Dense,float,PFR>>(c); break;
        case 2: fixed_lists<Matrix<Dense,double,PSC>>(c); break;
        default: fixed_lists<Matrix<Dense,double,PSR>>(c); break;
    }
}
