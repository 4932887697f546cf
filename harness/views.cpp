// Sub-matrices (views) of dense matrices, cursors, and copy between them.
#include "bbgen.h"
#include "BlasBooster/Core/Copy.h"
#include "BlasBooster/Core/Cursor.h"
using namespace bb;

namespace {

template <class O> using PS = Parameter<size_t,O,VariableSize,LeadingDimension>;
typedef AbsoluteValueRangeChecker<double> Above;

struct Window { size_t i0, j0, r, c; };
Window gen_window(Ctx& c, size_t r, size_t n, bool empty = false)
{
    Window w;
    w.r = c.size(empty || r == 0 ? 0 : 1, r); w.c = c.size(empty || n == 0 ? 0 : 1, n);
    if (c.chance(1, 6)) w.r = r;
    if (c.chance(1, 6)) w.c = n;
    w.i0 = c.size(0, r - w.r); w.j0 = c.size(0, n - w.c);
    return w;
}
std::ostream& operator << (std::ostream& os, Window const& w) { return os << w.r << "x" << w.c << "@(" << w.i0 << "," << w.j0 << ")"; }
Ref sub(Ref const& a, Window const& w) { return bb::sub(a, w.r, w.c, w.i0, w.j0); }

/// everything a view shows: elements, iteration, cursors, conversion
template <class T, class O, class V>
void shows(Ctx& c, V const& s, Ref const& want, std::string const& what)
{
    bool row = std::is_same<O,RowMajor>::value;
    require_same(to_ref(s), want, what);
    REQUIRE(s.getSize() == want.v.size(), what << ": size is " << s.getSize());
    c.step(what + " iterate");
    size_t k = 0;
    for (auto p = s.begin(); p != s.end(); ++p, ++k) {
        REQUIRE(k < want.v.size(), what << ": iteration runs past the end");
        double e = row ? want(k / want.c, k % want.c) : want.v[k];
        REQUIRE(static_cast<double>(*p) == e, what << ": element number " << k << " of the iteration is " << *p << " instead of " << e);
    }
    REQUIRE(k == want.v.size(), what << ": iteration ends after " << k << " elements");
    c.step(what + " iterate backwards");
    for (auto p = s.end(); p != s.begin(); ) {
        REQUIRE(k > 0, what << ": iteration runs past the beginning");
        --p; --k;
        double e = row ? want(k / want.c, k % want.c) : want.v[k];
        REQUIRE(static_cast<double>(*p) == e, what << ": element number " << k << " of the iteration backwards is " << *p << " instead of " << e);
    }
    REQUIRE(k == 0, what << ": iteration backwards ends " << k << " elements after the beginning");
    if (want.v.size()) {
        c.step(what + " iterate back and forth");
        auto p = c.chance(1, 2) ? s.begin() : (k = want.v.size(), s.end());
        for (size_t steps = c.size(0, 20); steps; --steps) {
            bool up = k == 0 || (k != want.v.size() && c.chance(1, 2));
            if (up) { ++p; ++k; } else { --p; --k; }
            REQUIRE((p == s.end()) == (k == want.v.size()) && (p == s.begin()) == (k == 0), what << ": the iterator after steps back and forth is not where the steps lead to");
            if (k == want.v.size()) continue;
            double e = row ? want(k / want.c, k % want.c) : want.v[k];
            REQUIRE(static_cast<double>(*p) == e, what << ": element number " << k << " reached back and forth is " << *p << " instead of " << e);
        }
    }
    c.step(what + " convert");
    require_same(to_ref(Matrix<Dense,T,Parameter<size_t,O>>(s)), want, what + " as matrix");
    require_same(to_ref(Matrix<Dense,double,Parameter<size_t,O>>(s)), want, what + " as matrix of double");
    double t = static_cast<double>(c.below(12)) / 2.0;
    Ref cut(want);
    for (auto& e : cut.v) if (!Above(t)(e)) e = 0.0;
    require_same(to_ref(Matrix<Dense,T,Parameter<size_t,O>>(s, Above(t))), cut, what + " as matrix of the elements above a threshold");
}

template <class M, class D1, class D2> using Cur2 = Cursor<Cursor<M,D1>,D2>;

/// rows of columns and columns of rows
template <class M>
void cursors(Ctx& c, M const& m, Ref const& want, std::string const& what)
{
    c.step(what + " row cursor");
    size_t i = 0;
    typedef Cursor<const M, Direction::Row> R;
    typedef Cursor<R, Direction::Column> RC;
    for (R r(m, 0), e(m, m.getNbRows()); r != e; ++r, ++i) {
        REQUIRE(*r == i, what << ": row cursor is at " << *r << " instead of " << i);
        size_t j = 0;
        for (RC p(m, r.begin()), q(m, r.end()); p != q; ++p, ++j) {
            REQUIRE(j < want.c, what << ": row " << i << " does not end");
            REQUIRE(value_of(*p) == want(i,j), what << ": cursor at (" << i << "," << j << ") has " << *p << " instead of " << want(i,j));
        }
        REQUIRE(j == want.c, what << ": row " << i << " has " << j << " elements");
        if (want.c) {       // backwards
            RC p(m, r.end()), b(m, r.begin());
            while (!(p == b)) { --p; --j; REQUIRE(value_of(*p) == want(i,j), what << ": cursor going back at (" << i << "," << j << ")"); }
            REQUIRE(j == 0, what << ": going back in row " << i << " ends at " << j);
        }
    }
    REQUIRE(i == want.r, what << ": " << i << " rows");
    c.step(what + " column cursor");
    size_t j = 0;
    typedef Cursor<const M, Direction::Column> C;
    typedef Cursor<C, Direction::Row> CR;
    for (C q(m, 0), e(m, m.getNbColumns()); q != e; ++q, ++j) {
        size_t i = 0;
        for (CR p(m, q.begin()), z(m, q.end()); p != z; ++p, ++i) {
            REQUIRE(i < want.r, what << ": column " << j << " does not end");
            REQUIRE(value_of(*p) == want(i,j), what << ": cursor at (" << i << "," << j << ") has " << *p << " instead of " << want(i,j) << " (column first)");
        }
        REQUIRE(i == want.r, what << ": column " << j << " has " << i << " elements");
    }
    REQUIRE(j == want.c, what << ": " << j << " columns");
}

template <class T, class O>
void view_law(Ctx& c)
{
    typedef Parameter<size_t,O> P;
    typedef Matrix<Dense,T,P> M;
    typedef Matrix<Dense,T,PS<O>> V;
    Ref a = gen_exact<T>(c, shape(c, 7));
    M m = dense<T,P>(a);
    Window w = gen_window(c, a.r, a.c, c.chance(1, 8));
    c.log() << Name<M>::s() << " " << show(a) << " view " << w;
    c.tag(w.r == 0 || w.c == 0 ? "empty view" : w.r == a.r && w.c == a.c ? "whole" : "part");
    V s(m, w.r, w.c, w.i0, w.j0);
    REQUIRE(s.getLdRows() == a.r && s.getLdColumns() == a.c, "leading dimensions " << s.getLdRows() << "x" << s.getLdColumns() << " instead of " << a.r << "x" << a.c);
    shows<T,O>(c, s, sub(a, w), "view");
    cursors(c, s, sub(a, w), "view");
    cursors(c, m, a, "matrix");
    // views of views
    Window x = gen_window(c, w.r, w.c, true);
    V ss(s, x.r, x.c, x.i0, x.j0);
    c.log() << " view of it " << x;
    shows<T,O>(c, ss, sub(sub(a, w), x), "view of view");
    cursors(c, ss, sub(sub(a, w), x), "view of view");
    V cs(ss), as(m, std::min<size_t>(1, a.r), std::min<size_t>(1, a.c));
    as = ss;
    c.nontrivial(x.r * x.c > 0 && w.r * w.c < a.r * a.c && w.r * w.c > 1);
    // passed on: moved, exchanged and assigned to views of other matrices
    {
        Ref b = gen_exact<T>(c, extent(c, 7), extent(c, 7));
        M n = dense<T,P>(b);
        Window y = gen_window(c, b.r, b.c, true);
        c.log() << " another view " << y << " of " << show(b);
        Ref rs = sub(sub(a, w), x), rt = sub(b, y);
        V p(ss), q(n, y.r, y.c, y.i0, y.j0);
        size_t n0 = c.size(1, 4);
        for (size_t k = 0; k < n0; ++k) {
            size_t how = c.below(5);
            c.log() << " pass on " << how;
            c.step("pass on");
            switch (how) {
                case 0: { using std::swap; swap(p, q); std::swap(rs, rt); break; }
                case 1: { V h(std::move(p)); p = std::move(q); q = std::move(h); std::swap(rs, rt); break; }
                case 2: { V h(p); p = q; q = h; std::swap(rs, rt); break; }
                case 3: { V h(std::move(p)); V g(h); p = g; break; }
                default: p = V(q); rs = rt;
            }
            auto is = [&](V const& v, Ref const& r, const char* what) {
                require_same(to_ref(v), r, what);
                require_same(to_ref(M(v)), r, std::string(what) + " as matrix");
                REQUIRE((v.getLdRows() == a.r && v.getLdColumns() == a.c) || (v.getLdRows() == b.r && v.getLdColumns() == b.c), what << ": leading dimensions " << v.getLdRows() << "x" << v.getLdColumns());
            };
            is(p, rs, "view passed on");
            is(q, rt, "the other view passed on");
        }
        require_same(to_ref(m), a, "the matrix after passing on views");
        require_same(to_ref(n), b, "the other matrix after passing on views");
    }
    // writing
    size_t n = c.size(0, 6);
    for (size_t k = 0; k < n; ++k) {
        double e = gen_exact_value<T>(c);
        size_t who = c.below(6);
        V& t = who == 0 ? s : who == 1 ? ss : who == 2 ? cs : as;
        bool outer = who == 0;
        size_t r = outer ? w.r : x.r, q = outer ? w.c : x.c;
        size_t di = w.i0 + (outer ? 0 : x.i0), dj = w.j0 + (outer ? 0 : x.j0);
        if (who == 4 && a.v.empty()) continue;
        if (who == 4) { size_t i = c.below(a.r), j = c.below(a.c); m(i,j) = static_cast<T>(e); a(i,j) = e; }
        else if (r * q == 0) continue;
        else if (who == 5) {        // whole view
            as = static_cast<T>(e);
            for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < q; ++j) a(di+i,dj+j) = e;
        } else {
            size_t i = c.below(r), j = c.below(q);
            t(i,j) = static_cast<T>(e); a(di+i,dj+j) = e;
        }
        c.log() << " write by " << who;
        c.step("after a write");
        require_same(to_ref(m), a, "the matrix after writing through a view");
        require_same(to_ref(s), sub(a, w), "view after writing");
        require_same(to_ref(ss), sub(sub(a, w), x), "view of view after writing");
        require_same(to_ref(cs), sub(sub(a, w), x), "copied view after writing");
        require_same(to_ref(as), sub(sub(a, w), x), "assigned view after writing");
    }
}

/// copy between matrices and views of any orientation and precision; nothing but the destination changes
template <class T1, class O1, class T2, class O2>
void copy_law(Ctx& c)
{
    typedef Parameter<size_t,O1> P1; typedef Parameter<size_t,O2> P2;
    typedef typename Less<T1,T2>::type T;
    Ref a = gen_exact<T>(c, shape(c, 7)), b = gen_exact<T2>(c, extent(c, 7), extent(c, 7));
    Window w = gen_window(c, std::min(a.r, b.r), std::min(a.c, b.c)), x = w;
    w.i0 = c.size(0, a.r - w.r); w.j0 = c.size(0, a.c - w.c);
    x.i0 = c.size(0, b.r - w.r); x.j0 = c.size(0, b.c - w.c);
    c.log() << show(a) << " " << w << " to " << show(b) << " " << x;
    c.nontrivial(w.r * w.c > 1 && w.r < b.r && w.c < b.c);
    Matrix<Dense,T1,P1> m = dense<T1,P1>(a);
    Matrix<Dense,T2,P2> d = dense<T2,P2>(b);
    Matrix<Dense,T1,PS<O1>> s(m, w.r, w.c, w.i0, w.j0);
    Matrix<Dense,T2,PS<O2>> t(d, x.r, x.c, x.i0, x.j0);
    Ref part = sub(a, w);
    c.step("view to view");
    copy(s, t);
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) b(x.i0+i,x.j0+j) = part(i,j);
    require_same(to_ref(d), b, "destination");
    require_same(to_ref(m), a, "source");
    c.step("view to matrix");
    Matrix<Dense,T2,P2> e = dense<T2,P2>(Ref(w.r, w.c));
    copy(s, e);
    require_same(to_ref(e), part, "matrix copied from view");
    c.step("matrix to view");
    Ref g = gen_exact<T>(c, w.r, w.c);
    copy(dense<T1,P1>(g), t);
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) b(x.i0+i,x.j0+j) = g(i,j);
    require_same(to_ref(d), b, "destination of a matrix");
    c.step("matrix to matrix");
    Matrix<Dense,T2,P2> f = dense<T2,P2>(Ref(a.r, a.c));
    copy(m, f);
    require_same(to_ref(f), a, "copied matrix");
}

/// overlapping pieces of one matrix put together again
template <class T, class O>
void tiles_law(Ctx& c)
{
    typedef Parameter<size_t,O> P;
    Ref a = gen_exact<T>(c, shape(c, 9));
    Matrix<Dense,T,P> m = dense<T,P>(a), d = dense<T,P>(Ref(a.r, a.c));
    std::vector<size_t> ri{0}, ci{0};
    while (ri.back() < a.r) ri.push_back(std::min(a.r, ri.back() + c.size(1, 4)));
    while (ci.back() < a.c) ci.push_back(std::min(a.c, ci.back() + c.size(1, 4)));
    c.log() << show(a) << " in " << ri.size() - 1 << "x" << ci.size() - 1 << " tiles";
    c.nontrivial(ri.size() > 2 && ci.size() > 2);
    for (size_t i = 0; i + 1 < ri.size(); ++i) for (size_t j = 0; j + 1 < ci.size(); ++j) {
        size_t r = ri[i+1] - ri[i], n = ci[j+1] - ci[j];
        Matrix<Dense,T,PS<O>> s(m, r, n, ri[i], ci[j]), t(d, r, n, ri[i], ci[j]);
        Matrix<Dense,T,P> tmp(s);
        copy(tmp, t);
    }
    require_same(to_ref(d), a, "matrix put together from its tiles");
}

/// A += B and A -= B of views, of two matrices or of disjoint or identical windows of one; equality of views; a view assigned to matrices
template <class T, class O>
void arithmetic_law(Ctx& c)
{
    typedef Parameter<size_t,O> P;
    typedef Matrix<Dense,T,P> M;
    typedef Matrix<Dense,T,PS<O>> V;
    Ref a = gen_exact<T>(c, shape(c, 8)), b = gen_exact<T>(c, extent(c, 8), extent(c, 8));
    M m = dense<T,P>(a), n = dense<T,P>(b);
    int how = static_cast<int>(c.below(3));
    Window w = gen_window(c, how == 1 ? a.r : std::min(a.r, b.r), std::min(a.c, b.c)), x = w;
    if (how == 0) { w.i0 = c.size(0, a.r - w.r); w.j0 = c.size(0, a.c - w.c); x.i0 = c.size(0, b.r - w.r); x.j0 = c.size(0, b.c - w.c); }
    else if (how == 1) x = w;
    else {      // one above the other, in the same matrix
        w.r = x.r = a.r > 1 ? a.r / 2 : a.r; w.c = x.c = c.size(std::min<size_t>(1, a.c), a.c);
        w.i0 = 0; x.i0 = a.r > 1 ? a.r - x.r : 0;
        w.j0 = c.size(0, a.c - w.c); x.j0 = a.r > 1 ? c.size(0, a.c - w.c) : w.j0;
    }
    bool minus = c.chance(1, 2);
    c.log() << Name<M>::s() << " " << show(a) << " " << w << (minus ? " -= " : " += ") << (how == 0 ? show(b) : std::string("the same")) << " " << x;
    c.tag(how == 0 ? "two matrices" : how == 1 ? "the same window" : "two windows");
    V s(m, w.r, w.c, w.i0, w.j0), t(how == 0 ? n : m, x.r, x.c, x.i0, x.j0);
    Ref rs = sub(a, w), rt = sub(how == 0 ? b : a, x), r = rounded<T>(minus ? rs - rt : rs + rt);
    c.nontrivial(rt.nnz() > 0 && w.r * w.c > 1);
    c.step("equal");
    bool same = rs.v == rt.v;
    if (same || (a.plain && b.plain)) REQUIRE(s.equal(t) == same && t.equal(s) == same, "equal of the views is " << s.equal(t) << " instead of " << same);
    bool whole = s.equal(dense<T,P>(rs)) && dense<double>(rs).equal(s);
    REQUIRE(whole, "a view and the matrix of its elements aren't equal");
    c.step("compound assignment");
    if (minus) s -= t; else s += t;
    for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) a(w.i0+i,w.j0+j) = r(i,j);
    require_same(to_ref(m), a, "the matrix of the left operand");
    require_same(to_ref(n), b, "the other matrix");
    c.step("assignment to matrices");
    M d(1, 1);
    d = s;
    require_same(to_ref(d), r, "a matrix assigned from a view");
    Matrix<Sparse,T,P> sp(s);
    require_same(to_ref(sp), r, "a sparse matrix made from a view");
    if (w.r * w.c) s(0,0) = static_cast<T>(99.5);
    require_same(to_ref(d), r, "the assigned matrix after changing the view");
}

} // namespace

LAW("arithmetic and equality of views", 0.7)
{
    switch (c.below(4)) {
        case 0: arithmetic_law<double,ColumnMajor>(c); break;
        case 1: arithmetic_law<float,ColumnMajor>(c); break;
        case 2: arithmetic_law<double,RowMajor>(c); break;
        default: arithmetic_law<float,RowMajor>(c); break;
    }
}
LAW("views, double", 1) { view_law<double,ColumnMajor>(c); }
LAW("views, float", 0.5) { view_law<float,ColumnMajor>(c); }
LAW("views, double, row", 1) { view_law<double,RowMajor>(c); }
LAW("views, float, row", 0.5) { view_law<float,RowMajor>(c); }
LAW("copy", 1)
{
    switch (c.below(5)) {
        case 0: copy_law<double,ColumnMajor,double,ColumnMajor>(c); break;
        case 1: copy_law<double,ColumnMajor,float,RowMajor>(c); break;
        case 2: copy_law<float,RowMajor,double,ColumnMajor>(c); break;
        case 3: copy_law<float,RowMajor,float,RowMajor>(c); break;
        default: copy_law<float,ColumnMajor,double,ColumnMajor>(c); break;
    }
}
LAW("tiles", 0.5) { if (c.chance(1, 2)) tiles_law<double,ColumnMajor>(c); else tiles_law<float,RowMajor>(c); }
