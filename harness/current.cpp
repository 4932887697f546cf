// Norm, occupation and everything derived from them describe the current elements, whatever happened before.
#include "bbgen.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixConverter.h"
using namespace bb;

namespace {

typedef AbsoluteValueRangeChecker<double> Above;
typedef AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound> Between;

double ref_norm(Ref const& a) { double s = 0.0; for (double x : a.v) s += x * x; return std::sqrt(s); }
template <class K> size_t ref_count(Ref const& a, K const& k) { size_t n = 0; for (double x : a.v) n += k(x); return n; }

/// ask for some of the derived quantities and compare them with the current elements
template <class M>
void ask(Ctx& c, M const& m, Ref const& v, std::string const& who, size_t& asked)
{
    c.step("ask " + who);
    size_t what = c.below(8);
    double t = static_cast<double>(c.below(4));
    if (what & 1) {
        double got = m.getNorm(), want = ref_norm(v), d = got - want;
        REQUIRE((d < 0 ? -d : d) <= 1e-12 * want, who << ": norm is " << got << " instead of " << want);
        REQUIRE(m.isNormLargerThan(want * 0.99 - 1e-9), who << ": norm " << want << " is not larger than " << want * 0.99 - 1e-9);
        REQUIRE(!m.isNormLargerThan(want * 1.01 + 1e-9), who << ": norm " << want << " is larger than " << want * 1.01 + 1e-9);
        ++asked;
    }
    if (what & 2) {
        size_t n = ref_count(v, Above(t));
        REQUIRE(m.getNbOfSignificantElements(Above(t)) == n, who << ": " << m.getNbOfSignificantElements(Above(t)) << " elements above " << t << " instead of " << n);
        double occ = v.v.empty() ? 0.0 : static_cast<double>(n) / static_cast<double>(v.v.size()), got = m.getOccupation(Above(t)), d = occ - got;
        REQUIRE((d < 0 ? -d : d) < 1e-12, who << ": occupation above " << t << " is " << got << " instead of " << occ);
        ++asked;
    }
    if (what & 4) {
        size_t n = ref_count(v, Between(t, t + 2.0));
        REQUIRE(m.getNbOfSignificantElements(Between(t, t + 2.0)) == n, who << ": " << m.getNbOfSignificantElements(Between(t, t + 2.0)) << " elements in (" << t << "," << t + 2.0 << "] instead of " << n);
        ++asked;
    }
}

template <class D>
struct Machine
{
    typedef typename D::value_type T;
    typedef typename D::parameter P;
    typedef Matrix<Sparse,T,P> S;
    Ctx& c;
    std::vector<D> m;
    std::vector<Ref> v;
    size_t asked = 0, changed = 0;

    Ref gen() { return gen_ref(c, extent(c, 4), extent(c, 4), 16); }
    void check(size_t k, const char* after) { require_same(to_ref(m[k]), v[k], std::string("matrix ") + std::to_string(k) + " after " + after); }

    void run()
    {
        for (int k = 0; k < 2; ++k) { v.push_back(gen()); m.push_back(dense<T,P>(v.back())); }
        size_t n = c.size(1, 12);
        for (size_t i = 0; i < n; ++i) {
            step();
            for (size_t k = 0; k < 2; ++k) ask(c, m[k], v[k], "matrix " + std::to_string(k), asked);
        }
        c.nontrivial(asked > 2 && changed > 0);
    }

    void step()
    {
        size_t a = c.below(2), b = 1 - a, op = c.below(15);
        static const char* name[] = {"element", "iterator", "operator=(value)", "resize", "copy assignment", "move assignment", "swap", "+=", "-=",
            "sum", "transposed", "to sparse", "copy", "to dense of other precision", "range"};
        c.log() << name[op] << "(" << a << ") ";
        c.tag(name[op]);
        c.step(name[op]);
        D& x = m[a];
        Ref& r = v[a];
        bool same = v[a].r == v[b].r && v[a].c == v[b].c;
        ++changed;
        switch (op) {
            case 0: if (!r.v.empty()) { size_t i = c.below(r.r), j = c.below(r.c); double e = gen_value(c, 16); x(i,j) = static_cast<T>(e); r(i,j) = e; } break;
            case 1: if (!r.v.empty()) { size_t k = c.below(r.v.size()); double e = gen_value(c, 16); *(x.begin() + k) = static_cast<T>(e); r = to_ref(x); } break;
            case 2: { double e = gen_value(c, 16); x = static_cast<T>(e); for (auto& y : r.v) y = e; break; }
            case 3: { double e = gen_value(c, 16); size_t i = extent(c, 4), j = extent(c, 4); x.resize(i, j, AllFiller<T>(static_cast<T>(e))); r = Ref(i, j); for (auto& y : r.v) y = e; break; }
            case 4: x = m[b]; r = v[b]; break;
            case 5: { Ref g = gen(); D t = dense<T,P>(g); if (c.chance(1, 2)) ask(c, t, g, "the temporary", asked); x = std::move(t); r = g; break; }
            case 6: swap(m[a], m[b]); std::swap(v[a], v[b]); break;
            case 7: if (same) { x += m[b]; r = r + v[b]; } break;
            case 8: if (same) { x -= m[b]; r = r - v[b]; } break;
            case 9: if (same) { x = m[a] + m[b]; r = v[a] + v[b]; } break;
            case 10: { D t(transpose(x)); x = t; r = trans(r); break; }
            case 11: {      // also with a checker whose count was asked for before the last change
                double t = static_cast<double>(c.below(4));
                S s(x, Above(t));
                Ref w = r;
                for (auto& y : w.v) if (!Above(t)(y)) y = 0.0;
                require_same(to_ref(s), w, "converted to sparse");
                REQUIRE(s.nnz() == w.nnz(), "the sparse matrix has " << s.nnz() << " elements instead of " << w.nnz());
                ask(c, s, w, "the sparse matrix", asked);
                if (s.nnz()) {      // change a stored element
                    s.begin()[0] = static_cast<T>(7.5);
                    ask(c, s, to_ref(s), "the changed sparse matrix", asked);
                }
                S u;
                u = s;
                ask(c, u, to_ref(s), "the assigned sparse matrix", asked);
                u = std::move(s);
                ask(c, u, to_ref(u), "the move assigned sparse matrix", asked);
                break;
            }
            case 12: { D t(x); ask(c, t, r, "the copy", asked); if (t.getSize()) t(0,0) = static_cast<T>(3.25); ask(c, t, to_ref(t), "the changed copy", asked); m[b] = t; v[b] = to_ref(t); break; }
            case 13: { Matrix<Dense,typename std::conditional<std::is_same<T,double>::value,float,double>::type,P> t(x); ask(c, t, r, "the converted matrix", asked); x = D(t); break; }
            case 14: { double s = c.chance(1, 2) ? 0.5 : -1.0; if (ref_norm(r) < 1e6) { for (auto& y : x) y *= static_cast<T>(s); for (auto& y : r.v) y *= s; } break; }
        }
        check(a, name[op]);
        check(b, name[op]);
    }
};

/// sparse matrices which are resized and filled through their arrays, changed, assigned, swapped, moved and multiplied
template <class T, class P>
struct SparseMachine
{
    typedef Matrix<Sparse,T,P> S;
    typedef Matrix<Dense,T,P> D;
    Ctx& c;
    std::vector<S> m;
    std::vector<Ref> v;
    size_t asked = 0, changed = 0;
    static const bool row = std::is_same<typename P::orientation,RowMajor>::value;

    Ref gen() { return gen_ref(c, extent(c, 4), extent(c, 4), 16); }

    void fill(S& s, Ref const& r)
    {
        c.step("resize");
        s.resize(r.r, r.c, r.nnz());
        REQUIRE(s.nnz() == (r.nnz() ? r.nnz() : r.v.size()), "room for " << s.nnz() << " elements instead of " << r.nnz());
        size_t k = 0, outer = row ? r.r : r.c, inner = row ? r.c : r.r;
        for (size_t o = 0; o < outer; ++o) {
            s.beginOffset()[o] = k;
            for (size_t i = 0; i < inner; ++i) {
                double x = row ? r(o,i) : r(i,o);
                if (x == 0.0 && r.nnz()) continue;      // without any element, room for all of them is asked for
                s.begin()[k] = static_cast<T>(x);
                s.beginKey()[k++] = i;
            }
        }
        s.beginOffset()[outer] = k;
    }

    void run()
    {
        for (int k = 0; k < 2; ++k) { v.push_back(gen()); m.push_back(sparse<T,P>(v.back())); }
        size_t n = c.size(1, 10);
        for (size_t i = 0; i < n; ++i) {
            step();
            for (size_t k = 0; k < 2; ++k) {
                std::string who = "matrix " + std::to_string(k);
                REQUIRE(m[k].getSize() == v[k].v.size(), who << ": size is " << m[k].getSize() << " instead of " << v[k].v.size());
                require_same(to_ref(m[k]), v[k], who);
                ask(c, m[k], v[k], who, asked);
            }
        }
        c.nontrivial(asked > 2 && changed > 1);
    }

    void step()
    {
        static const char* name[] = {"resize", "element", "copy assignment", "move assignment", "swap", "copy and change", "from dense", "other precision",
            "product", "moved out and in", "transposed"};
        size_t a = c.below(2), b = 1 - a, op = c.below(11);
        c.log() << name[op] << "(" << a << ") ";
        c.tag(name[op]);
        c.step(name[op]);
        S& x = m[a];
        Ref& r = v[a];
        ++changed;
        switch (op) {
            case 0: { Ref g = gen(); fill(x, g); r = g; c.log() << g.r << "x" << g.c << " "; break; }
            case 1: if (x.nnz()) { size_t k = c.below(x.nnz()); x.begin()[k] = static_cast<T>(gen_nonzero(c, 16)); r = to_ref(x); } break;
            case 2: x = m[b]; r = v[b]; break;
            case 3: { Ref g = gen(); S t = sparse<T,P>(g); if (c.chance(1, 2)) ask(c, t, g, "the temporary", asked); x = std::move(t); r = g; break; }
            case 4: swap(m[a], m[b]); std::swap(v[a], v[b]); break;
            case 5: { S t(x); ask(c, t, r, "the copy", asked); if (t.nnz()) t.begin()[0] = static_cast<T>(3.25); Ref w = to_ref(t); ask(c, t, w, "the changed copy", asked); m[b] = t; v[b] = w; break; }
            case 6: { Ref g = gen(); double t = static_cast<double>(c.below(3)); x = S(dense<T,P>(g), Above(t)); for (auto& y : g.v) if (!Above(t)(y)) y = 0.0; r = g; break; }
            case 7: { Matrix<Sparse,typename std::conditional<std::is_same<T,double>::value,float,double>::type,P> t(x); ask(c, t, r, "the converted matrix", asked); x = S(t); break; }
            case 8:
                if constexpr (!row) if (v[a].c == v[b].r) {
                    Ref w = mul(v[a], v[b]);
                    bool small = true;
                    for (double y : w.v) small = small && y < 1e4 && y > -1e4;
                    if (small) { x = m[a] * m[b]; r = w; }
                }
                break;
            case 9: { S t(std::move(x)); ask(c, t, r, "the matrix it was moved to", asked); x = std::move(t); break; }
            case 10: { S t(transpose(x)); x = t; r = trans(r); break; }
        }
    }
};

} // namespace

LAW("histories of sparse matrices", 0.4) { if (c.chance(1, 3)) SparseMachine<float,PC>{c, {}, {}}.run(); else SparseMachine<double,PC>{c, {}, {}}.run(); }
LAW("histories of row-major sparse matrices", 0.2) { SparseMachine<double,PR>{c, {}, {}}.run(); }
LAW("histories of dense matrices", 0.5) { if (c.chance(1, 3)) Machine<DeF>{c, {}, {}}.run(); else Machine<DeD>{c, {}, {}}.run(); }
LAW("histories of row-major dense matrices", 0.2) { Machine<Matrix<Dense,double,PR>>{c, {}, {}}.run(); }
LAW("histories of sub-matrices", 0.2)
{
    typedef Matrix<Dense,double,Parameter<size_t,ColumnMajor,VariableSize,LeadingDimension>> Sub;
    Ref v = gen_ref(c, c.size(1, 5), c.size(1, 5), 16);
    size_t i0 = c.below(v.r), j0 = c.below(v.c), r = c.size(1, v.r - i0), n = c.size(1, v.c - j0);
    DeD d = dense<double>(v);
    Sub s(d, r, n, i0, j0);
    c.log() << "rows " << i0 << "+" << r << ", columns " << j0 << "+" << n << " of " << show(v);
    size_t asked = 0, steps = c.size(1, 6);
    for (size_t k = 0; k < steps; ++k) {
        ask(c, d, v, "the matrix", asked);
        ask(c, s, sub(v, r, n, i0, j0), "the sub-matrix", asked);
        double e = gen_value(c, 16);
        bool through = c.chance(1, 2);
        size_t i = c.below(r), j = c.below(n);
        c.log() << (through ? " sub(" : " whole(") << i << "," << j << ")=" << e;
        if (through) s(i,j) = e; else d(i0+i,j0+j) = e;
        v(i0+i,j0+j) = e;
    }
    ask(c, d, v, "the matrix", asked);
    ask(c, s, sub(v, r, n, i0, j0), "the sub-matrix", asked);
    require_same(to_ref(d), v, "the matrix");
    c.nontrivial(asked > 2);
}
LAW("conversion of a matrix which was converted before and changed", 0.3)
{
    Ref v = gen_ref(c, extent(c, 5), extent(c, 5), 16);
    DeD d = dense<double>(v);
    c.log() << show(v);
    size_t steps = c.size(1, 5);
    std::set<size_t> kinds;
    for (size_t k = 0; k < steps; ++k) {
        c.step("MatrixConverter");
        DynamicMatrix m = MatrixConverter()(d, Threshold()), fresh = MatrixConverter()(dense<double>(v), Threshold());
        require_same(to_ref(m), v, "the converted matrix");
        REQUIRE(m->getTypeIndex() == fresh->getTypeIndex(), "converted to " << kind_name(m->getTypeIndex()) << " instead of " << kind_name(fresh->getTypeIndex()));
        kinds.insert(m->getTypeIndex());
        c.step("to sparse");
        require_same(to_ref(SpD(d)), v, "the sparse matrix");
        int how = static_cast<int>(c.below(3));
        if (how == 0) for (auto& x : v.v) x = 0.0;
        if (how == 1 && !v.v.empty()) v(c.below(v.r), c.below(v.c)) = gen_nonzero(c, 16);
        if (how == 2) for (auto& x : v.v) x = c.chance(1, 2) ? gen_value(c, 16) : x;
        for (size_t i = 0; i < v.r; ++i) for (size_t j = 0; j < v.c; ++j) d(i,j) = v(i,j);
        c.log() << " then " << show(v);
    }
    c.nontrivial(kinds.size() > 1);
}
