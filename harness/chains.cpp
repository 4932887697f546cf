// Histories of operations: the result of every operation is a full operand of the following ones, and belongs to nobody else.
#include "bbgen.h"
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Core/Occupation.h"
using namespace bb;

namespace {

constexpr double limit = 1 << 20;         // everything is an integer which float holds exactly

Ref magnitude(Ref a) { for (double& x : a.v) if (x < 0) x = -x; return a; }
double largest(Ref const& a) { double m = 0.0; for (double x : a.v) m = std::max(m, x < 0 ? -x : x); return m; }

/// integers: few, some, all
Ref gen_integers(Ctx& c, size_t r, size_t n)
{
    Ref a(r, n);
    a.plain = false;
    unsigned d = static_cast<unsigned>(c.below(4));
    for (auto& x : a.v) if (d && c.chance(d, 3)) x = static_cast<double>(c.sym(9));
    return a;
}

/// what a matrix has to be, and what its parts may add up to
struct Model { Ref v, m; };
inline Model operator + (Model const& a, Model const& b) { return {a.v + b.v, a.m + b.m}; }
inline Model operator - (Model const& a, Model const& b) { return {a.v - b.v, a.m + b.m}; }
inline Model mul(Model const& a, Model const& b) { return {mul(a.v, b.v), mul(a.m, b.m)}; }
inline Model trans(Model const& a) { return {trans(a.v), trans(a.m)}; }
inline bool fits(Model const& a) { return largest(a.m) <= limit; }
inline Model fresh(Ref const& v) { return {v, magnitude(v)}; }

/// thresholds which keep integers
Threshold gen_threshold(Ctx& c)
{
    ThresholdSettings s;
    s.set_significanceThresholdSinglePrecision(static_cast<double>(c.below(12)) + 1.5).set_significanceThresholdDoublePrecision(0.5);
    auto occ = [&] { return static_cast<double>(c.below(9)) / 8.0; };
    s.set_occupationThresholdMatrixSparseFloatSinglePrecision(occ()).set_occupationThresholdMatrixSparseFloatDoublePrecision(occ());
    s.set_occupationThresholdMatrixDenseFloatSinglePrecision(occ()).set_occupationThresholdMatrixDenseFloatDoublePrecision(occ());
    s.set_occupationThresholdMatrixSparseDoubleSinglePrecision(occ()).set_occupationThresholdMatrixSparseDoubleDoublePrecision(occ());
    s.set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(occ()).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(occ());
    s.set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(occ()).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(occ());
    return Threshold(s);
}

std::vector<size_t> gen_parts(Ctx& c, size_t n)
{
    std::vector<size_t> s;
    while (n) { size_t x = c.size(1, n); s.push_back(x); n -= x; }
    return s;
}

bool near(double got, double want) { double d = got - want; return (d < 0 ? -d : d) <= 1e-5 * (want < 0 ? -want : want); }

} // namespace
#if PART == 1
namespace {
// ---- dynamic matrices ----------------------------------------------------------------------

struct Slot { DynamicMatrix d; std::shared_ptr<Model> m; };

void look(Ctx& c, Slot const& s, std::string const& what)
{
    Ref const& v = s.m->v;
    double one = 0.0, two = 0.0; size_t over = 0;
    double bound = static_cast<double>(c.below(12)) + 0.5;
    for (double x : v.v) { double a = x < 0 ? -x : x; one += a; two += x * x; over += a > bound; }
    REQUIRE(getNbRows(s.d) == v.r && getNbColumns(s.d) == v.c && getSize(s.d) == v.v.size(), what << ": the dynamic matrix is " << getNbRows(s.d) << "x"
        << getNbColumns(s.d) << " of size " << getSize(s.d) << " instead of " << v.r << "x" << v.c);
    double n1 = norm<NormOne>(s.d), n2 = norm<NormTwo>(s.d), nm = norm<NormMax>(s.d), g = getNorm(s.d);
    REQUIRE(near(n1, one), what << ": norm one is " << n1 << " instead of " << one);
    REQUIRE(near(n2, std::sqrt(two)), what << ": norm two is " << n2 << " instead of " << std::sqrt(two));
    REQUIRE(nm == largest(v), what << ": norm max is " << nm << " instead of " << largest(v));
    REQUIRE(near(g, std::sqrt(two)), what << ": getNorm() is " << g << " instead of " << std::sqrt(two));
    AbsoluteValueRangeChecker<double> checker(bound);
    size_t k = s.d->getTypeIndex();
    if (k < 4 || k == 6) {
        // a multiple matrix counts the elements of its parts
        size_t got = countDesiredElements(s.d, checker);
        REQUIRE(got == over, what << ": " << got << " elements are over " << bound << " instead of " << over);
    }
}

const char* op_names[] = {"+", "-", "* (Native)", "* (TheBestPolicy)", "+=", "-=", "shared", "new", "converted to", "by MatrixConverter", "transposed",
    "element changed", "looked at", "blocked product", "as parts of"};

template <class M> void poke(Ctx& c, std::shared_ptr<M> const& p, Model& m);
template <class T> void poke(Ctx& c, std::shared_ptr<Matrix<Dense,T>> const& p, Model& m)
{
    if (!m.v.r || !m.v.c) return;
    size_t i = c.below(m.v.r), j = c.below(m.v.c); double x = static_cast<double>(c.sym(9));
    (*p)(i,j) = static_cast<T>(x);
    m.v(i,j) = x; m.m(i,j) = x < 0 ? -x : x;
}
template <class T> void poke(Ctx& c, std::shared_ptr<Matrix<Sparse,T>> const& p, Model& m)
{
    size_t n = static_cast<size_t>(p->end() - p->begin());
    if (!n) return;
    size_t k = c.below(n), j = 0; double x = static_cast<double>(c.sym(9));
    while (static_cast<size_t>(p->beginOffset()[j+1]) <= k) ++j;
    size_t i = p->beginKey()[k];
    p->begin()[k] = static_cast<T>(x);
    m.v(i,j) = x; m.m(i,j) = x < 0 ? -x : x;
}

} // namespace

LAW("histories of dynamic matrices", 1.0)
{
    size_t dims[2] = {extent(c, 5), extent(c, 5)};
    size_t nslots = c.size(2, 5), steps = c.size(2, c.big(10));
    std::vector<Slot> s(nslots);
    auto make = [&](size_t r, size_t n) {
        size_t k = c.below(7);
        Ref v = k == 0 ? Ref(r, n) : gen_integers(c, r, n);
        c.log() << kind_name(k) << " " << show(v);
        return Slot{make_dyn(c, k, v), std::make_shared<Model>(fresh(v))};
    };
    for (size_t i = 0; i < nslots; ++i) { c.log() << " s" << i << "="; s[i] = make(dims[c.below(2)], dims[c.below(2)]); }
    size_t results = 0, reused = 0;
    std::vector<bool> computed(nslots, false);
    for (size_t t = 0; t < steps; ++t) {
        size_t op = c.below(15), a = c.below(nslots), b = c.below(nslots), to = c.below(nslots);
        bool product = op == 2 || op == 3 || op == 13, pair = product || op < 2 || op == 4 || op == 5 || op == 14;
        size_t r = s[a].m->v.r, n = s[a].m->v.c;
        auto suits = [&](Slot const& x) { return product ? x.m->v.r == n : x.m->v.r == r && x.m->v.c == n; };
        if (pair) for (size_t k = 0; k < nslots && !suits(s[b]); ++k) b = (b + 1) % nslots;
        Slot x = s[a], y = s[b];
        if (pair && !suits(y)) { c.log() << " (new partner "; y = product ? make(n, dims[c.below(2)]) : make(r, n); c.log() << ")"; }
        c.log() << "; ";
        std::ostringstream wo;
        wo << "step " << t + 1 << ", s" << (op == 4 || op == 5 || op == 11 || op == 12 ? a : to) << " = s" << a << " (" << kind_name(x.d->getTypeIndex()) << ") " << op_names[op];
        if (pair) wo << " s" << b << " (" << kind_name(y.d->getTypeIndex()) << ")";
        std::string what = wo.str();
        c.log() << what;
        c.step(what);
        Model want;
        if (op < 2 || op == 4 || op == 5) want = op % 2 == 0 ? *x.m + *y.m : *x.m - *y.m;
        if (product) want = mul(*x.m, *y.m);
        if ((pair && op != 14) && !fits(want)) { c.log() << " (too large)"; continue; }
        if (pair && (computed[a] || computed[b])) ++reused;
        c.tag(op_names[op]);
        bool result = false;
        switch (op) {
            case 0: s[to] = {x.d + y.d, std::make_shared<Model>(want)}; result = true; break;
            case 1: s[to] = {x.d - y.d, std::make_shared<Model>(want)}; result = true; break;
            case 2: s[to] = {(x.d * y.d).execute<Native>(), std::make_shared<Model>(want)}; result = true; break;
            case 3: s[to] = {(x.d * y.d).execute<TheBestPolicy>(), std::make_shared<Model>(want)}; result = true; break;
            case 4: case 5: {
                bool thrown = false;
                try { if (op == 4) x.d += y.d; else x.d -= y.d; } catch (std::runtime_error const&) { thrown = true; }
                size_t k = x.d->getTypeIndex();
                REQUIRE(!thrown || !(k == 2 || k == 6 || y.d->getTypeIndex() == 0), what << " was refused");
                if (!thrown) *x.m = want;
                break; }
            case 6: s[to] = x; computed[to] = computed[a]; break;
            case 7: s[to] = make(dims[c.below(2)], dims[c.below(2)]); computed[to] = false; break;
            case 8: {
                size_t k = c.below(4);
                c.log() << (k == 0 ? " Dense<double>" : k == 1 ? " Dense<float>" : k == 2 ? " Sparse<double>" : " Sparse<float>");
                DynamicMatrix d;
                if (k == 0) d = std::make_shared<DeD>(x.d); else if (k == 1) d = std::make_shared<DeF>(x.d);
                else if (k == 2) d = std::make_shared<SpD>(x.d); else d = std::make_shared<SpF>(x.d);
                s[to] = {d, std::make_shared<Model>(fresh(x.m->v))}; result = true; break; }
            case 9: {
                DeD d(x.d);
                s[to] = {MatrixConverter()(d, gen_threshold(c)), std::make_shared<Model>(fresh(x.m->v))}; result = true; break; }
            case 10: {
                size_t k = x.d->getTypeIndex();
                DynamicMatrix d;
                if (k == 1) d = std::make_shared<SpF>(transpose(*std::static_pointer_cast<SpF>(x.d)));
                else if (k == 2) d = std::make_shared<DeF>(transpose(*std::static_pointer_cast<DeF>(x.d)));
                else if (k == 3) d = std::make_shared<SpD>(transpose(*std::static_pointer_cast<SpD>(x.d)));
                else d = std::make_shared<DeD>(transpose(DeD(x.d)));
                s[to] = {d, std::make_shared<Model>(fresh(trans(x.m->v)))}; result = true; break; }
            case 11: {
                size_t k = x.d->getTypeIndex();
                if (k == 1) poke(c, std::static_pointer_cast<SpF>(x.d), *x.m);
                if (k == 2) poke(c, std::static_pointer_cast<DeF>(x.d), *x.m);
                if (k == 3) poke(c, std::static_pointer_cast<SpD>(x.d), *x.m);
                if (k == 6) poke(c, std::static_pointer_cast<DeD>(x.d), *x.m);
                break; }
            case 12: look(c, x, what); break;
            case 13: {
                if (!r || !n || !y.m->v.c) break;
                auto sr = gen_parts(c, r), sk = gen_parts(c, n), sn = gen_parts(c, y.m->v.c);
                BlockedDenseMatrix ba = BlockedMatrixGenerator()(DeD(x.d), sr, sk, gen_threshold(c)), bb = BlockedMatrixGenerator()(DeD(y.d), sk, sn, gen_threshold(c));
                BlockedDenseMatrix p = c.chance(1, 2) ? (ba * bb).execute<Native>() : (ba * bb).execute<TheBestPolicy>();
                s[to] = {std::make_shared<DeD>(p), std::make_shared<Model>(fresh(want.v))}; result = true; break; }
            default: {
                // parts of their own
                Model both = *x.m + *y.m;
                if (!fits(both)) break;
                auto first = std::make_shared<SpD>(x.d);
                DynamicMatrix d;
                if (c.chance(1, 2)) d = std::make_shared<MuS>(first, std::make_shared<SpF>(y.d));
                else d = std::make_shared<MuD>(first, std::make_shared<DeF>(y.d));
                s[to] = {d, std::make_shared<Model>(both)}; result = true; break; }
        }
        if (result) { ++results; computed[to] = true; }
        for (size_t i = 0; i < nslots; ++i) require_same(to_ref(s[i].d), s[i].m->v, what + ": s" + std::to_string(i) + " (" + kind_name(s[i].d->getTypeIndex()) + ") afterwards");
        require_same(to_ref(y.d), y.m->v, what + ": the right operand afterwards");
    }
    for (size_t i = 0; i < nslots; ++i) { c.log() << "; look at s" << i; c.step("look at the final matrices"); look(c, s[i], "s" + std::to_string(i) + " at the end"); }
    c.nontrivial(reused > 0 && results > 1);
}

#else
// ---- static matrices: the target may be an operand ------------------------------------------

namespace {

template <class M> struct Var { M x; Model m; };

template <class M> Var<M> make_var(Ctx& c, size_t r, size_t n)
{
    Ref v = gen_integers(c, r, n);
    return {*Build<M>::make(c, v), fresh(v)};
}

template <class M> void check(std::vector<Var<M>> const& v, std::string const& what)
{
    for (size_t i = 0; i < v.size(); ++i) {
        require_same(to_ref(v[i].x), v[i].m.v, what + ": " + Name<M>::s() + " number " + std::to_string(i) + " afterwards");
        REQUIRE(static_cast<size_t>(v[i].x.getSize()) == v[i].m.v.v.size(), what << ": " << Name<M>::s() << " number " << i << " has size " << v[i].x.getSize());
    }
}

/// square matrices of four types, each result assigned to any variable of its type or of another one
template <class P>
void typed_history(Ctx& c)
{
    typedef Matrix<Dense,float,P> F;
    typedef Matrix<Dense,double,P> D;
    typedef Matrix<Sparse,float,P> G;
    typedef Matrix<Sparse,double,P> S;
    size_t n = extent(c, 5), steps = c.size(2, c.big(12));
    std::vector<Var<F>> f; std::vector<Var<D>> d; std::vector<Var<G>> g; std::vector<Var<S>> s;
    for (int i = 0; i < 2; ++i) { f.push_back(make_var<F>(c, n, n)); d.push_back(make_var<D>(c, n, n)); g.push_back(make_var<G>(c, n, n)); s.push_back(make_var<S>(c, n, n)); }
    for (int i = 0; i < 2; ++i) c.log() << " F" << i << "=" << show(f[i].m.v) << " D" << i << "=" << show(d[i].m.v) << " G" << i << "=" << show(g[i].m.v) << " S" << i << "=" << show(s[i].m.v);
    size_t done = 0, aliased = 0;
    for (size_t t = 0; t < steps; ++t) {
        size_t op = c.below(9), ta = c.below(4), tb = c.below(4), tt = c.below(4), a = c.below(2), b = c.below(2), to = c.below(2);
        const char* types = "FDGS";
        static const char* ops[] = {"a + b", "a - b", "a * b (Native)", "a * b (TheBestPolicy)", "a += b", "a -= b", "a", "transpose(a)", "move(a), a = b"};
        std::ostringstream wo;
        wo << "step " << t + 1 << ", a=" << types[ta] << a << " b=" << types[tb] << b << " " << types[tt] << to << " = " << ops[op];
        std::string what = wo.str();
        c.log() << "; " << what;
        c.step(what);
        auto with = [&](size_t k, auto fn) { if (k == 0) fn(f); else if (k == 1) fn(d); else if (k == 2) fn(g); else fn(s); };
        bool skipped = false;
        auto store = [&](auto&& value, Model const& m) {
            // through the assignment of the same type, or the conversion
            with(tt, [&](auto& v) {
                typedef typename std::decay<decltype(v[0].x)>::type T;
                typedef typename std::decay<decltype(value)>::type U;
                if constexpr (std::is_same<T,U>::value) v[to].x = std::forward<decltype(value)>(value);
                else v[to].x = T(value);
                v[to].m = m;
            });
        };
        with(ta, [&](auto& va) { with(tb, [&](auto& vb) {
            typedef typename std::decay<decltype(va[0].x)>::type A;
            typedef typename std::decay<decltype(vb[0].x)>::type B;
            Model want;
            if (op < 2 || op == 4 || op == 5) want = op % 2 == 0 ? va[a].m + vb[b].m : va[a].m - vb[b].m;
            if (op == 2 || op == 3) want = mul(va[a].m, vb[b].m);
            if (op < 6 && !fits(want)) { skipped = true; return; }
            switch (op) {
                case 0: store(va[a].x + vb[b].x, want); break;
                case 1: store(va[a].x - vb[b].x, want); break;
                case 2: store((va[a].x * vb[b].x).template execute<Native>(), want); break;
                case 3: store((va[a].x * vb[b].x).template execute<TheBestPolicy>(), want); break;
                case 4: case 5: {
                    bool thrown = false;
                    try { if (op == 4) va[a].x += vb[b].x; else va[a].x -= vb[b].x; } catch (std::runtime_error const&) { thrown = true; }
                    REQUIRE(!thrown || ta > 1, what << " was refused");
                    if (!thrown) va[a].m = want;
                    break; }
                case 6: { Model m = va[a].m; store(static_cast<A const&>(va[a].x), m); break; }
                case 7: { Model m = trans(va[a].m); store(transpose(va[a].x), m); break; }
                default: {
                    // the moved matrix gets a new value
                    if (ta == tb && a == b) { skipped = true; break; }
                    A tmp(std::move(va[a].x));
                    Model m = va[a].m;
                    if constexpr (std::is_same<A,B>::value) va[a].x = vb[b].x; else va[a].x = A(vb[b].x);
                    va[a].m = vb[b].m;
                    store(std::move(tmp), m);
                } }
        }); });
        if (skipped) { c.log() << " (left out)"; continue; }
        ++done;
        if ((tt == ta && to == a) || (tt == tb && to == b)) ++aliased;
        c.tag(ops[op]);
        check(f, what); check(d, what); check(g, what); check(s, what);
    }
    c.nontrivial(done > 1 && aliased > 0 && n > 0);
}

} // namespace

LAW("histories of static matrices, column-major", 0.5) { typed_history<PC>(c); }
LAW("histories of static matrices, row-major", 0.3) { typed_history<PR>(c); }
LAW("histories of static matrices, other parameters", 0.2) { if (c.chance(1, 2)) typed_history<PI>(c); else typed_history<PUR>(c); }
#endif
