// Memory: what an operation takes it gives back, and an operation which gets none has no effect.
#include "bbgen.h"
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Core/Occupation.h"
#include <cstdlib>
#include <new>
#include <optional>
using namespace bb;

// ---- the memory: every block is counted, and one request can be refused ------------------------

namespace heap {
static long live = 0;            // blocks in use
static bool armed = false;
static long requests = 0;        // since it was armed
static long refuse = -1;         // number of the request which is refused

static void* get(std::size_t size, std::size_t align)
{
    if (armed && requests++ == refuse) throw std::bad_alloc();
    if (!size) size = 1;
    void* p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (size + align - 1) / align * align) : std::malloc(size);
    if (!p) throw std::bad_alloc();
    ++live;
    return p;
}
static void put(void* p) { if (p) { --live; std::free(p); } }
} // namespace heap

void* operator new(std::size_t n) { return heap::get(n, 0); }
void* operator new[](std::size_t n) { return heap::get(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return heap::get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return heap::get(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { try { return heap::get(n, 0); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { try { return heap::get(n, 0); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { heap::put(p); }
void operator delete[](void* p) noexcept { heap::put(p); }
void operator delete(void* p, std::size_t) noexcept { heap::put(p); }
void operator delete[](void* p, std::size_t) noexcept { heap::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { heap::put(p); }

namespace {

enum Outcome { finished, refused_memory, refused_operation };

/// the operation, the k-th request for memory being refused (none if k is -1)
template <class Op, class State>
Outcome attempt(Op const& op, State& s, long k, long& requests)
{
    Outcome o = finished;
    heap::requests = 0; heap::refuse = k; heap::armed = true;
    try { op(s); }
    catch (std::bad_alloc const&) { o = refused_memory; }
    catch (std::runtime_error const&) { o = refused_operation; }
    catch (...) { heap::armed = false; throw; }
    heap::armed = false;
    requests = heap::requests;
    return o;
}

/// make() gives operands, op(s) is the operation, before(s) requires them to be as they were made,
/// after(s) that the operation is done.
template <class Make, class Op, class Before, class After>
bool exhaust(Ctx& c, std::string const& what, Make const& make, Op const& op, Before const& before, After const& after)
{
    long n = 0;
    {
        // once, so that tables which are made at first use are there
        auto s = make();
        if (attempt(op, s, -1, n) == refused_operation) { c.log() << " (not supported)"; c.tag("not supported"); return false; }
    }
    // which requests are refused: all of a few, some of many
    std::vector<long> which;
    if (n <= 12) for (long k = 0; k < n; ++k) which.push_back(k);
    else for (int i = 0; i < 12; ++i) which.push_back(static_cast<long>(c.below(static_cast<uint64_t>(n))));
    c.log() << " (" << n << " requests)";
    c.step(what);
    long used = heap::live;
    {
        auto s = make();
        before(s, what + ": made");
        long m;
        REQUIRE(attempt(op, s, -1, m) == finished, what << " fails at the second time");
        after(s, what);
    }
    REQUIRE(heap::live == used, what << ": " << heap::live - used << " blocks of memory are not given back");
    for (long k : which) {
        used = heap::live;
        {
            auto s = make();
            long m;
            Outcome o = attempt(op, s, k, m);
            REQUIRE(o != refused_operation, what << " is not supported without request number " << k << " for memory");
            if (o == refused_memory) {
                before(s, what + ", failed at request number " + std::to_string(k) + " for memory");
                REQUIRE(attempt(op, s, -1, m) == finished, what << " fails after an attempt without memory");
                after(s, what + ", again after failing at request number " + std::to_string(k) + " for memory");
            } else {
                after(s, what + ", without request number " + std::to_string(k) + " for memory");
            }
        }
        REQUIRE(heap::live == used, what << ", failed at request number " << k << " for memory: " << heap::live - used << " blocks of memory are not given back");
    }
    return n > 0;
}

Ref gen_integers(Ctx& c, size_t r, size_t n)
{
    Ref a(r, n);
    a.plain = false;
    unsigned d = static_cast<unsigned>(c.below(4));
    for (auto& x : a.v) if (d && c.chance(d, 3)) x = static_cast<double>(c.sym(9));
    return a;
}

/// thresholds which keep integers
Threshold gen_threshold(Ctx& c)
{
    ThresholdSettings s;
    s.set_significanceThresholdSinglePrecision(static_cast<double>(c.below(12)) + 1.5).set_significanceThresholdDoublePrecision(0.5);
    auto occ = [&] { return static_cast<double>(c.below(9)) / 8.0; };
    s.set_occupationThresholdMatrixSparseFloatSinglePrecision(occ()).set_occupationThresholdMatrixSparseFloatDoublePrecision(occ());
    s.set_occupationThresholdMatrixDenseFloatSinglePrecision(occ()).set_occupationThresholdMatrixDenseFloatDoublePrecision(occ());
    s.set_occupationThresholdMatrixSparseDoubleSinglePrecision(occ()).set_occupationThresholdMatrixSparseDoubleDoublePrecision(occ());
    s.set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(occ()).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(occ());
    s.set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(occ()).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(occ());
    return Threshold(s);
}

std::vector<size_t> gen_parts(Ctx& c, size_t n)
{
    std::vector<size_t> s;
    while (n) { size_t x = c.size(1, n); s.push_back(x); n -= x; }
    return s;
}

template <class M> M built(Ref const& a);
template <class M> struct BuildValue;
template <class T, class P> struct BuildValue<Matrix<Dense,T,P>> { static Matrix<Dense,T,P> make(Ref const& a) { return dense<T,P>(a); } };
template <class T, class P> struct BuildValue<Matrix<Sparse,T,P>> { static Matrix<Sparse,T,P> make(Ref const& a) { return sparse<T,P>(a); } };

} // namespace
#if PART == 1
namespace {

template <class T, class P> void resize(Matrix<Dense,T,P>& m, size_t r, size_t n, size_t, double x) { m.resize(r, n, AllFiller<T>(static_cast<T>(x))); }
template <class T, class P> void resize(Matrix<Sparse,T,P>& m, size_t r, size_t n, size_t elements, double) { m.resize(r, n, elements); }
template <class T, class P> void require_resized(Matrix<Dense,T,P> const& m, size_t r, size_t n, size_t, double x, std::string const& what)
{
    Ref want(r, n);
    std::fill(want.v.begin(), want.v.end(), x);
    require_same(to_ref(m), want, what);
}
template <class T, class P> void require_resized(Matrix<Sparse,T,P> const& m, size_t r, size_t n, size_t elements, double, std::string const& what)
{
    size_t lines = std::is_same<typename P::orientation, ColumnMajor>::value ? n : r, want = elements ? elements : r * n;
    REQUIRE(static_cast<size_t>(m.getNbRows()) == r && static_cast<size_t>(m.getNbColumns()) == n, what << ": the matrix is " << m.getNbRows() << "x" << m.getNbColumns() << " instead of " << r << "x" << n);
    REQUIRE(static_cast<size_t>(m.end() - m.begin()) == want && static_cast<size_t>(m.endKey() - m.beginKey()) == want, what << ": room for " << m.end() - m.begin() << " values and " << m.endKey() - m.beginKey() << " keys instead of " << want);
    REQUIRE(static_cast<size_t>(m.endOffset() - m.beginOffset()) == lines + 1, what << ": " << m.endOffset() - m.beginOffset() << " offsets instead of " << lines + 1);
}

/// one operation on static matrices
template <class P>
void typed(Ctx& c)
{
    typedef Matrix<Dense,float,P> F;
    typedef Matrix<Dense,double,P> D;
    typedef Matrix<Sparse,float,P> G;
    typedef Matrix<Sparse,double,P> S;
    size_t op = c.below(11), ta = c.below(4), tb = c.below(4);
    size_t r = extent(c, 6), n = extent(c, 6), k = extent(c, 6);
    static const char* ops[] = {"a + b", "a - b", "a * b (Native)", "a * b (TheBestPolicy)", "a += b", "a -= b", "a = b", "A(b)", "transpose(a)", "resize", "c = a * b"};
    auto with = [&](size_t t, auto fn) { if (t == 0) fn(static_cast<F*>(nullptr)); else if (t == 1) fn(static_cast<D*>(nullptr)); else if (t == 2) fn(static_cast<G*>(nullptr)); else fn(static_cast<S*>(nullptr)); };
    bool product = op == 2 || op == 3 || op == 10, same_shape = op < 2 || op == 4 || op == 5;
    Ref a = gen_integers(c, r, n), b = product ? gen_integers(c, n, k) : same_shape ? gen_integers(c, r, n) : gen_integers(c, k, extent(c, 6));
    Ref old = op == 10 ? gen_integers(c, extent(c, 6), extent(c, 6)) : Ref();
    bool some = false;
    with(ta, [&](auto* pa) { with(tb, [&](auto* pb) {
        typedef typename std::decay<decltype(*pa)>::type A;
        typedef typename std::decay<decltype(*pb)>::type B;
        std::string what = std::string(ops[op]) + " with a " + Name<A>::s() + " " + std::to_string(a.r) + "x" + std::to_string(a.c) + ", b " + Name<B>::s() + " " + std::to_string(b.r) + "x" + std::to_string(b.c);
        c.log() << what << " a=" << show(a) << " b=" << show(b);
        c.step(what);
        c.tag(ops[op]);
        struct Pair { A a; B b; };
        auto make = [&] { return Pair{BuildValue<A>::make(a), BuildValue<B>::make(b)}; };
        // the result in a place of its own
        auto value = [&](auto const& expression, Ref const& want) {
            typedef typename std::decay<decltype(expression(std::declval<A const&>(), std::declval<B const&>()))>::type R;
            struct State { Pair p; std::optional<R> r; };
            some = exhaust(c, what, [&] { return State{make(), {}}; },
                [&](State& s) { s.r.emplace(expression(static_cast<A const&>(s.p.a), static_cast<B const&>(s.p.b))); },
                [&](State& s, std::string const& w) {
                    REQUIRE(!s.r, w << ": there is a result");
                    require_same(to_ref(s.p.a), a, w + ": a"); require_same(to_ref(s.p.b), b, w + ": b"); },
                [&](State& s, std::string const& w) {
                    require_same(to_ref(*s.r), want, w);
                    require_same(to_ref(s.p.a), a, w + ": a"); require_same(to_ref(s.p.b), b, w + ": b"); });
        };
        auto in_place = [&](auto const& operation, Ref const& want) {
            some = exhaust(c, what, make, [&](Pair& s) { operation(s.a, static_cast<B const&>(s.b)); },
                [&](Pair& s, std::string const& w) { require_same(to_ref(s.a), a, w + ": a"); require_same(to_ref(s.b), b, w + ": b"); },
                [&](Pair& s, std::string const& w) { require_same(to_ref(s.a), want, w); require_same(to_ref(s.b), b, w + ": b"); });
        };
        switch (op) {
            case 0: value([](A const& x, B const& y) { return x + y; }, a + b); break;
            case 1: value([](A const& x, B const& y) { return x - y; }, a - b); break;
            case 2: value([](A const& x, B const& y) { return (x * y).template execute<Native>(); }, mul(a, b)); break;
            case 3: value([](A const& x, B const& y) { return (x * y).template execute<TheBestPolicy>(); }, mul(a, b)); break;
            case 4: in_place([](A& x, B const& y) { x += y; }, a + b); break;
            case 5: in_place([](A& x, B const& y) { x -= y; }, a - b); break;
            case 6: in_place([](A& x, B const& y) { if constexpr (std::is_same<A,B>::value) x = y; else x = A(y); }, b); break;
            case 7: value([](A const&, B const& y) { return A(y); }, b); break;
            case 8: value([](A const& x, B const&) { return transpose(x); }, trans(a)); break;
            case 9: {
                size_t r2 = extent(c, 6), n2 = extent(c, 6), e = c.below(r2 * n2 + 1);
                double x = static_cast<double>(c.sym(9));
                c.log() << " to " << r2 << "x" << n2 << " with " << e << " elements";
                some = exhaust(c, what, make, [&](Pair& s) { resize(s.a, r2, n2, e, x); },
                    [&](Pair& s, std::string const& w) { require_same(to_ref(s.a), a, w + ": a"); },
                    [&](Pair& s, std::string const& w) { require_resized(s.a, r2, n2, e, x, w + " to " + std::to_string(r2) + "x" + std::to_string(n2)); });
                break; }
            default: {
                typedef typename std::decay<decltype((std::declval<A>() * std::declval<B>()).template execute<Native>())>::type R;
                struct State { Pair p; R r; };
                bool best = c.chance(1, 2);
                some = exhaust(c, what, [&] { return State{make(), BuildValue<R>::make(old)}; },
                    [&](State& s) { if (best) s.r = (s.p.a * s.p.b).template execute<TheBestPolicy>(); else s.r = s.p.a * s.p.b; },
                    [&](State& s, std::string const& w) { require_same(to_ref(s.r), old, w + ": c"); require_same(to_ref(s.p.a), a, w + ": a"); require_same(to_ref(s.p.b), b, w + ": b"); },
                    [&](State& s, std::string const& w) { require_same(to_ref(s.r), mul(a, b), w); require_same(to_ref(s.p.a), a, w + ": a"); require_same(to_ref(s.p.b), b, w + ": b"); });
            }
        }
    }); });
    c.nontrivial(some && r && n);
}

/// copies and conversions of matrices with fixed size
template <size_t R, size_t N, class O>
void fixed(Ctx& c)
{
    typedef Matrix<Dense,double,PF<R,N,O>> X;
    typedef Matrix<Dense,double,Parameter<size_t,O>> D;
    Ref a = gen_integers(c, R, N), b = gen_integers(c, R, N);
    size_t op = c.below(5);
    static const char* ops[] = {"copy", "move", "conversion", "conversion back", "copy assignment"};
    std::string what = std::string(ops[op]) + " of fixed " + std::to_string(R) + "x" + std::to_string(N);
    c.log() << what << " a=" << show(a);
    c.tag("fixed size");
    struct State { X x; X y; D d; std::optional<X> r; std::optional<D> q; };
    bool some = exhaust(c, what,
        [&] { return State{dense<double,PF<R,N,O>>(a), dense<double,PF<R,N,O>>(b), dense<double,Parameter<size_t,O>>(a), {}, {}}; },
        [&](State& s) {
            switch (op) {
                case 0: s.r.emplace(static_cast<X const&>(s.x)); break;
                case 1: s.r.emplace(std::move(s.x)); break;
                case 2: s.r.emplace(static_cast<D const&>(s.d)); break;
                case 3: s.q.emplace(static_cast<X const&>(s.x)); break;
                default: s.y = s.x;
            } },
        [&](State& s, std::string const& w) {
            REQUIRE(!s.r && !s.q, w << ": there is a result");
            require_same(to_ref(s.x), a, w + ": the source"); require_same(to_ref(s.y), b, w + ": the target"); require_same(to_ref(s.d), a, w + ": the source"); },
        [&](State& s, std::string const& w) {
            if (s.r) require_same(to_ref(*s.r), a, w);
            if (s.q) require_same(to_ref(*s.q), a, w);
            require_same(to_ref(s.y), op == 4 ? a : b, w + ": the target"); });
    c.nontrivial(some);
}

} // namespace

LAW("one operation, static matrices, column-major", 0.5) { typed<PC>(c); }
LAW("one operation, static matrices, row-major", 0.3) { typed<PR>(c); }
LAW("fixed size", 0.05) { if (c.chance(1, 2)) fixed<2,3,ColumnMajor>(c); else fixed<3,1,RowMajor>(c); }

/// memory of somebody else stays as it is, and its matrix too
LAW("resize of external memory", 0.1)
{
    size_t r = extent(c, 6), n = extent(c, 6), r2 = extent(c, 6), n2 = extent(c, 6);
    if (r2 * n2 == r * n) { r2 = r; n2 = n; }
    Ref a = gen_integers(c, r, n);
    c.log() << "resize of external " << show(a) << " to " << r2 << "x" << n2;
    std::vector<double> v(r * n + 1);
    auto run = [&](auto* p) {
        typedef typename std::decay<decltype(*p)>::type M;
        M m(r, n, v.data());
        for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) m(i,j) = a(i,j);
        std::vector<double> was(v);
        bool thrown = false;
        try { m.resize(r2, n2); } catch (std::runtime_error const&) { thrown = true; }
        REQUIRE(thrown == (r2 * n2 != r * n), "resize of external " << r << "x" << n << " to " << r2 << "x" << n2 << (thrown ? " is refused" : " is not refused"));
        require_same(to_ref(m), a, "after the refused resize");
        REQUIRE(static_cast<size_t>(m.getSize()) == r * n, "after the refused resize: the size is " << m.getSize() << " instead of " << r * n);
        REQUIRE(v == was, "the refused resize changed the memory");
    };
    if (c.chance(1, 2)) run(static_cast<Matrix<Dense,double,PC>*>(nullptr)); else run(static_cast<Matrix<Dense,double,PR>*>(nullptr));
    c.nontrivial(r * n && r2 * n2 != r * n);
}

#else
namespace {

struct Dynamic { DynamicMatrix a, b, r; };

} // namespace

LAW("one operation, dynamic matrices", 0.6)
{
    size_t op = c.below(10), ka = c.below(7), kb = c.below(7);
    static const char* ops[] = {"a + b", "a - b", "a * b (Native)", "a * b (TheBestPolicy)", "a += b", "a -= b", "norms of a", "count in a", "dense a", "sparse a"};
    size_t r = extent(c, 5), n = extent(c, 5), k = extent(c, 5);
    bool product = op == 2 || op == 3, in_place = op == 4 || op == 5;
    Ref a = ka ? gen_integers(c, r, n) : Ref(r, n), b = product ? (kb ? gen_integers(c, n, k) : Ref(n, k)) : (kb ? gen_integers(c, r, n) : Ref(r, n));
    std::string what = std::string(ops[op]) + " with a " + kind_name(ka) + " " + std::to_string(a.r) + "x" + std::to_string(a.c) + ", b " + kind_name(kb) + " " + std::to_string(b.r) + "x" + std::to_string(b.c);
    c.log() << what << " a=" << show(a) << " b=" << show(b);
    c.step(what);
    c.tag(ops[op]);
    DynamicMatrix pa = make_dyn(c, ka, a), pb = make_dyn(c, kb, b);
    auto copied = [](size_t kind, DynamicMatrix const& m) -> DynamicMatrix {
        switch (kind) {
            case 0: return std::make_shared<ZeM>(static_cast<ZeM const&>(*m));
            case 1: return std::make_shared<SpF>(static_cast<SpF const&>(*m));
            case 2: return std::make_shared<DeF>(static_cast<DeF const&>(*m));
            case 3: return std::make_shared<SpD>(static_cast<SpD const&>(*m));
            case 4: { auto& x = static_cast<MuS const&>(*m); return std::make_shared<MuS>(std::make_shared<SpD>(x.getMatrix1()), std::make_shared<SpF>(x.getMatrix2())); }
            case 5: { auto& x = static_cast<MuD const&>(*m); return std::make_shared<MuD>(std::make_shared<SpD>(x.getMatrix1()), std::make_shared<DeF>(x.getMatrix2())); }
            default: return std::make_shared<DeD>(static_cast<DeD const&>(*m));
        }
    };
    // a sum of two parts is added part by part
    bool in_parts = in_place && (ka == 4 || ka == 5) && (kb == 4 || kb == 5);
    if (in_parts) { c.log() << " (left out)"; return; }
    Ref want = op % 2 == 0 ? a + (product ? Ref(a.r, a.c) : b) : a - (product ? Ref(a.r, a.c) : b);
    if (product) want = mul(a, b);
    if (op >= 6) want = a;
    bool some = exhaust(c, what, [&] { return Dynamic{copied(ka, pa), copied(kb, pb), DynamicMatrix()}; },
        [&](Dynamic& s) {
            switch (op) {
                case 0: s.r = s.a + s.b; break;
                case 1: s.r = s.a - s.b; break;
                case 2: s.r = (s.a * s.b).execute<Native>(); break;
                case 3: s.r = (s.a * s.b).execute<TheBestPolicy>(); break;
                case 4: s.a += s.b; break;
                case 5: s.a -= s.b; break;
                case 6: norm<NormOne>(s.a); norm<NormTwo>(s.a); norm<NormMax>(s.a); getNorm(s.a); break;
                case 7: countDesiredElements(s.a, AbsoluteValueRangeChecker<double>(2.5)); break;
                case 8: s.r = std::make_shared<DeD>(s.a); break;
                default: s.r = std::make_shared<SpF>(s.a); break;
            } },
        [&](Dynamic& s, std::string const& w) {
            REQUIRE(!s.r, w << ": there is a result");
            require_same(to_ref(s.a), a, w + ": a"); require_same(to_ref(s.b), b, w + ": b");
            REQUIRE(s.a.use_count() == 1 && s.b.use_count() == 1, w << ": somebody else holds an operand"); },
        [&](Dynamic& s, std::string const& w) {
            require_same(to_ref(s.b), b, w + ": b");
            require_same(to_ref(s.a), in_place ? want : a, w + ": a");
            if (s.r) require_same(to_ref(s.r), want, w);
            REQUIRE(s.a.use_count() == 1 && s.b.use_count() == 1, w << ": somebody else holds an operand"); });
    c.nontrivial(some && r && n);
}

LAW("MatrixConverter and block sizes", 0.15)
{
    size_t r = c.size(1, c.big(8)), n = c.size(1, c.big(8));
    Ref a = gen_integers(c, r, n);
    Threshold t = gen_threshold(c);
    size_t op = c.below(3), small = c.size(1, 3), large = small + c.below(4);
    static const char* ops[] = {"MatrixConverter of a dense matrix", "MatrixConverter of a part", "BlockSizeGenerator"};
    c.log() << ops[op] << " " << show(a);
    c.tag(ops[op]);
    struct State { DeD a; DynamicMatrix r; std::vector<size_t> rows, cols; };
    size_t i0 = c.below(r), j0 = c.below(n), h = 1 + c.below(r - i0), w = 1 + c.below(n - j0);
    if (op == 2) c.log() << " from " << small << " to " << large;
    bool some = exhaust(c, ops[op], [&] { return State{dense<double>(a), {}, {}, {}}; },
        [&](State& s) {
            if (op == 0) s.r = MatrixConverter()(s.a, t);
            else if (op == 1) { Matrix<Dense,double,Parameter<size_t,ColumnMajor,VariableSize,LeadingDimension>> part(s.a, h, w, i0, j0); s.r = MatrixConverter()(part, t); }
            else { auto p = BlockSizeGenerator(small, large)(s.a); s.rows.swap(std::get<0>(p)); s.cols.swap(std::get<1>(p)); } },
        [&](State& s, std::string const& what) {
            REQUIRE(!s.r && s.rows.empty() , what << ": there is a result");
            require_same(to_ref(s.a), a, what + ": the matrix"); },
        [&](State& s, std::string const& what) {
            if (op < 2) require_same(to_ref(s.r), op == 0 ? a : sub(a, h, w, i0, j0), what);
            else {
                size_t sr = 0, sn = 0;
                for (size_t x : s.rows) sr += x;
                for (size_t x : s.cols) sn += x;
                REQUIRE(sr == r && sn == n, what << ": the blocks cover " << sr << "x" << sn << " instead of " << r << "x" << n);
            }
            require_same(to_ref(s.a), a, what + ": the matrix"); });
    c.nontrivial(some);
}

LAW("one operation, blocked matrices", 0.25)
{
    size_t r = c.size(1, c.big(6)), n = c.size(1, c.big(6)), k = c.size(1, c.big(6));
    Ref a = gen_integers(c, r, n), b = gen_integers(c, n, k);
    auto sr = gen_parts(c, r), sn = gen_parts(c, n), sk = gen_parts(c, k);
    Threshold t = gen_threshold(c);
    size_t op = c.below(7);
    static const char* ops[] = {"generation", "unblocking", "copy", "copy assignment", "resize", "blocked product (Native)", "blocked product (TheBestPolicy)"};
    c.log() << ops[op] << " a=" << show(a) << " b=" << show(b) << " of " << sr.size() << "x" << sn.size() << " and " << sn.size() << "x" << sk.size() << " blocks";
    c.tag(ops[op]);
    DeD da = dense<double>(a), db = dense<double>(b);
    struct State { BlockedDenseMatrix a, b; std::optional<BlockedDenseMatrix> r; std::optional<DeD> d; };
    size_t r2 = c.size(0, 4), n2 = c.size(0, 4);
    auto require_blocked = [](BlockedDenseMatrix const& m, Ref const& want, std::vector<size_t> const& rows, std::vector<size_t> const& cols, std::string const& w) {
        REQUIRE(m.getNbRows() == rows.size() && m.getNbColumns() == cols.size(), w << ": " << m.getNbRows() << "x" << m.getNbColumns() << " blocks instead of " << rows.size() << "x" << cols.size());
        REQUIRE(m.getUnblockedRows() == want.r && m.getUnblockedColumns() == want.c, w << ": the blocked matrix is " << m.getUnblockedRows() << "x" << m.getUnblockedColumns() << " instead of " << want.r << "x" << want.c);
        require_same(to_ref(DeD(m)), want, w);
    };
    bool some = exhaust(c, ops[op],
        [&] { return State{BlockedMatrixGenerator()(da, sr, sn, t), BlockedMatrixGenerator()(db, sn, sk, t), {}, {}}; },
        [&](State& s) {
            switch (op) {
                case 0: s.r.emplace(BlockedMatrixGenerator()(da, sr, sn, t)); break;
                case 1: s.d.emplace(static_cast<BlockedDenseMatrix const&>(s.a)); break;
                case 2: s.r.emplace(static_cast<BlockedDenseMatrix const&>(s.a)); break;
                case 3: s.b = s.a; break;
                case 4: s.a.resize(r2, n2, r, n); break;
                case 5: s.r.emplace((s.a * s.b).execute<Native>()); break;
                default: s.r.emplace((s.a * s.b).execute<TheBestPolicy>()); break;
            } },
        [&](State& s, std::string const& w) {
            REQUIRE(!s.r && !s.d, w << ": there is a result");
            require_blocked(s.a, a, sr, sn, w + ": a"); require_blocked(s.b, b, sn, sk, w + ": b"); require_same(to_ref(da), a, w + ": the matrix"); },
        [&](State& s, std::string const& w) {
            if (op == 0 || op == 2) require_blocked(*s.r, a, sr, sn, w);
            if (op == 1) require_same(to_ref(*s.d), a, w);
            if (op >= 5) require_blocked(*s.r, mul(a, b), sr, sk, w);
            if (op == 3) require_blocked(s.b, a, sr, sn, w); else require_blocked(s.b, b, sn, sk, w + ": b");
            if (op == 4) REQUIRE(s.a.getNbRows() == r2 && s.a.getNbColumns() == n2 && static_cast<size_t>(s.a.end() - s.a.begin()) == r2 * n2, w << ": " << s.a.getNbRows() << "x" << s.a.getNbColumns() << " blocks");
            else require_blocked(s.a, a, sr, sn, w + ": a"); });
    c.nontrivial(some && sr.size() * sn.size() > 1);
}
#endif
