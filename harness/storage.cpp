// Histories over Storage objects (flexible heap, fixed heap, stack, striped view) against a model which
// knows the elements of every storage and who owns the memory.
#include <cassert>
#include <memory>
#include <new>
#include "pbt.h"
#include "BlasBooster/Core/Storage.h"
using namespace BlasBooster;
using pbt::Ctx;

namespace {

/// element which notices every leak and every double release
struct Obj
{
    static long& live() { static long n = 0; return n; }
    double v; uint64_t canary;
    static constexpr uint64_t C = 0x5ca1ab1e0ddba11ull;
    static long& budget() { static long n = -1; return n; }          // constructions until memory runs out
    Obj(double v = -77.0) : v(v), canary(C) { if (budget() >= 0 && budget()-- == 0) throw std::bad_alloc(); ++live(); }
    Obj(Obj const& o) : v(o.v), canary(C) { check(o); ++live(); }
    Obj& operator = (Obj const& o) { check(o); check(*this); v = o.v; return *this; }
    ~Obj() { if (canary != C) { std::fprintf(stderr, "element released twice\n"); abort(); } canary = 0; --live(); }
    static void check(Obj const& o) { REQUIRE(o.canary == C, "access to an element which is not alive"); }
    operator double () const { check(*this); return v; }
};

/// memory which does not belong to the storage
template <class T> struct Ext { std::vector<T> mem; };

/// elements are values in a shared vector: aliasing storages share it
struct M
{
    std::shared_ptr<std::vector<double>> v = std::make_shared<std::vector<double>>();
    bool external = false;
};

template <class T, class S> struct Slot { std::unique_ptr<S> s; M m; };

double gv(Ctx& c) { return static_cast<double>(c.sym(50)); }

template <class T, class S>
void same(S const& s, M const& m, std::string const& what)
{
    REQUIRE(s.size() == m.v->size(), what << " has " << s.size() << " elements instead of " << m.v->size());
    size_t i = 0;
    for (auto p = s.begin(); p != s.end(); ++p, ++i) {
        REQUIRE(i < m.v->size(), what << ": iteration runs past the end");
        double x = static_cast<double>(*p);
        REQUIRE(x == (*m.v)[i], what << ": element " << i << " is " << x << " instead of " << (*m.v)[i]);
        REQUIRE(static_cast<double>(s.getDataPointer()[i]) == x, what << ": element " << i << " through the pointer");
    }
    REQUIRE(i == m.v->size(), what << ": iteration ends after " << i << " elements");
}
template <class S> void put(S& s, M& m, size_t i, double x) { s.begin()[i] = x; (*m.v)[i] = x; }
template <class S> void refill(Ctx& c, S& s, M& m)
{
    for (size_t i = 0; i < m.v->size(); ++i) put(s, m, i, gv(c));
}

/// history over flexible storages
template <class T>
void flexible_history(Ctx& c, const char* name)
{
    typedef Storage<T,false,false,0,false> S;
    long before = Obj::live();
    {
        std::vector<std::unique_ptr<std::vector<T>>> ext;       // external memory
        std::vector<M> extm;
        std::vector<Slot<T,S>> w(4);
        c.log() << name << ": ";
        size_t n = c.size(1, 24), changes = 0;
        auto external = [&](size_t size) {
            ext.emplace_back(new std::vector<T>(size));
            M m; m.external = true;
            for (size_t i = 0; i < size; ++i) { double x = gv(c); ext.back()->at(i) = T(x); m.v->push_back(x); }
            extm.push_back(m);
            return ext.size() - 1;
        };
        for (size_t k = 0; k < n; ++k) {
            size_t i = c.below(4), j = c.below(4);
            auto& a = w[i]; auto& b = w[j];
            std::ostringstream what;
            switch (c.below(14)) {
                case 0: { size_t z = c.size(0, c.big(6)); what << i << "=new(" << z << ")"; c.step(what.str()); a.s.reset(new S(z)); a.m = M(); a.m.v->assign(z, 0.0); refill(c, *a.s, a.m); break; }
                case 1: { what << i << "=new{}"; c.step(what.str()); double x = gv(c), y = gv(c), z = gv(c); a.s.reset(new S{T(x), T(y), T(z)}); a.m = M(); *a.m.v = {x, y, z}; break; }
                case 2: if (!b.s) continue; what << i << "=copy of " << j; c.step(what.str());
                    { std::unique_ptr<S> s(new S(*b.s)); M m; *m.v = *b.m.v; a.s = std::move(s); a.m = m; } break;
                case 3: if (!b.s || i == j) continue; what << i << "=moved " << j; c.step(what.str());
                    { a.s.reset(new S(std::move(*b.s))); a.m = b.m; b.m = M(); } ++changes; break;
                case 4: { size_t z = c.size(0, c.big(6)); size_t e = external(z); what << i << "=view of memory of " << z; c.step(what.str());
                    a.s.reset(new S(ext[e]->data(), z)); a.m = extm[e]; break; }
                case 5: case 6: if (!a.s || !b.s) continue; what << i << ":=" << j; c.step(what.str());
                    *a.s = *b.s;
                    if (i != j) { if (b.m.external) a.m = b.m; else { M m; *m.v = *b.m.v; a.m = m; } }
                    ++changes; break;
                case 7: if (!a.s || !b.s) continue; what << i << ":=move " << j; c.step(what.str());
                    *a.s = std::move(*b.s);
                    if (i != j) { a.m = b.m; b.m = M(); }
                    ++changes; break;
                case 8: if (!a.s || !b.s) continue; what << "swap " << i << " " << j; c.step(what.str());
                    swap(*a.s, *b.s); if (i != j) std::swap(a.m, b.m); ++changes; break;
                case 9: { if (!a.s) continue; size_t z = c.size(0, c.big(6)); what << i << ".resize(" << z << ")"; c.step(what.str());
                    bool thrown = false;
                    try { a.s->resize(z); } catch (std::runtime_error const&) { thrown = true; }
                    bool refused = a.m.external && z != a.m.v->size();
                    REQUIRE(thrown == refused, "resizing " << (a.m.external ? "a view" : "a storage") << " of " << a.m.v->size() << " to " << z << (thrown ? " throws" : " does not throw"));
                    if (!refused && z != a.m.v->size()) { a.m = M(); a.m.v->assign(z, 0.0); refill(c, *a.s, a.m); }
                    ++changes; break; }
                case 10: if (!a.s || a.m.v->empty()) continue; what << i << "[]="; c.step(what.str()); put(*a.s, a.m, c.below(a.m.v->size()), gv(c)); ++changes; break;
                case 11: { if (!a.s) continue; double x = gv(c); what << i << ".fill"; c.step(what.str()); a.s->fill(T(x)); std::fill(a.m.v->begin(), a.m.v->end(), x); ++changes; break; }
                case 12: { if (ext.empty()) continue; size_t e = c.below(ext.size()); if (extm[e].v->empty()) continue;
                    what << "memory " << e << " changes"; size_t p = c.below(extm[e].v->size()); double x = gv(c); (*ext[e])[p] = T(x); (*extm[e].v)[p] = x; ++changes; break; }
                default: if (!a.s) continue; what << "delete " << i; c.step(what.str()); a.s.reset(); a.m = M(); break;
            }
            c.log() << what.str() << "; ";
            c.step("check after " + what.str());
            for (size_t q = 0; q < 4; ++q) if (w[q].s) {
                std::ostringstream os; os << name << " " << q << " after " << what.str();
                same<T>(*w[q].s, w[q].m, os.str());
            }
            for (size_t e = 0; e < ext.size(); ++e) for (size_t p = 0; p < extm[e].v->size(); ++p)
                REQUIRE(static_cast<double>((*ext[e])[p]) == (*extm[e].v)[p], "external memory " << e << " changed after " << what.str());
            for (size_t q = 0; q < 4; ++q) for (size_t r = 0; r < 4; ++r) if (w[q].s && w[r].s) {
                bool shared = q == r || (w[q].m.v == w[r].m.v && w[q].m.external);
                if (shared) REQUIRE(*w[q].s == *w[r].s, "a storage is not == " << (q == r ? "itself" : "a view of the same memory"));
                else if (!w[q].m.v->empty()) REQUIRE(!(*w[q].s == *w[r].s), "storages " << q << " and " << r << " are == although they do not share memory");
            }
        }
        c.nontrivial(changes > 2);
    }
    c.step("release");
    REQUIRE(Obj::live() == before, (Obj::live() - before) << " elements are still alive after all storages are gone");
}

/// history over storages of fixed size
template <class T, bool OnStack>
void fixed_history(Ctx& c, const char* name)
{
    const size_t N = 3;
    typedef Storage<T,OnStack,true,N,false> S;
    long before = Obj::live();
    {
        std::vector<std::unique_ptr<std::vector<T>>> ext;
        std::vector<M> extm;
        std::vector<Slot<T,S>> w(4);
        c.log() << name << ": ";
        size_t n = c.size(1, 24), changes = 0;
        for (size_t k = 0; k < n; ++k) {
            size_t i = c.below(4), j = c.below(4);
            auto& a = w[i]; auto& b = w[j];
            std::ostringstream what;
            // a moved-from storage of fixed size still has its size; its elements are unspecified
            auto forget = [&](Slot<T,S>& x) { x.m = M(); x.m.v->assign(N, 0.0); refill(c, *x.s, x.m); };
            switch (c.below(10)) {
                case 0: what << i << "=new"; c.step(what.str()); a.s.reset(new S(N)); a.m = M(); a.m.v->assign(N, 0.0); refill(c, *a.s, a.m); break;
                case 1: { what << i << "=new{}"; c.step(what.str()); double x = gv(c), y = gv(c), z = gv(c); a.s.reset(new S{T(x), T(y), T(z)}); a.m = M(); *a.m.v = {x, y, z}; break; }
                case 2: if (!b.s) continue; what << i << "=copy of " << j; c.step(what.str());
                    { std::unique_ptr<S> s(new S(*b.s)); M m; *m.v = *b.m.v; a.s = std::move(s); a.m = m; } break;
                case 3: if (!b.s || i == j) continue; what << i << "=moved " << j; c.step(what.str());
                    a.s.reset(new S(std::move(*b.s)));
                    if (OnStack) { M m; *m.v = *b.m.v; a.m = m; } else { a.m = b.m; b.m = M(); forget(b); }
                    ++changes; break;
                case 4:
                    if constexpr (!OnStack) {
                        what << i << "=view"; c.step(what.str());
                        ext.emplace_back(new std::vector<T>(N)); M m; m.external = true;
                        for (size_t p = 0; p < N; ++p) { double x = gv(c); ext.back()->at(p) = T(x); m.v->push_back(x); }
                        extm.push_back(m);
                        a.s.reset(new S(ext.back()->data(), N)); a.m = m; break;
                    } else continue;
                case 5: case 6: if (!a.s || !b.s) continue; what << i << ":=" << j; c.step(what.str());
                    { std::vector<double> x = *b.m.v; *a.s = *b.s; *a.m.v = x; } ++changes; break;
                case 7: if (!a.s || !b.s) continue; what << i << ":=move " << j; c.step(what.str());
                    *a.s = std::move(*b.s);
                    if (i != j) { if (OnStack) *a.m.v = *b.m.v; else { a.m = b.m; b.m = M(); } }
                    if constexpr (!OnStack) if (i != j) {
                        // the memory of a, perhaps a view, went to b or was released
                        c.step(what.str() + ", then the source is replaced"); b.s.reset(new S(N)); forget(b);
                    }
                    ++changes; break;
                case 8: if (!a.s) continue; what << i << "[]="; c.step(what.str()); put(*a.s, a.m, c.below(N), gv(c)); ++changes; break;
                default: if (!a.s) continue; what << "delete " << i; c.step(what.str()); a.s.reset(); a.m = M(); break;
            }
            c.log() << what.str() << "; ";
            c.step("check after " + what.str());
            for (size_t q = 0; q < 4; ++q) if (w[q].s) {
                std::ostringstream os; os << name << " " << q << " after " << what.str();
                same<T>(*w[q].s, w[q].m, os.str());
            }
            for (size_t e = 0; e < ext.size(); ++e) for (size_t p = 0; p < N; ++p)
                REQUIRE(static_cast<double>((*ext[e])[p]) == (*extm[e].v)[p], "external memory " << e << " changed after " << what.str());
        }
        c.nontrivial(changes > 2);
    }
    c.step("release");
    REQUIRE(Obj::live() == before, (Obj::live() - before) << " elements are still alive after all storages are gone");
}

/// memory runs out in the middle of a history: the storages keep their elements and nothing is lost
void faults(Ctx& c)
{
    typedef Storage<Obj,false,false,0,false> S;
    long before = Obj::live();
    {
        std::vector<Slot<Obj,S>> w(3);
        std::vector<Obj> mem(4);
        M view; view.external = true; for (auto& x : mem) { x.v = gv(c); view.v->push_back(x.v); }
        for (size_t i = 0; i < 3; ++i) {
            size_t z = c.size(0, 5);
            w[i].s.reset(new S(z)); w[i].m.v->assign(z, 0.0); refill(c, *w[i].s, w[i].m);
        }
        if (c.chance(1, 4)) { w[2].s.reset(new S(mem.data(), mem.size())); w[2].m = view; }
        size_t n = c.size(1, 10), faults = 0;
        for (size_t k = 0; k < n; ++k) {
            size_t i = c.below(3), j = c.below(3), z = c.size(0, 5);
            auto& a = w[i]; auto& b = w[j];
            std::ostringstream what;
            unsigned op = static_cast<unsigned>(c.below(4));
            const char* names[] = {"copy", "assignment", "resize", "move"};
            Obj::budget() = c.chance(2, 3) ? static_cast<long>(c.below(6)) : -1;
            what << names[op] << " " << i << " " << j << " memory for " << Obj::budget();
            c.log() << what.str() << "; ";
            c.step(what.str());
            bool thrown = false;
            M m = a.m;
            try {
                if (op == 0) { std::unique_ptr<S> s(new S(*b.s)); a.s = std::move(s); m = M(); *m.v = *b.m.v; }
                if (op == 1) { *a.s = *b.s; if (i != j) { m = b.m; if (!m.external) { m = M(); *m.v = *b.m.v; } } }
                if (op == 2) { if (a.m.external) z = a.m.v->size(); size_t old = a.m.v->size(); a.s->resize(z); Obj::budget() = -1; if (z != old) { m = M(); m.v->assign(z, 0.0); refill(c, *a.s, m); } }
                if (op == 3 && i != j) { *a.s = std::move(*b.s); m = b.m; b.m = M(); }
            } catch (std::bad_alloc const&) { thrown = true; }
            Obj::budget() = -1;
            if (thrown) { ++faults; c.tag(std::string("no memory for ") + names[op]); } else a.m = m;
            REQUIRE(!thrown || op != 3, "moving needs memory");
            for (size_t q = 0; q < 3; ++q) { std::ostringstream os; os << "storage " << q << " after " << what.str() << (thrown ? " (bad_alloc)" : ""); same<Obj>(*w[q].s, w[q].m, os.str()); }
        }
        c.nontrivial(faults > 0);
        c.step("release");
    }
    REQUIRE(Obj::live() == before, (Obj::live() - before) << " elements are still alive after all storages are gone");
}

/// conversions between the kinds of storage and of element; equality of values
template <class T1, class T2>
void convert(Ctx& c)
{
    const size_t N = 4;
    std::vector<double> v(N);
    for (auto& x : v) x = gv(c);
    for (double x : v) c.log() << x << " ";
    c.nontrivial();
    M m; *m.v = v;
    std::vector<T1> mem(v.begin(), v.end());
    Storage<T1,false,false,0> flex(N); std::copy(mem.begin(), mem.end(), flex.begin());
    Storage<T1,false,false,0> view(mem.data(), N);
    Storage<T1,false,true,N> fix; std::copy(mem.begin(), mem.end(), fix.begin());
    Storage<T1,true,true,N> stack; std::copy(mem.begin(), mem.end(), stack.begin());
    { Storage<T2,false,false,0> x(flex); same<T2>(x, m, "flexible from flexible"); x.begin()[0] = T2(99); REQUIRE(double(flex.begin()[0]) == v[0], "conversion shares memory"); }
    { Storage<T2,false,false,0> x(view); same<T2>(x, m, "flexible from view"); x.begin()[0] = T2(99); REQUIRE(double(mem[0]) == v[0], "conversion shares memory"); }
    { Storage<T2,false,false,0> x(fix); same<T2>(x, m, "flexible from fixed"); }
    { Storage<T2,false,false,0> x(stack); same<T2>(x, m, "flexible from stack"); }
    { Storage<T2,false,true,N> x(flex); same<T2>(x, m, "fixed from flexible"); }
    { Storage<T2,false,true,N> x(stack); same<T2>(x, m, "fixed from stack"); }
    bool thrown = false;
    try { Storage<T2,false,true,N+1> x(flex); } catch (std::runtime_error const&) { thrown = true; }
    REQUIRE(thrown, "a fixed storage of 5 elements takes 4");
    thrown = false;
    try { Storage<T2,false,true,N> x{T2(1), T2(2)}; } catch (std::runtime_error const&) { thrown = true; }
    REQUIRE(thrown, "a fixed storage of 4 elements takes a list of 2");
    // equality of values
    size_t p = c.below(N);
    Storage<T2,false,false,0> y(flex);
    Storage<T2,true,true,N> z; std::copy(v.begin(), v.end(), z.begin());
    REQUIRE(y.equal(flex) && y.equal(fix) && y.equal(stack) && flex.equal(y) && fix.equal(y) && stack.equal(y) && z.equal(flex) && flex.equal(z), "equal says no");
    REQUIRE(!y.notEqual(flex) && !fix.notEqual(y) && !stack.notEqual(y), "notEqual says yes");
    y.begin()[p] = T2(v[p] + 1); z.begin()[p] = T2(v[p] + 1);
    REQUIRE(!y.equal(flex) && !y.equal(fix) && !y.equal(stack) && !flex.equal(y) && !fix.equal(y) && !stack.equal(y) && !z.equal(flex) && !flex.equal(z), "equal misses element " << p);
    REQUIRE(y.notEqual(flex) && fix.notEqual(y) && stack.notEqual(y), "notEqual misses element " << p);
    Storage<T2,false,false,0> s(N - 1); std::copy(v.begin(), v.end() - 1, s.begin());
    REQUIRE(!s.equal(flex) && !flex.equal(s) && !fix.equal(s) && !stack.equal(s), "equal for different sizes");
}

/// walks over striped storage
template <class T>
void striped(Ctx& c)
{
    size_t n = c.size(0, 5), b = c.size(0, 4), sep = c.size(0, 4), pre = c.size(1, 3);
    std::vector<T> mem(pre + (n + sep) * b + 3);
    for (size_t i = 0; i < mem.size(); ++i) mem[i] = T(1000 + i);
    std::vector<size_t> pos;
    for (size_t k = 0; k < b; ++k) for (size_t i = 0; i < n; ++i) pos.push_back(pre + k * (n + sep) + i);
    typedef Storage<T,false,false,0,true> S;
    S s(mem.data() + pre, n, b, sep);
    S s2; s2 = s;
    S const& cs = c.chance(1, 2) ? s2 : s;
    c.log() << b << " blocks of " << n << " elements, " << sep << " between";
    c.tag(n == 0 || b == 0 ? "empty" : sep == 0 ? "dense" : "striped");
    c.nontrivial(pos.size() > 2 && b > 1 && sep > 0);
    REQUIRE(cs.size() == pos.size(), "size " << cs.size());
    c.step("forwards");
    size_t k = 0;
    for (auto p = cs.begin(); p != cs.end(); ++p, ++k) { REQUIRE(k < pos.size(), "forwards runs past the end"); REQUIRE(&*p == &mem[pos[k]], "forwards: element " << k); }
    REQUIRE(k == pos.size(), "forwards ends after " << k << " of " << pos.size());
    k = 0;
    for (auto p = s.begin(); p != s.end(); ++p, ++k) { REQUIRE(k < pos.size(), "forwards runs past the end"); REQUIRE(&*p == &mem[pos[k]], "forwards (not const): element " << k); }
    c.step("backwards");
    if (!pos.empty()) {
        k = pos.size();
        for (auto p = cs.rbegin(); p != cs.rend(); --p) { REQUIRE(k > 0, "backwards runs past the end"); --k; REQUIRE(&*p == &mem[pos[k]], "backwards: element " << k); }
        REQUIRE(k == 0, "backwards ends " << k << " elements before the first");
    }
    c.step("walk");
    typename S::const_iterator p = cs.begin(), q = cs.end();
    size_t i = 0, steps = c.size(0, 24);
    if (c.chance(1, 2)) { p = q; i = pos.size(); }
    for (size_t t = 0; t < steps && !pos.empty(); ++t) {
        bool fwd = c.chance(1, 2);
        if (fwd && i < pos.size()) { ++p; ++i; } else if (!fwd && i > 0) { --p; --i; } else continue;
        if (i < pos.size()) REQUIRE(&*p == &mem[pos[i]], "walk: at element " << i << " the iterator is at offset " << (&*p - &mem[0]));
        REQUIRE((p == cs.end()) == (i == pos.size()), "walk: end at element " << i);
        REQUIRE((p == cs.begin()) == (i == 0), "walk: begin at element " << i);
    }
    c.step("write");
    std::vector<T> want(mem);
    for (size_t x : pos) want[x] = T(7);
    std::fill(s.begin(), s.end(), T(7));
    REQUIRE(mem == want, "writing through the view changes other memory");
    S a(mem.data(), 1, 1, 0), d(a);
    swap(a, s);
    REQUIRE(s == d && !(a == d) && a == s2, "swap of striped storages");
}

} // namespace

LAW("flexible Obj", 1) { flexible_history<Obj>(c, "flexible"); }
LAW("flexible double", 1) { flexible_history<double>(c, "flexible double"); }
LAW("flexible int", 0.5) { flexible_history<int>(c, "flexible int"); }
LAW("fixed Obj", 1) { fixed_history<Obj,false>(c, "fixed"); }
LAW("fixed double", 0.5) { fixed_history<double,false>(c, "fixed double"); }
LAW("stack Obj", 0.5) { fixed_history<Obj,true>(c, "stack"); }
LAW("stack float", 0.5) { fixed_history<float,true>(c, "stack float"); }
LAW("memory runs out", 1) { faults(c); }
LAW("conversions", 0.5)
{
    switch (c.below(5)) {
        case 0: convert<double,double>(c); break;
        case 1: convert<double,float>(c); break;
        case 2: convert<float,double>(c); break;
        case 3: convert<int,double>(c); break;
        default: convert<int,int>(c); break;
    }
}
LAW("striped", 1) { if (c.chance(1, 2)) striped<double>(c); else striped<int>(c); }
