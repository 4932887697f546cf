// AbsoluteValueRangeChecker: which ranges exist, which values are inside, ordering as map key.
#include <cassert>
#include <cfloat>
#include <map>
#include <set>
#include <tuple>
#include "pbt.h"
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
using namespace BlasBooster;
using pbt::Ctx;

namespace {

typedef AbsoluteValueRangeChecker<double, ExclusiveBound, NoBound> Open;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, InclusiveBound> ExIn;
typedef AbsoluteValueRangeChecker<double, InclusiveBound, InclusiveBound> InIn;
typedef AbsoluteValueRangeChecker<double, ExclusiveBound, ExclusiveBound> ExEx;

/// kind is the position in the list of checkers
struct Model
{
    int kind; double lo, hi;
    bool valid() const
    {
        if (lo < 0.0) return false;
        if (kind == 0) return true;
        return kind == 2 ? lo <= hi : lo < hi;
    }
    bool accepts(double a) const
    {
        if (a < 0.0) a = -a;
        switch (kind) {
            case 0: return a > lo;
            case 1: return a > lo && a <= hi;
            case 2: return a >= lo && a <= hi;
            default: return a > lo && a < hi;
        }
    }
    std::tuple<int,double,double> key() const { return std::make_tuple(kind, lo, kind == 0 ? 0.0 : hi); }
};
std::ostream& operator << (std::ostream& os, Model const& m)
{
    static const char* n[] = {"(lo,", "(lo,hi]", "[lo,hi]", "(lo,hi)"};
    return os << n[m.kind] << " lo=" << m.lo << " hi=" << m.hi;
}

std::shared_ptr<ValueCheckerBase> make(Model const& m)
{
    switch (m.kind) {
        case 0: return std::make_shared<Open>(m.lo);
        case 1: return std::make_shared<ExIn>(m.lo, m.hi);
        case 2: return std::make_shared<InIn>(m.lo, m.hi);
        default: return std::make_shared<ExEx>(m.lo, m.hi);
    }
}
template <class V>
bool ask(Model const& m, V v)
{
    switch (m.kind) {
        case 0: return Open(m.lo)(v);
        case 1: return ExIn(m.lo, m.hi)(v);
        case 2: return InIn(m.lo, m.hi)(v);
        default: return ExEx(m.lo, m.hi)(v);
    }
}

/// a few repeated values, neighbours of them, and extremes
double gen_bound(Ctx& c)
{
    static const double base[] = {0.0, 1.0, 0.1, 0.25, 3.0, 1e-10, 1e10, DBL_MIN, DBL_MAX, 2.0, 0.5};
    double x = base[c.below(sizeof(base) / sizeof(*base))];
    switch (c.below(5)) {
        case 0: if (x < DBL_MAX) x += x * DBL_EPSILON; break;
        case 1: if (x > DBL_MIN * 4) x -= x * DBL_EPSILON; break;
        case 2: x = static_cast<double>(static_cast<float>(x < FLT_MAX ? x < FLT_MIN ? 0.0 : x : 1.0)); break;
        default: break;
    }
    return c.chance(1, 12) ? -x : x;
}
Model gen(Ctx& c)
{
    Model m = {static_cast<int>(c.below(4)), gen_bound(c), gen_bound(c)};
    if (c.chance(2, 3)) { m.lo = m.lo < 0 ? -m.lo : m.lo; m.hi = m.hi < 0 ? -m.hi : m.hi; if (m.lo > m.hi) std::swap(m.lo, m.hi); }
    return m;
}

} // namespace

LAW("construction", 1)
{
    Model m = gen(c);
    c.log() << m;
    c.nontrivial(m.lo != 0.0 && m.hi != 0.0);
    bool thrown = false;
    try { make(m); } catch (CoreException const&) { thrown = true; }
    c.tag(thrown ? "refused" : "accepted");
    REQUIRE(thrown != m.valid(), m << (thrown ? " refused" : " accepted"));
}

LAW("default", 0.1)
{
    double v = gen_bound(c);
    c.log() << v;
    c.nontrivial(v != 0.0);
    Open o;
    REQUIRE(o(v) == (v != 0.0), "default checker for " << v << " says " << o(v));
    REQUIRE(ask(Model{0, 0.0, 0.0}, v) == o(v), "default checker is not the checker of 0.0");
}

LAW("membership", 2)
{
    Model m = gen(c);
    for (int i = 0; !m.valid() && i < 20; ++i) m = gen(c);
    if (!m.valid()) m = Model{0, 1.0, 1.0};
    double v = gen_bound(c);
    switch (c.below(6)) {
        case 0: v = m.lo; break;
        case 1: v = m.hi; break;
        case 2: v = m.lo + m.lo * DBL_EPSILON < DBL_MAX / 2 ? m.lo + m.lo * DBL_EPSILON : v; break;
        case 3: v = m.hi < DBL_MAX / 2 ? m.hi + m.hi * DBL_EPSILON : v; break;
        case 4: v = m.lo / 2 + m.hi / 2; break;
        default: break;
    }
    if (c.chance(1, 2)) v = -v;
    c.log() << m << " value " << v;
    double a = v < 0 ? -v : v;
    bool edge = a == m.lo || (m.kind && a == m.hi);
    c.tag(edge ? "at a bound" : m.accepts(v) ? "inside" : "outside");
    c.nontrivial(v != 0.0);
    REQUIRE(ask(m, v) == m.accepts(v), m << " says " << ask(m, v) << " for the double " << v);
    if (a < FLT_MAX && (a == 0.0 || a >= FLT_MIN)) {
        float f = static_cast<float>(v);
        REQUIRE(ask(m, f) == m.accepts(f), m << " says " << ask(m, f) << " for the float " << f);
    }
    if (a < 1e9) {
        int i = static_cast<int>(v);
        REQUIRE(ask(m, i) == m.accepts(i), m << " says " << ask(m, i) << " for the int " << i);
    }
}

LAW("ranges which share a bound", 1)
{
    double v = gen_bound(c), t = gen_bound(c), u = gen_bound(c);
    t = t < 0 ? -t : t; u = u < 0 ? -u : u;
    if (t > u) std::swap(t, u);
    if (t == 0.0 || t >= u) { t = 0.5; u = 1.0; }
    if (c.chance(1, 2)) v = c.chance(1, 2) ? t : u;
    if (c.chance(1, 4)) v = -v;
    c.log() << "t=" << t << " u=" << u << " v=" << v;
    c.nontrivial(v != 0.0);
    int n = ExIn(0.0, t)(v) + ExIn(t, u)(v) + Open(u)(v);
    REQUIRE(n == (v != 0.0), "(0,t], (t,u] and (u,.. accept " << v << " together " << n << " times");
    n = ExEx(0.0, t)(v) + InIn(t, u)(v) + Open(u)(v);
    REQUIRE(n == (v != 0.0), "(0,t), [t,u] and (u,.. accept " << v << " together " << n << " times");
    REQUIRE(InIn(t, t)(v) == (v == t || v == -t), "[t,t] says " << InIn(t, t)(v) << " for " << v);
    REQUIRE(ExEx(t, u)(v) + InIn(t, t)(v) + InIn(u, u)(v) == InIn(t, u)(v), "(t,u), [t,t], [u,u] together are not [t,u] for " << v);
}

LAW("ordering", 2)
{
    std::vector<Model> ms;
    std::vector<std::shared_ptr<ValueCheckerBase>> vs;
    size_t n = c.size(1, 10);
    for (size_t i = 0; i < n; ++i) {
        Model m = gen(c);
        if (!ms.empty() && c.chance(1, 3)) { Model o = c.pick(ms); if (c.chance(1, 2)) m = o; else { o.kind = static_cast<int>(c.below(4)); m = o; } }
        if (!m.valid()) m = Model{static_cast<int>(c.below(4)), 1.0, 2.0};
        ms.push_back(m);
        vs.push_back(make(m));
        c.log() << m << "; ";
    }
    std::map<std::shared_ptr<ValueCheckerBase>, int, ValueCheckerLess> map;
    std::map<std::tuple<int,double,double>, int> model;
    std::set<int> kinds;
    for (size_t i = 0; i < n; ++i) {
        kinds.insert(ms[i].kind);
        REQUIRE(vs[i]->getID() == static_cast<size_t>(ms[i].kind), ms[i] << " has ID " << vs[i]->getID());
        for (size_t j = 0; j < n; ++j) {
            bool less = *vs[i] < *vs[j];
            REQUIRE(less == (ms[i].key() < ms[j].key()), ms[i] << " < " << ms[j] << " says " << less);
            REQUIRE(ValueCheckerLess()(vs[i], vs[j]) == less, "ValueCheckerLess differs from <");
        }
        c.step("map");
        bool fresh = map.insert({vs[i], static_cast<int>(i)}).second;
        REQUIRE(fresh == model.insert({ms[i].key(), static_cast<int>(i)}).second, ms[i] << (fresh ? " was not found in the map" : " was taken for another checker"));
    }
    c.nontrivial(kinds.size() > 1);
    REQUIRE(map.size() == model.size(), "map of " << map.size() << " checkers instead of " << model.size());
    auto j = model.begin();
    for (auto const& p : map) { REQUIRE(p.second == j->second, "order of the checkers in the map"); ++j; }
    for (size_t i = 0; i < n; ++i) REQUIRE(map.find(make(ms[i]))->second == model[ms[i].key()], ms[i] << " finds another entry");
}
