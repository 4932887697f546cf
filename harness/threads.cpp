// Several threads: operations which only read what they share, and change only what is their own, don't disturb each other.
// Built without the tracker, whose counters are for one thread.
#include "bbgen.h"
#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Core/Occupation.h"
#include "BlasBooster/Core/PatternGenerator.h"
#include "BlasBooster/Core/StatisticalErrorInformation.h"
#include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
#include "BlasBooster/MatrixFactory/MatrixGenerator.h"
#include <atomic>
#include <thread>
using namespace bb;

namespace {

/// what an operation gives: numbers and text, compared bit by bit with those of the operation on its own
struct Result
{
    std::vector<double> v; std::string s; Ref exact; bool has_exact = false;
    Result() {}
    Result(Ref const& a) : exact(a), has_exact(true) {}
};
inline bool same(Result const& a, Result const& b)
{ return a.s == b.s && a.v.size() == b.v.size() && (a.v.empty() || !std::memcmp(a.v.data(), b.v.data(), a.v.size() * 8))
    && a.has_exact == b.has_exact && a.exact.r == b.exact.r && a.exact.c == b.exact.c && a.exact.v == b.exact.v; }
inline std::string show(Result const& a)
{
    std::ostringstream os; os.precision(17);
    if (a.has_exact) os << bb::show(a.exact);
    for (size_t i = 0; i < a.v.size() && i < 20; ++i) os << " " << a.v[i];
    return os.str() + " " + a.s.substr(0, 400);
}

struct Task
{
    std::string name;
    std::function<Result()> run;
    Ref want; bool has_want = false;                    // in exact arithmetic
};

/// what all threads read
struct Shared
{
    std::vector<DynamicMatrix> d; std::vector<Ref> v; std::vector<size_t> kind;
    std::vector<std::shared_ptr<DeD>> dense; std::vector<Ref> dv;       // as static types, the same elements
    std::vector<std::shared_ptr<SpD>> sparse;
    std::vector<std::shared_ptr<Matrix<Dense,double,PR>>> row;
    std::vector<std::shared_ptr<DeF>> densef; std::vector<std::shared_ptr<SpF>> sparsef;
    std::vector<std::shared_ptr<Matrix<Sparse,double,PR>>> srow;
};
template <class M> M const& of(Shared const& s, size_t i)
{
    if constexpr (std::is_same<M,DeD>::value) return *s.dense[i];
    else if constexpr (std::is_same<M,SpD>::value) return *s.sparse[i];
    else if constexpr (std::is_same<M,DeF>::value) return *s.densef[i];
    else if constexpr (std::is_same<M,SpF>::value) return *s.sparsef[i];
    else if constexpr (std::is_same<M,Matrix<Dense,double,PR>>::value) return *s.row[i];
    else return *s.srow[i];
}

Ref gen_integers(Ctx& c, size_t r, size_t n)
{
    Ref a(r, n);
    a.plain = false;
    unsigned d = static_cast<unsigned>(c.below(4));
    for (auto& x : a.v) if (d && c.chance(d, 3)) x = static_cast<double>(c.sym(9));
    return a;
}

ThresholdSettings gen_settings(Ctx& c)
{
    ThresholdSettings s;
    s.set_significanceThresholdSinglePrecision(static_cast<double>(c.below(9)) + 1.5).set_significanceThresholdDoublePrecision(0.5);
    auto occ = [&] { return static_cast<double>(c.below(9)) / 8.0; };
    s.set_occupationThresholdMatrixSparseFloatSinglePrecision(occ()).set_occupationThresholdMatrixSparseFloatDoublePrecision(occ());
    s.set_occupationThresholdMatrixDenseFloatSinglePrecision(occ()).set_occupationThresholdMatrixDenseFloatDoublePrecision(occ());
    s.set_occupationThresholdMatrixSparseDoubleSinglePrecision(occ()).set_occupationThresholdMatrixSparseDoubleDoublePrecision(occ());
    s.set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(occ()).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(occ());
    s.set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(occ()).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(occ());
    return s;
}

std::vector<size_t> gen_parts(Ctx& c, size_t n)
{
    std::vector<size_t> s;
    while (n) { size_t x = c.size(1, n); s.push_back(x); n -= x; }
    return s;
}

template <class M> Result reading(M const& m) { return Result(to_ref(m)); }
Result reading(DynamicMatrix const& m) { Result o(to_ref(m)); o.s = kind_name(m->getTypeIndex()); return o; }

Task exact(std::string const& name, Ref const& want, std::function<Result()> run) { Task t; t.name = name; t.run = run; t.want = want; t.has_want = true; return t; }
Task alone(std::string const& name, std::function<Result()> run) { Task t; t.name = name; t.run = run; return t; }

template <class X, class Y, class = void> struct HasMinus : std::false_type {};
template <class X, class Y> struct HasMinus<X, Y, std::void_t<decltype(std::declval<X const&>() - std::declval<Y const&>())>> : std::true_type {};

/// operations of two static types
template <class X, class Y> Task typed(std::shared_ptr<Shared> const& s, size_t op, size_t a, size_t b)
{
    std::ostringstream os;
    static const char* names[] = {"sum", "difference", "product (Native)", "product (TheBestPolicy)", "conversion", "compound sum"};
    os << names[op] << " of " << Name<X>::s() << " m" << a << ", " << Name<Y>::s() << " m" << b;
    std::string n = os.str();
    switch (op) {
        case 0: if constexpr (HasMinus<X,Y>::value) return exact(n, s->v[a] + s->v[b], [=] { return reading(of<X>(*s, a) + of<Y>(*s, b)); });
                else return exact("copy of " + Name<X>::s(), s->v[a], [=] { X x(of<X>(*s, a)); return reading(x); });
        case 1: if constexpr (HasMinus<X,Y>::value) return exact(n, s->v[a] - s->v[b], [=] { return reading(of<X>(*s, a) - of<Y>(*s, b)); });
                else return exact("transposition of " + Name<X>::s(), trans(s->v[a]), [=] { return reading(transpose(of<X>(*s, a))); });
        case 2: return exact(n, mul(s->v[a], s->v[b]), [=] { return reading((of<X>(*s, a) * of<Y>(*s, b)).template execute<Native>()); });
        case 3: return exact(n, mul(s->v[a], s->v[b]), [=] { return reading((of<X>(*s, a) * of<Y>(*s, b)).template execute<TheBestPolicy>()); });
        case 4: return exact(n, s->v[a], [=] { return reading(Y(of<X>(*s, a))); });
        default: return exact(n, s->v[a] + s->v[b], [=] { DeD x(of<X>(*s, a)); if constexpr (std::is_same<typename Y::parameter::orientation,ColumnMajor>::value) x += of<Y>(*s, b); else x += DeD(of<Y>(*s, b)); return reading(x); });
    }
}
typedef Task (*Typed)(std::shared_ptr<Shared> const&, size_t, size_t, size_t);
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Sparse,double,PR> SpDR;
template <class X> std::vector<Typed> typed_with() { return {typed<X,DeD>, typed<X,DeF>, typed<X,SpD>, typed<X,SpF>, typed<X,DeDR>, typed<X,SpDR>}; }

constexpr size_t nops = 28;

/// everything an operation needs beyond the shared matrices is decided here, before the threads start
Task gen_task(Ctx& c, std::shared_ptr<Shared> const& s, size_t op, size_t who, size_t number)
{
    size_t k = s->d.size(), a = c.below(k), b = c.below(k);
    std::ostringstream no;
    no << "m" << a << ", m" << b;
    std::string ops = no.str();
    switch (op) {
        case 0: return exact("dynamic sum of " + ops, s->v[a] + s->v[b], [=] { return reading(s->d[a] + s->d[b]); });
        case 1: return exact("dynamic difference of " + ops, s->v[a] - s->v[b], [=] { return reading(s->d[a] - s->d[b]); });
        case 2: return exact("dynamic product (Native) of " + ops, mul(s->v[a], s->v[b]), [=] { return reading((s->d[a] * s->d[b]).execute<Native>()); });
        case 3: return exact("dynamic product (TheBestPolicy) of " + ops, mul(s->v[a], s->v[b]), [=] { return reading((s->d[a] * s->d[b]).execute<TheBestPolicy>()); });
        case 4: {
            size_t t = c.below(4);
            return exact("conversion of dynamic " + ops + " to type " + std::to_string(t), s->v[a], [=] {
                return t == 0 ? reading(DeD(s->d[a])) : t == 1 ? reading(DeF(s->d[a])) : t == 2 ? reading(SpD(s->d[a])) : reading(SpF(s->d[a])); }); }
        case 5: {
            Threshold t(gen_settings(c));
            return exact("MatrixConverter of " + ops, s->v[a], [=] { return reading(MatrixConverter()(*s->dense[a], t)); }); }
        case 6: {
            size_t t = c.below(3);
            return exact("transposition of " + ops, trans(s->v[a]), [=] { return t == 0 ? reading(transpose(*s->dense[a])) : t == 1 ? reading(transpose(*s->sparse[a])) : reading(transpose(*s->row[a])); }); }
        case 7: return alone("norms of " + ops, [=] {
            Result o;
            o.v = {norm<NormOne>(s->d[a]), norm<NormTwo>(s->d[a]), norm<NormMax>(s->d[a]), getNorm(s->d[a]), norm<NormTwo>(*s->dense[b]), norm<NormTwo>(*s->sparse[b]), s->dense[a]->getNorm(), s->sparse[b]->getNorm()};
            return o; });
        case 8: {
            double bound = static_cast<double>(c.below(9)) + 0.5;
            return alone("occupation of " + ops, [=] {
                AbsoluteValueRangeChecker<double> checker(bound);
                Result o;
                o.v = {static_cast<double>(countDesiredElements(s->d[a], checker)), static_cast<double>(countDesiredElements(*s->dense[b], checker)), s->sparse[a]->getOccupation(checker), getOccupation(s->d[b], checker)};
                return o; }); }
        case 9: {
            size_t mn = c.size(1, 3), mx = 2 * mn + c.size(0, 4);
            return alone("BlockSizeGenerator of " + ops, [=] {
                Result o;
                auto p = BlockSizeGenerator(mn, mx)(*s->dense[a]);
                std::ostringstream os;
                for (size_t x : std::get<0>(p)) os << " " << x;
                os << " |";
                for (size_t x : std::get<1>(p)) os << " " << x;
                o.s = os.str();
                return o; }); }
        case 10: case 11: {
            auto sr = gen_parts(c, s->v[a].r), sk = gen_parts(c, s->v[a].c), sn = gen_parts(c, s->v[b].c);
            Threshold t(gen_settings(c));
            return exact("blocked product of " + ops, mul(s->v[a], s->v[b]), [=] {
                BlockedDenseMatrix x = BlockedMatrixGenerator()(*s->dense[a], sr, sk, t), y = BlockedMatrixGenerator()(*s->dense[b], sk, sn, t);
                BlockedDenseMatrix p = op == 10 ? (x * y).execute<Native>() : (x * y).execute<TheBestPolicy>();
                return reading(DeD(p)); }); }
        case 12: return alone("printing of " + ops, [=] {
            Result o;
            std::ostringstream os;
            os << *s->dense[a] << *s->sparse[b];
            os << s->d[a];
            o.s = os.str();
            return o; });
        case 13: return exact("compound sum on a copy of " + ops, s->v[a] + s->v[b], [=] { DeD x(*s->dense[a]); x += *s->sparse[b]; return reading(x); });
        case 14: return exact("compound difference on a copy of " + ops, s->v[a] - s->v[b], [=] { DeD x(*s->dense[a]); x -= *s->dense[b]; return reading(x); });
        case 15: {
            MatrixGenerator::Settings g;
            size_t r = c.size(1, 6), n = c.size(1, 6);
            g.set_seed(static_cast<unsigned>(c.below(3))).set_occupation(static_cast<double>(c.below(5)) / 4.0).set_minValue(-2.0).set_maxValue(3.0);
            return alone("MatrixGenerator", [=] { return reading(MatrixGenerator(r, n, g)()); }); }
        case 16: return alone("deviations of " + ops, [=] {
            Result o;
            o.v = {getMaximalDeviation(*s->dense[a], *s->dense[b]), getRootMeanSquareDeviation(*s->dense[a], *s->sparse[b]), s->dense[a]->equal(*s->dense[b]) ? 1.0 : 0.0};
            return o; });
        case 17: return exact("product (EigenI) of " + ops, mul(s->v[a], s->v[b]), [=] { return reading((*s->dense[a] * *s->dense[b]).execute<EigenI>()); });
        case 18: return exact("product of static types of " + ops, mul(s->v[a], s->v[b]), [=] { return reading((*s->sparse[a] * *s->sparse[b]).execute<Native>()); });
        case 19: return exact("product of static types (TheBestPolicy) of " + ops, mul(s->v[a], s->v[b]), [=] { return reading((*s->dense[a] * *s->sparse[b]).execute<TheBestPolicy>()); });
        case 20: {
            size_t r = s->v[a].r, n = s->v[a].c;
            size_t h = c.size(1, r), w = c.size(1, n), i0 = c.below(r - h + 1), j0 = c.below(n - w + 1);
            return exact("copy and part of " + ops, sub(s->v[a], h, w, i0, j0), [=] {
                SpD p(*s->sparse[a]); DeD x(p);
                Matrix<Dense,double,Parameter<size_t,ColumnMajor,VariableSize,LeadingDimension>> view(x, h, w, i0, j0);
                return reading(DeD(view)); }); }
        case 21: {
            std::string file = c.scratch + "/pattern" + std::to_string(who) + "." + std::to_string(number);
            PatternGenerator::Settings g;
            g.set_palette(std::vector<PatternGenerator::Color>{PatternGenerator::Color("a", "FF0000", 4.5), PatternGenerator::Color("b", "00FF00", 1.5)}).set_background_index(" ").set_background_color("FFFFFF");
            return alone("PatternGenerator of " + ops, [=] {
                PatternGenerator gen(g); gen(*s->dense[a], file);
                Result o;
                { std::ifstream is(file); o.s.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); }
                std::remove(file.c_str());
                return o; }); }
        case 22: {
            std::string data = c.scratch + "/data" + std::to_string(who) + "." + std::to_string(number), desc = data + ".xml";
            bool importer = c.chance(1, 2);
            return exact((importer ? "MatrixFileImporter of " : "Matrix from a file of ") + ops, s->v[a], [=] {
                Ref const& v = s->v[a];
                { std::ofstream os(data, std::ofstream::binary); os.write(reinterpret_cast<const char*>(v.v.data()), static_cast<std::streamsize>(v.v.size() * 8)); }
                {
                    std::ofstream os(desc);
                    if (importer) os << v.r << " " << v.c << " " << data << "\n";
                    else os << "<nbRows>" << v.r << "</nbRows>\n<nbColumns>" << v.c << "</nbColumns>\n<rowLeadingDimension>" << v.r << "</rowLeadingDimension>\n<columnLeadingDimension>" << v.c
                        << "</columnLeadingDimension>\n<filename>" << data << "</filename>\n";
                }
                Result o = importer ? reading(MatrixFileImporter(filesystem::path(desc))()) : reading(DeD{filesystem::path(desc)});
                std::remove(data.c_str()); std::remove(desc.c_str());
                return o; }); }
        case 24: case 25: case 26: case 27: {
            static std::vector<std::vector<Typed>> const t = {typed_with<DeD>(), typed_with<DeF>(), typed_with<SpD>(), typed_with<SpF>(), typed_with<DeDR>(), typed_with<SpDR>()};
            size_t x = c.below(6), y = c.below(6);
            return t[x][y](s, c.below(6), a, b); }
        default: return exact("fillers and sums of " + ops, [&] { Ref w(s->v[a]); for (size_t i = 0; i < w.r; ++i) for (size_t j = 0; j < w.c; ++j) w(i,j) += static_cast<double>(j * w.r + i + 1); return w; }(),
            [=] { DeD x(s->v[a].r, s->v[a].c, ContinuousNumberFiller()); return reading(*s->sparse[a] + x); });
    }
}

} // namespace

LAW("operations in several threads", 1.0)
{
    size_t n = c.size(1, c.big(6)), k = c.size(2, 4), threads = c.size(2, 4), rounds = c.size(1, 3), tasks = c.size(1, 4);
    auto s = std::make_shared<Shared>();
    for (size_t i = 0; i < k; ++i) {
        size_t kind = c.below(7);
        Ref v = kind == 0 ? Ref(n, n) : gen_integers(c, n, n);
        c.log() << (i ? " " : "") << "m" << i << "=" << kind_name(kind) << " " << bb::show(v);
        s->d.push_back(make_dyn(c, kind, v)); s->v.push_back(v); s->kind.push_back(kind);
        s->dense.push_back(std::make_shared<DeD>(dense<double>(v)));
        s->sparse.push_back(std::make_shared<SpD>(sparse<double>(v)));
        s->densef.push_back(std::make_shared<DeF>(dense<float>(v)));
        s->sparsef.push_back(std::make_shared<SpF>(sparse<float>(v)));
        s->srow.push_back(std::make_shared<SpDR>(sparse<double,PR>(v)));
        s->row.push_back(std::make_shared<Matrix<Dense,double,PR>>(dense<double,PR>(v)));
    }
    // all threads the same operation, or each one others
    bool alike = c.chance(1, 3);
    std::vector<std::vector<Task>> plan(threads);
    std::vector<size_t> common;
    for (size_t t = 0; t < threads; ++t) {
        c.log() << "; thread " << t << ":";
        for (size_t i = 0; i < tasks; ++i) {
            size_t op = alike && t ? common[i] : c.below(nops);
            if (!t) common.push_back(op);
            plan[t].push_back(gen_task(c, s, op, t, i));
            c.tag(plan[t].back().name.substr(0, plan[t].back().name.find(" of ")));
            c.log() << (i ? ", " : " ") << plan[t].back().name;
        }
    }
    c.log() << "; " << rounds << " rounds";
    c.nontrivial(n > 1);
    std::vector<std::vector<Result>> got(threads);
    std::vector<std::string> problem(threads);
    std::atomic<size_t> waiting(threads);
    c.step("the operations in threads");
    std::vector<std::thread> pool;
    for (size_t t = 0; t < threads; ++t) pool.emplace_back([&, t] {
        waiting.fetch_sub(1, std::memory_order_relaxed);
        while (waiting.load(std::memory_order_relaxed)) std::this_thread::yield();
        for (size_t r = 0; r < rounds; ++r) for (auto const& x : plan[t]) {
            try { got[t].push_back(x.run()); }
            catch (pbt::Failure const& e) { if (problem[t].empty()) problem[t] = x.name + ": " + e.msg; got[t].push_back(Result()); }
            catch (std::exception const& e) { if (problem[t].empty()) problem[t] = x.name + ": exception " + e.what(); got[t].push_back(Result()); }
        }
    });
    for (auto& t : pool) t.join();
    c.step("the operations one by one");
    for (size_t t = 0; t < threads; ++t) REQUIRE(problem[t].empty(), "thread " << t << ": " << problem[t]);
    for (size_t t = 0; t < threads; ++t) for (size_t i = 0; i < tasks; ++i) {
        Task const& x = plan[t][i];
        Result on_its_own = x.run();
        for (size_t r = 0; r < rounds; ++r) {
            Result const& g = got[t][r * tasks + i];
            std::ostringstream what;
            what << "thread " << t << ", " << x.name << ", round " << r;
            if (x.has_want) require_same(g.exact, x.want, what.str());
            REQUIRE(same(g, on_its_own), what.str() << ": " << show(g) << " instead of " << show(on_its_own) << ", as alone");
        }
    }
    for (size_t i = 0; i < k; ++i) {
        require_same(to_ref(s->d[i]), s->v[i], "shared matrix afterwards");
        require_same(to_ref(*s->dense[i]), s->v[i], "shared dense matrix afterwards");
        require_same(to_ref(*s->sparse[i]), s->v[i], "shared sparse matrix afterwards");
        require_same(to_ref(*s->densef[i]), s->v[i], "shared dense float matrix afterwards");
        require_same(to_ref(*s->sparsef[i]), s->v[i], "shared sparse float matrix afterwards");
        require_same(to_ref(*s->srow[i]), s->v[i], "shared row-major sparse matrix afterwards");
        require_same(to_ref(*s->row[i]), s->v[i], "shared row-major matrix afterwards");
    }
}
