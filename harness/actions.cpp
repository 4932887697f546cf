// The actions of the benchmark program and the program itself.
#include "bbgen.h"
#include "program.h"
#include "BlasBooster/Core/Matrix.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/../../src/Benchmark/ActionProvider.h"
#include "BlasBooster/../../src/Benchmark/time.h"
#include "BrainTwister/benchmark.h"
#ifdef WITH_INTELMKL
#include "mkl_stubs.h"
#endif
using namespace bb;

extern "C" void openblas_set_num_threads(int);
extern "C" int openblas_get_num_threads();
extern "C" int benchmark_main(int argc, char* argv[]);       // program_benchmark.cpp

namespace {

typedef Matrix<Dense,double> M;
enum { SINGLE_A = 1, SINGLE_B = 2, SINGLE_C = 4, ANY = 8 };
struct Kind { const char* name; int precision; size_t details; };
const std::vector<Kind> kinds = {
#ifdef WITH_OPENBLAS
    {"openblas_dgemm", 0, 0}, {"openblas_sgemm", SINGLE_A | SINGLE_B | SINGLE_C, 0},
#endif
    {"eigen_dgemm", 0, 0}, {"eigen_sgemm", SINGLE_A | SINGLE_B | SINGLE_C, 0},
    {"blaze_dgemm", 0, 0}, {"blaze_sgemm", SINGLE_A | SINGLE_B | SINGLE_C, 0}, {"blaze_sdgemm", SINGLE_A, 0}, {"blaze_dsgemm", SINGLE_B, 0},
    {"blasbooster_block", ANY, 3}, {"native_dense", 0, 0},
#ifdef WITH_INTELMKL
    {"intelmkl_dgemm", 0, 0}, {"intelmkl_sgemm", SINGLE_A | SINGLE_B | SINGLE_C, 0},
#endif
};

std::pair<std::string, ptree> action(Ctx& c, Kind const& k)
{
    ptree t;
    if (k.precision == ANY) {
        if (c.chance(3, 4)) {
            ptree th;
            int lo = (int)c.size(1, 4);
            th.put("min_block_size", lo); th.put("max_block_size", lo * 2 + (int)c.below(4));
            t.put_child("threshold", th);
        }
    } else if (c.chance(1, 2)) t.put("number_of_threads", c.size(1, 4));
    return {k.name, t};
}
size_t dimension(Ctx& c, bool none) { return c.chance(1, 30) ? c.size(20, 60) : c.size(none && c.chance(1, 12) ? 0 : 1, 9); }
std::string seconds(BrainTwister::myclock::duration d, int digits)
{
    char b[100];
    snprintf(b, sizeof b, "%.*f", digits, 1e-9 * (double)std::chrono::duration_cast<std::chrono::nanoseconds>(d).count());
    return b;
}

LAW("products of the actions", 1)
{
    ptree tree;
    std::vector<Kind> want;
    bool block = false;
    for (size_t n = c.size(1, 3); n; --n) { Kind k = c.pick(kinds); tree.push_back(action(c, k)); want.push_back(k); block |= k.precision == ANY; }
    size_t r = dimension(c, !block), k = dimension(c, !block), n = dimension(c, !block);
    Ref a = gen_ref(c, r, k), b = gen_ref(c, k, n), w = mul(a, b);
    BrainTwister::Benchmark::Settings s;
    s.min_replications = (uint32_t)c.size(0, 3); s.warm_up_runs = (uint32_t)c.below(2);
    for (auto& x : want) c.log() << x.name << " ";
    c.log() << "A=" << show(a) << " B=" << show(b) << " replications " << s.min_replications << "+" << s.warm_up_runs;
    for (auto& x : want) c.tag(x.name);
    c.nontrivial(w.nnz());
    M A(dense<double>(a)), B(dense<double>(b));
    const BrainTwister::Benchmark benchmark(s);
    c.step("provider");
    auto list = ActionProvider(tree).get();
    REQUIRE(list.size() == want.size(), list.size() << " actions");
    for (size_t i = 0; i < list.size(); ++i) {
        std::string name = want[i].name;
        REQUIRE(list[i]->name() == name, "action " << i << " is " << list[i]->name() << " instead of " << name);
        c.step(name);
        auto [C, time, details] = list[i]->execute(A, B, benchmark);
        require_same(to_ref(C), w, "product of " + name);
        REQUIRE(details.size() == want[i].details, name << " has " << details.size() << " details");
        BrainTwister::myclock::duration sum(0);
        for (auto& d : details) sum += std::get<1>(d);
        REQUIRE(time.count() > 0 && (details.empty() || sum == time), "time of " << name << " is " << time.count() << ", its parts are " << sum.count());
        require_same(to_ref(A), a, "left operand after " + name);
        require_same(to_ref(B), b, "right operand after " + name);
    }
}

LAW("thresholds of blasbooster_block", 0.2)
{
    ThresholdSettings threshold;
    ptree tree, settings, th;
    auto put = [&](char const* name, auto& member, auto v) { member = v; th.put(name, v); };
    double single = std::ldexp(1.0, -(int)c.below(12));
    put("significanceThresholdSinglePrecision", threshold.significanceThresholdSinglePrecision, single);
    put("significanceThresholdDoublePrecision", threshold.significanceThresholdDoublePrecision, single * std::ldexp(1.0, -1 - (int)c.below(8)));
    int lo = (int)c.size(1, 4);
    put("min_block_size", threshold.min_block_size, lo);
    put("max_block_size", threshold.max_block_size, lo * 2 + (int)c.below(4));
    settings.put_child("threshold", th);
    tree.push_back({"blasbooster_block", settings});
    size_t r = c.size(1, 9), k = c.size(1, 9), n = c.size(1, 9);
    // the elements are powers of two around the thresholds
    auto matrix = [&](size_t r, size_t n) { Ref x(r, n); for (auto& v : x.v) if (c.chance(3, 4)) v = std::ldexp(c.chance(1, 2) ? 1.0 : -1.0, (int)c.below(24) - 22); return x; };
    Ref a = matrix(r, k), b = matrix(k, n);
    c.log() << "A=" << show(a) << " B=" << show(b) << " significant from " << threshold.significanceThresholdSinglePrecision << " and " << threshold.significanceThresholdDoublePrecision << " blocks of " << lo << ".." << threshold.max_block_size;
    M A(dense<double>(a)), B(dense<double>(b));
    // the parts of the library are the subject of other properties
    auto [rows, inner, cols] = BlockSizeGenerator(threshold.min_block_size, threshold.max_block_size).matrix_matrix_mult(A, B);
    M want = (BlockedMatrixGenerator()(A, rows, inner, Threshold(threshold)) * BlockedMatrixGenerator()(B, inner, cols, Threshold(threshold))).template execute<TheBestPolicy>();
    Ref w = to_ref(want);
    bool different = false;
    Ref whole = mul(a, b);
    for (size_t i = 0; i < w.v.size(); ++i) different |= w.v[i] != whole.v[i];
    c.tag(different ? "elements are dropped" : "nothing is dropped");
    c.nontrivial(different);
    c.step("blasbooster_block");
    auto [C, time, details] = ActionProvider(tree).get().at(0)->execute(A, B, BrainTwister::Benchmark());
    require_same(to_ref(C), w, "product of blasbooster_block");
}

LAW("precision of the actions", 0.3)
{
    Kind k = c.pick(kinds);
    if (k.precision == ANY) k = kinds[0];
    size_t r = c.size(1, 9), n = c.size(1, 9);
    Ref a(r, 1), b(1, n), w(r, n);
    // 26 bits, products of doubles are exact
    auto value = [&] { return (double)(c.sym(1 << 25) * 2 + 1); };
    for (auto& x : a.v) x = value();
    for (auto& x : b.v) x = value();
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) {
        double x = k.precision & SINGLE_A ? (double)(float)a(i,0) : a(i,0), y = k.precision & SINGLE_B ? (double)(float)b(0,j) : b(0,j);
        w(i,j) = k.precision & SINGLE_C ? (double)(float)(x * y) : x * y;
    }
    c.log() << k.name << " A=" << show(a) << " B=" << show(b);
    c.tag(k.name); c.nontrivial();
    ptree tree;
    tree.push_back(action(c, k));
    M A(dense<double>(a)), B(dense<double>(b));
    c.step(k.name);
    auto [C, time, details] = ActionProvider(tree).get().at(0)->execute(A, B, BrainTwister::Benchmark());
    // the elements of a product in single precision may be rounded one way or the other
    require_same(to_ref(C), w, std::string("product of ") + k.name, k.precision & SINGLE_C ? 1e10 : 0.0);
}

#ifdef WITH_OPENBLAS
LAW("threads of the OpenBLAS actions", 0.05)
{
    ptree tree, settings;
    int n = (int)c.size(1, 4), before = (int)c.size(1, 4);
    bool given = c.chance(3, 4);
    std::string name = c.chance(1, 2) ? "openblas_dgemm" : "openblas_sgemm";
    if (given) settings.put("number_of_threads", n); else n = 1;
    tree.push_back({name, settings});
    c.log() << name << " with " << n << (given ? "" : " (default)") << " threads, " << before << " before";
    c.nontrivial(n != before);
    openblas_set_num_threads(n);
    int want = openblas_get_num_threads();
    openblas_set_num_threads(before);
    M A(dense<double>(gen_ref(c, 3, 3))), B(dense<double>(gen_ref(c, 3, 3)));
    c.step(name);
    ActionProvider(tree).get().at(0)->execute(A, B, BrainTwister::Benchmark());
    REQUIRE(openblas_get_num_threads() == want, name << " used " << openblas_get_num_threads() << " threads instead of " << want);
}

#endif

#ifdef WITH_INTELMKL
LAW("threads of the Intel MKL actions", 0.2)
{
    ptree tree, settings;
    int n = (int)c.size(1, 40);
    bool given = c.chance(3, 4), single = c.chance(1, 2);
    std::string name = single ? "intelmkl_sgemm" : "intelmkl_dgemm";
    if (given) settings.put("number_of_threads", n); else n = 1;
    tree.push_back({name, settings});
    Ref a = gen_ref(c, 3, 4), b = gen_ref(c, 4, 2);
    c.log() << name << " with " << n << (given ? "" : " (default)") << " threads";
    c.nontrivial();
    M A(dense<double>(a)), B(dense<double>(b));
    BrainTwister::Benchmark::Settings s;
    s.min_replications = (uint32_t)c.size(1, 3);
    fresh();
    mkl_threads = mkl_dynamic = -1;
    c.step(name);
    ActionProvider(tree).get().at(0)->execute(A, B, BrainTwister::Benchmark(s));
    REQUIRE(illegal == 0, "argument " << illegal << " of the routine of the library is illegal");
    REQUIRE(calls > 0, "the library is not used");
    REQUIRE(mkl_threads == n && mkl_dynamic == 0, name << " used " << mkl_threads << " threads (dynamic " << mkl_dynamic << ") instead of " << n);
}
#endif

LAW("unknown actions", 0.1)
{
    static const std::vector<std::string> names = {"", "openblas", "openblas_dgemm ", "Native_dense", "native", "blasbooster_sparse_double",
#ifndef WITH_INTELMKL
        "intelmkl_dgemm", "intelmkl_sgemm",
#else
        "intelmkl_dcsrmm",
#endif
#ifndef WITH_OPENBLAS
        "openblas_dgemm", "openblas_sgemm",
#endif
        "blaze_gemm", "x"};
    ptree tree;
    size_t n = c.size(1, 3), at = c.below(n);
    std::string name = c.pick(names);
    for (size_t i = 0; i < n; ++i) tree.push_back(i == at ? std::make_pair(name, ptree()) : action(c, c.pick(kinds)));
    c.log() << "action '" << name << "' at " << at << " of " << n;
    c.nontrivial();
    c.step("provider");
    try { ActionProvider p(tree); } catch (std::exception const&) { return; }
    REQUIRE(false, "the action was accepted");
}

// ---- printing ----------------------------------------------------------------------------

LAW("printed durations", 0.3)
{
    typedef BrainTwister::myclock::duration D;
    std::ostringstream os, other;
    std::string want;
    static const std::vector<std::ios_base::fmtflags> flags = {std::ios::scientific, std::ios::fixed, std::ios::left, std::ios::right, std::ios::showpos, std::ios::hex, std::ios::boolalpha};
    int digits = 0;
    bool set = false;
    other << set_duration_accuracy(7);
    size_t n = c.size(1, 6);
    for (size_t i = 0; i < n; ++i) {
        if (!set || c.chance(1, 3)) { digits = (int)c.below(10); set = true; os << set_duration_accuracy(digits); c.log() << "digits " << digits << "; "; }
        auto f = c.pick(flags) | c.pick(flags);
        f &= ~std::ios::showpos;
        os.flags(f);
        int64_t ns = (int64_t)c.below(3) == 0 ? (int64_t)c.below(1000) : (int64_t)c.below(4000000000000ull);
        D d = std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns));
        c.log() << ns << " ns; ";
        c.step("printing");
        std::string before = os.str();
        os << d;
        std::string got = os.str().substr(before.size());
        REQUIRE(got == seconds(d, digits), "printed '" << got << "' instead of '" << seconds(d, digits) << "'");
        REQUIRE(os.flags() == f, "the flags of the stream changed");
    }
    c.nontrivial(n > 1);
    other << D(std::chrono::nanoseconds(1500000000));
    REQUIRE(other.str() == "1.5000000", "another stream printed " << other.str());
    // details
    ActionBase::Details details;
    std::ostringstream o;
    o << set_duration_accuracy(digits);
    size_t m = c.below(4);
    for (size_t i = 0; i < m; ++i) {
        D d(std::chrono::nanoseconds((int64_t)c.below(4000000000000ull)));
        std::string name(1, (char)('a' + i));
        details.emplace_back(name, d);
        want += name + ": " + seconds(d, digits) + " s ";
    }
    o << details;
    REQUIRE(o.str() == want, "details printed '" << o.str() << "' instead of '" << want << "'");
}

// ---- the program -------------------------------------------------------------------------

double max_norm(Ref const& a) { double s = 0; for (double x : a.v) s = std::max(s, std::abs(x)); return s; }
double two_norm(Ref const& a) { double s = 0; for (double x : a.v) s += x * x; return std::sqrt(s); }

LAW("benchmark program", 1)
{
    size_t matrices = c.size(1, 3), n_actions = c.size(1, c.chance(1, 5) ? 8 : 4), bad = c.below(16);
    bool inexact = c.chance(1, 3), diff = c.chance(1, 2), sh = c.chance(1, 2);
    std::vector<Kind> ks;
    ptree root, actions, sets;
    for (size_t i = 0; i < n_actions; ++i) { Kind k = c.pick(kinds); if (inexact && k.precision == ANY) k = kinds[1]; ks.push_back(k); actions.push_back(action(c, k)); }
    if (inexact) {              // a reference in double precision
        ks[0] = kinds[0]; actions.pop_front(); actions.push_front(action(c, ks[0]));
    }
    std::vector<std::unique_ptr<MatrixFile>> files;
    std::vector<Ref> as, bs;
    ptree A, B;
    bool equal = !inexact && bad != 0 && c.chance(1, 4);
    size_t most = 7;
    if (c.chance(1, 25)) { matrices = c.size(9, 13); most = 3; c.tag("many matrices"); }
    else if (!inexact && c.chance(1, 20)) { matrices = 1; most = 45; c.tag("larger matrices"); }
    for (size_t i = 0; i < matrices; ++i) {
        size_t r = c.size(1, most), k = inexact ? 1 : equal ? r : c.size(1, most), n = equal ? r : c.size(1, most);
        Ref a = gen_ref(c, r, k), b = gen_ref(c, k, n);
        if (inexact) { for (auto& x : a.v) x = (double)(c.sym(1 << 25) * 2 + 1); for (auto& x : b.v) x = (double)(c.sym(1 << 25) * 2 + 1); }
        if (equal) b = a;
        as.push_back(a); bs.push_back(b);
        files.emplace_back(new MatrixFile(c.scratch + "/A" + std::to_string(i), a));
        ptree e; e.put_value(files.back()->xml.name); A.push_back(std::make_pair("File", e));
        if (!equal) {
            files.emplace_back(new MatrixFile(c.scratch + "/B" + std::to_string(i), b));
            e.put_value(files.back()->xml.name); B.push_back(std::make_pair("File", e));
        }
        c.log() << "A=" << show(a) << " B=" << show(b) << "; ";
    }
    if (equal) { ptree e; e.put_value("A"); B.push_back(std::make_pair("EqualTo", e)); }
    if (bad == 0) A.push_back(A.front());
    if (bad == 1) { ptree e; actions.push_back(std::make_pair("nonsense", e)); }
    if (bad == 2) { ptree e; A.clear(); B.clear(); }
    sets.push_back(std::make_pair("A", A)); if (bad != 3) sets.push_back(std::make_pair("B", B));
    if (bad != 4) root.push_back(std::make_pair("actions", actions));
    root.push_back(std::make_pair("matrices", sets));
    ptree bm; bm.put("min_replications", c.size(0, 2)); bm.put("warm_up_runs", c.below(2));
    root.push_back(std::make_pair("benchmark", bm));

    Directory dir(c.scratch);
    bool standard = c.chance(1, 4);
    File settings(c.scratch + "/" + (standard ? "benchmark.json" : "settings.json"));
    if (bad != 5) { std::ofstream os(settings.name); if (bad == 6) os << "{ \"actions\": "; else boost::property_tree::write_json(os, root); }
    std::vector<std::unique_ptr<File>> outputs;
    for (size_t i = 0; i < matrices + 1; ++i) outputs.emplace_back(new File(c.scratch + "/diff_" + std::to_string(i) + ".dat"));

    int digits = 3;
    std::vector<std::string> args = {"benchmark"};
    if (!standard) { args.push_back(sh ? "-s" : "--settings"); args.push_back(settings.name); }
    if (c.chance(1, 2)) { digits = (int)c.below(8); args.push_back(sh ? "-a" : "--duration_digits"); args.push_back(std::to_string(digits)); }
    if (diff) args.push_back(sh ? "-d" : "--diff");
    if (bad == 7) args.push_back("--nonsense");
    if (bad == 8) args.push_back("-h");
    for (auto& k : ks) c.log() << k.name << " ";
    for (size_t i = 3 - 2 * standard; i < args.size(); ++i) c.log() << args[i] << " ";
    c.log() << (inexact ? "large values" : "") << " fault " << (bad < 9 ? (int)bad : -1);
    c.tag(bad < 9 ? "fault " + std::to_string(bad) : "no fault");
    c.nontrivial(bad > 8 && n_actions > 1);
    c.step("program");
    int64_t calls = BrainTwister::Benchmark::calls();
    std::string out;
    int rc = run(benchmark_main, args, &out);
    REQUIRE(rc == (bad < 8), "exit code is " << rc);
    if (bad < 9) {
        for (auto& f : outputs) REQUIRE(!exists(f->name), "a difference was written");
        return;
    }
    // the rows below the line
    std::istringstream is(out);
    std::string line;
    while (std::getline(is, line) && line != std::string(120, '-')) ;
    for (size_t i = 0; i < matrices; ++i) {
        Ref ref = mul(as[i], bs[i]), last;
        for (size_t j = 0; j < n_actions; ++j) {
            REQUIRE(std::getline(is, line), "row of matrix " << i << ", action " << j << " is missing");
            std::istringstream ls(line);
            size_t index; std::string name, time; double mx, two;
            REQUIRE(ls >> index >> name >> time >> mx >> two, "row '" << line << "'");
            REQUIRE(index == i && name == ks[j].name, "row '" << line << "' instead of matrix " << i << ", " << ks[j].name);
            auto tick = [&] { return BrainTwister::myclock::duration(std::chrono::nanoseconds(1234567891LL * ++calls)); };
            BrainTwister::myclock::duration total(0);
            std::string details;
            if (ks[j].details) {
                for (auto n : {"size", "block", "mult"}) { auto d = tick(); total += d; details += std::string(n) + ": " + seconds(d, digits) + " s "; }
            } else total = tick();
            REQUIRE(time == seconds(total, digits), "time " << time << " instead of " << seconds(total, digits) << " in '" << line << "'");
            std::string rest((std::istreambuf_iterator<char>(ls)), std::istreambuf_iterator<char>());
            REQUIRE(details.empty() ? rest.find_first_not_of(' ') == std::string::npos : rest.find(details) != std::string::npos, "details '" << rest << "' instead of '" << details << "'");
            Ref w = ref;
            if (inexact) for (size_t p = 0; p < w.r; ++p) for (size_t q = 0; q < w.c; ++q) {
                double x = ks[j].precision & SINGLE_A ? (double)(float)as[i](p,0) : as[i](p,0), y = ks[j].precision & SINGLE_B ? (double)(float)bs[i](0,q) : bs[i](0,q);
                w(p,q) = ks[j].precision & SINGLE_C ? (double)(float)(x * y) : x * y;
            }
            last = w - ref;
            double tolerance = std::pow(10.0, -std::min(digits, 6));
            auto close = [&](double got, double want) { return want == 0.0 ? got == 0.0 : std::abs(got - want) <= tolerance * want; };
            REQUIRE(close(mx, j ? max_norm(last) : 0.0), "maximum of the difference is " << mx << " instead of " << max_norm(last) << " in '" << line << "'");
            REQUIRE(close(two, j ? two_norm(last) : 0.0), "norm of the difference is " << two << " instead of " << two_norm(last) << " in '" << line << "'");
        }
        if (diff && n_actions > 1) {
            auto v = read_doubles(outputs[i]->name);
            REQUIRE(v.size() == last.v.size(), "difference has " << v.size() << " elements instead of " << last.v.size());
            Ref got(last.r, last.c);
            got.v = v;
            require_same(got, last, "written difference");
        } else REQUIRE(!exists(outputs[i]->name), "a difference was written");
    }
}

} // namespace
