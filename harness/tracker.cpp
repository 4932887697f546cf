// P23: the trackers count every product once, under its own name, and the table shows them.
#include "bbgen.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "BlasBooster/Core/Multiplication_Blaze.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Utilities/Tracker.h"
using namespace bb;

namespace {
#define ID(X) { #X, TrackerID::X }
const std::vector<std::pair<std::string,TrackerID>> ids = {
    ID(OpenBLAS_dgemm), ID(OpenBLAS_sgemm), ID(IntelMKL_dgemm), ID(IntelMKL_sgemm), ID(IntelMKL_dcsrmm), ID(IntelMKL_scsrmm),
    ID(IntelMKL_dcsrmultcsr), ID(IntelMKL_scsrmultcsr), ID(Eigen_dgemm), ID(Eigen_sgemm), ID(Eigen_sdgemm), ID(Eigen_dsgemm),
    ID(Blaze_dgemm), ID(Blaze_sgemm), ID(Blaze_sdgemm), ID(Blaze_dsgemm), ID(Native_GeneralDense), ID(Native_sparse),
    ID(Native_sparse_dense), ID(Native_dense_sparse), ID(Native_matrix_zero), ID(Native_zero_matrix), ID(Native_zero_zero),
    ID(get_detection_arrays), ID(get_block_size) };
const size_t NB = static_cast<size_t>(TrackerID::size);

typedef std::map<TrackerID,size_t> Counts;
typedef std::function<void(Ctx&)> Run;
struct Op { std::string name; Counts counts; void (*run)(Ctx&); };

template <class A, class B, class I> void product(Ctx& c)
{
    size_t r = c.size(1, c.big(4)), k = c.size(1, c.big(4)), n = c.size(1, c.big(4));
    auto a = Build<A>::make(c, holdable<A>(gen_ref(c, r, k)));
    auto b = Build<B>::make(c, holdable<B>(gen_ref(c, k, n)));
    auto p = (*a * *b).template execute<I>();
    REQUIRE(p.getNbRows() == r && p.getNbColumns() == n, "size of the product");
}
template <size_t KA, size_t KB> void dynamic(Ctx& c)
{
    size_t r = c.size(1, c.big(4)), k = c.size(1, c.big(4)), n = c.size(1, c.big(4));
    DynamicMatrix a = make_dyn(c, KA, KA ? gen_ref(c, r, k) : Ref(r, k)), b = make_dyn(c, KB, KB ? gen_ref(c, k, n) : Ref(k, n));
    DynamicMatrix d = (a * b).template execute<Native>();
}
void partition(Ctx& c)
{
    BlockSizeGenerator g(2, 5);
    DeD m = dense<double>(gen_ref(c, c.size(6, 9), c.size(1, 9)));
    g(m);
}
void partition_small(Ctx& c)
{
    BlockSizeGenerator g(2, 5);
    DeD m = dense<double>(gen_ref(c, c.size(1, 5), c.size(1, 5)));
    g(m);
}
void partition_mult(Ctx& c)
{
    BlockSizeGenerator g(2, 5);
    size_t k = c.size(1, 9);
    DeF a = dense<float>(gen_ref(c, c.size(1, 9), k)), b = dense<float>(gen_ref(c, k, c.size(1, 9)));
    g.matrix_matrix_mult(a, b);
}

const std::vector<Op>& ops()
{
    typedef TrackerID T;
    static const std::vector<Op> o = {
        { "DeD*DeD OpenBLAS", {{T::OpenBLAS_dgemm,1}}, product<DeD,DeD,OpenBLAS> }, { "DeF*DeF OpenBLAS", {{T::OpenBLAS_sgemm,1}}, product<DeF,DeF,OpenBLAS> },
        { "DeD*DeD best", {{T::OpenBLAS_dgemm,1}}, product<DeD,DeD,TheBestPolicy> }, { "DeF*DeF best", {{T::OpenBLAS_sgemm,1}}, product<DeF,DeF,TheBestPolicy> },
        { "DeF*DeD best", {{T::Native_GeneralDense,1}}, product<DeF,DeD,TheBestPolicy> }, { "SpD*SpF best", {{T::Native_sparse,1}}, product<SpD,SpF,TheBestPolicy> },
        { "DeD*DeD Eigen", {{T::Eigen_dgemm,1}}, product<DeD,DeD,EigenI> }, { "DeF*DeF Eigen", {{T::Eigen_sgemm,1}}, product<DeF,DeF,EigenI> },
        { "DeF*DeD Eigen", {{T::Eigen_sdgemm,1}}, product<DeF,DeD,EigenI> }, { "DeD*DeF Eigen", {{T::Eigen_dsgemm,1}}, product<DeD,DeF,EigenI> },
        { "DeD*DeD Blaze", {{T::Blaze_dgemm,1}}, product<DeD,DeD,Blaze> }, { "DeF*DeF Blaze", {{T::Blaze_sgemm,1}}, product<DeF,DeF,Blaze> },
        { "DeF*DeD Blaze", {{T::Blaze_sdgemm,1}}, product<DeF,DeD,Blaze> }, { "DeD*DeF Blaze", {{T::Blaze_dsgemm,1}}, product<DeD,DeF,Blaze> },
        { "DeD*DeD Native", {{T::Native_GeneralDense,1}}, product<DeD,DeD,Native> }, { "DeF*DeD Native", {{T::Native_GeneralDense,1}}, product<DeF,DeD,Native> },
        { "SpD*SpD Native", {{T::Native_sparse,1}}, product<SpD,SpD,Native> }, { "SpF*SpD Native", {{T::Native_sparse,1}}, product<SpF,SpD,Native> },
        { "SpD*DeD Native", {{T::Native_sparse_dense,1}}, product<SpD,DeD,Native> }, { "SpF*DeF Native", {{T::Native_sparse_dense,1}}, product<SpF,DeF,Native> },
        { "DeD*SpD Native", {{T::Native_dense_sparse,1}}, product<DeD,SpD,Native> }, { "DeF*SpD Native", {{T::Native_dense_sparse,1}}, product<DeF,SpD,Native> },
        { "DeD*0 Native", {{T::Native_matrix_zero,1}}, product<DeD,ZeM,Native> }, { "SpF*0 Native", {{T::Native_matrix_zero,1}}, product<SpF,ZeM,Native> },
        { "0*DeF Native", {{T::Native_zero_matrix,1}}, product<ZeM,DeF,Native> }, { "0*SpD Native", {{T::Native_zero_matrix,1}}, product<ZeM,SpD,Native> },
        { "0*0 Native", {{T::Native_zero_zero,1}}, product<ZeM,ZeM,Native> },
        { "dynamic 0*0", {{T::Native_zero_zero,1}}, dynamic<0,0> },
        { "partition", {{T::get_detection_arrays,1},{T::get_block_size,2}}, partition }, { "partition of a small matrix", {}, partition_small },
        { "partition for a product", {{T::get_detection_arrays,2},{T::get_block_size,3}}, partition_mult },
        { "tracker only", {{T::IntelMKL_dcsrmultcsr,1}}, [](Ctx&) { Tracker<TrackerID::IntelMKL_dcsrmultcsr> t; } },
        { "other trackers", {{T::Blaze_dsgemm,1},{T::IntelMKL_scsrmm,1}}, [](Ctx&) { Tracker<TrackerID::Blaze_dsgemm> t; Tracker<TrackerID::IntelMKL_scsrmm> u; } },
    };
    return o;
}

long long ns(BlasBooster::clock::duration d) { return d.count(); }

void table(Ctx& c, std::string const& out, std::vector<size_t> const& count, std::vector<long long> const& time)
{
    std::istringstream is(out);
    std::string line;
    std::map<std::string, std::pair<size_t,long long>> shown;
    while (std::getline(is, line)) {
        std::istringstream ls(line);
        std::string name; std::vector<std::string> w;
        while (ls >> name) w.push_back(name);
        if (w.size() < 2 || w[0] == "tracker") continue;                 // head, ruler, empty lines
        REQUIRE(w.size() == 4 && w[3] == "ns", "a line of the table does not have name, count, time and unit: '" << line << "'");
        REQUIRE(shown.count(w[0]) == 0, w[0] << " is shown twice");
        size_t p, q; shown[w[0]] = { (size_t)std::stoull(w[1], &p), std::stoll(w[2], &q) };
        REQUIRE(p == w[1].size() && q == w[2].size(), "numbers of the table: '" << line << "'");
    }
    for (auto& [name, id] : ids) {
        size_t i = (size_t)id;
        if (!count[i]) { REQUIRE(!shown.count(name), name << " is shown, but was never used"); continue; }
        REQUIRE(shown.count(name), name << " is not shown in the table:\n" << out);
        REQUIRE(shown[name].first == count[i] && shown[name].second == time[i], name << " is shown with " << shown[name].first << ", " << shown[name].second
            << " ns, but had " << count[i] << ", " << time[i] << " ns");
        shown.erase(name);
    }
    REQUIRE(shown.empty(), "an unknown tracker is shown: " << shown.begin()->first);
}
} // namespace

LAW("history of products and partitions", 1)
{
    std::vector<size_t> count(NB, 0);
    std::vector<long long> time(NB, 0);
    TrackerRegister::count.fill(0);
    TrackerRegister::time.fill(BlasBooster::clock::duration::zero());
    size_t n = c.size(1, 8);
    c.nontrivial(n > 1);
    for (size_t s = 0; s < n; ++s) {
        Op const& op = ops()[c.below(ops().size())];
        c.step(op.name); c.log() << (s ? ", " : "") << op.name; c.tag(op.name);
        auto begin = BlasBooster::clock::now();
        op.run(c);
        long long passed = ns(BlasBooster::clock::now() - begin);
        for (auto& [id, k] : op.counts) count[(size_t)id] += k;
        for (size_t i = 0; i < NB; ++i) {
            REQUIRE(TrackerRegister::count[i] == count[i], op.name << ": count of " << ids[i].first << " is " << TrackerRegister::count[i] << ", but should be " << count[i]);
            long long t = ns(TrackerRegister::time[i]), used = t - time[i];
            bool own = false; for (auto& [id, k] : op.counts) own = own || (size_t)id == i;
            REQUIRE(own ? used >= 0 || passed < 0 : used == 0, op.name << ": time of " << ids[i].first << " changed by " << used << " ns");
            REQUIRE(used <= passed || passed < 0, op.name << ": time of " << ids[i].first << " grew by " << used << " ns in " << passed << " ns");
            time[i] = t;
        }
    }
    std::ostringstream os;
    if (c.chance(1, 2)) os << std::left;
    TrackerRegister::print(os);
    table(c, os.str(), count, time);
}
LAW("table", 0.5)
{
    std::vector<size_t> count(NB, 0);
    std::vector<long long> time(NB, 0);
    TrackerRegister::count.fill(0);
    TrackerRegister::time.fill(BlasBooster::clock::duration::zero());
    size_t n = c.size(1, 20);
    c.nontrivial(n > 1);
    std::vector<long long> big = { 0, 1, 999, 123456789, 98765432100ll, 86400000000000ll };
    for (size_t s = 0; s < n; ++s) {
        auto& [name, id] = ids[c.below(ids.size())];
        long long t = c.pick(big);
        c.log() << (s ? ", " : "") << name << " " << t << " ns";
        TrackerRegister::add(id, std::chrono::nanoseconds(t));
        ++count[(size_t)id]; time[(size_t)id] += t;
    }
    if (c.chance(1, 4)) { auto id = c.below(ids.size()); if (count[id]) { count[id] = 1234567; TrackerRegister::count[id] = 1234567; } }
    std::ostringstream os;
    if (c.chance(1, 2)) os << std::left;
    TrackerRegister::print(os);
    table(c, os.str(), count, time);
}
LAW("many uses", 0.02)
{
    TrackerRegister::count.fill(0);
    TrackerRegister::time.fill(BlasBooster::clock::duration::zero());
    auto& [name, id] = ids[c.below(ids.size())];
    size_t n = c.size(30000, 140000), t = c.below(50);
    c.log() << n << " times " << name << " with " << t << " ns"; c.nontrivial(); c.bulk();
    for (size_t i = 0; i < n; ++i) TrackerRegister::add(id, std::chrono::nanoseconds(t));
    std::vector<size_t> count(NB, 0);
    std::vector<long long> time(NB, 0);
    count[(size_t)id] = n; time[(size_t)id] = (long long)(n * t);
    for (size_t i = 0; i < NB; ++i) REQUIRE(TrackerRegister::count[i] == count[i] && ns(TrackerRegister::time[i]) == time[i], ids[i].first << " has " << TrackerRegister::count[i] << " uses");
    std::ostringstream os;
    TrackerRegister::print(os);
    table(c, os.str(), count, time);
}
LAW("names", 0.05)
{
    auto& [name, id] = ids[c.below(ids.size())];
    c.log() << name; c.nontrivial();
    REQUIRE(ids.size() == NB, "there are " << NB << " trackers");
    EnumParser<TrackerID> p;
    REQUIRE(p(name) == id, name << " is parsed to " << p(p(name)));
    REQUIRE(p(id) == name, name << " is called " << p(id));
}
