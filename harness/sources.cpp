// Where matrices come from: fillers, MatrixGenerator, MatrixProvider, the program generate_matrix.
#include "bbgen.h"
#include "BlasBooster/Core/Matrix.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/Cursor.h"
#include "BlasBooster/MatrixFactory/MatrixGenerator.h"
#include "BlasBooster/../../src/Benchmark/MatrixProvider.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "program.h"
#include <set>
using namespace bb;

extern "C" int generate_matrix_main(int argc, char* argv[]);       // program_generate_matrix.cpp

namespace {

// ---- fillers -----------------------------------------------------------------------------

enum { ALL, NUMBERS, HILBERT, DIAGONAL };

template <class T, class M> struct IsRow { static const bool value = std::is_same<typename M::parameter::orientation, RowMajor>::value; };

template <class T> Ref filled(size_t f, double value, size_t r, size_t n, bool row)
{
    Ref w(r, n);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j)
        w(i,j) = f == ALL ? value : f == NUMBERS ? (double)(row ? i * n + j + 1 : j * r + i + 1) : f == HILBERT ? 1.0 / (double)(i + j + 1) : i == j ? value : 0.0;
    return w;
}

/// fill by constructor, resize, or functor on an existing matrix
template <class T, class P> void dense_filler(Ctx& c)
{
    typedef Matrix<Dense,T,P> M;
    bool row = std::is_same<typename P::orientation, RowMajor>::value;
    size_t f = c.below(4), how = c.below(3), r = c.size(0, c.big(12)), n = c.chance(1, 4) || f == DIAGONAL ? r : c.size(0, c.big(12));
    if (f != DIAGONAL && c.chance(1, 250)) { Shape s = shape_of_lines(c); r = s.r; n = s.n; }
    bool refused = f == DIAGONAL && r && c.chance(1, 4);
    if (refused) n = r + 1 + c.below(3);
    double value = gen_exact_value<T>(c);
    static const char* names[] = {"AllFiller", "ContinuousNumberFiller", "HilbertFiller", "DiagonalFiller"}, *ways[] = {"constructor", "resize", "functor"};
    c.log() << names[f] << " (" << value << ") of " << r << "x" << n << (row ? " row-major " : " column-major ") << (sizeof(T) == 4 ? "float" : "double") << " by " << ways[how];
    c.nontrivial(r > 1 && n > 1);
    M m;
    if (how == 1) m.resize(c.size(0, 5), c.size(0, 5));
    if (how == 2) { m.resize(r, n); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) m(i,j) = static_cast<T>(77.0); }
    auto go = [&](auto const& filler) { if (how == 0) m = M(r, n, filler); else if (how == 1) m.resize(r, n, filler); else filler(m); };
    c.step("filling");
    try {
        switch (f) { case ALL: go(AllFiller<T>(static_cast<T>(value))); break; case NUMBERS: go(ContinuousNumberFiller()); break; case HILBERT: go(HilbertFiller()); break; default: go(DiagonalFiller<double>(value)); }
    } catch (CoreException const&) {
        REQUIRE(refused, "the filler refused the matrix");
        return;
    }
    REQUIRE(!refused, "a diagonal of a " << r << "x" << n << " matrix was accepted");
    Ref want = filled<T>(f, value, r, n, row), got = to_ref(m);
    if (f == HILBERT) {         // up to the last digits of the precision
        REQUIRE(got.r == want.r && got.c == want.c, "filled matrix is " << got.r << "x" << got.c);
        for (size_t k = 0; k < want.v.size(); ++k) {
            double d = got.v[k] - want.v[k];
            REQUIRE((d < 0 ? -d : d) <= (sizeof(T) == 4 ? 1e-6 : 1e-14) * want.v[k], "element number " << k << " of the Hilbert matrix is " << std::setprecision(17) << got.v[k] << " instead of " << want.v[k]);
        }
    } else require_same(got, want, "filled matrix");
}

/// every element of a full sparse matrix
template <class T, class P> void sparse_filler(Ctx& c)
{
    bool row = std::is_same<typename P::orientation, RowMajor>::value, say = c.chance(1, 2);
    size_t r = c.size(1, c.big(12)), n = c.chance(1, 4) ? r : c.size(1, c.big(12));
    if (c.chance(1, 250)) { Shape s = shape_of_lines(c); r = s.r; n = s.n; }
    c.log() << "ContinuousNumberFiller of " << r << "x" << n << " sparse " << (row ? "row-major " : "column-major ") << (sizeof(T) == 4 ? "float" : "double");
    c.nontrivial(r > 1 && n > 1);
    c.step("filling");
    Matrix<Sparse,T,P> m(r, n, say ? r * n : 0, ContinuousNumberFiller());
    require_same(to_ref(m), filled<T>(NUMBERS, 0.0, r, n, row), "filled matrix");
}

/// a part of a larger matrix: the rest keeps its values
template <class T, class O> void view_filler(Ctx& c)
{
    typedef Parameter<size_t, O> P;
    typedef Parameter<size_t, O, VariableSize, LeadingDimension> PV;
    bool row = std::is_same<O, RowMajor>::value;
    size_t R = c.size(1, c.big(12)), N = c.size(1, c.big(12)), f = c.below(4), r = c.size(1, R), n = f == DIAGONAL ? r : c.size(1, N);
    if (n > N) r = n = N;
    size_t i0 = c.below(R - r + 1), j0 = c.below(N - n + 1);
    Ref v = gen_ref(c, R, N), w(v);
    double value = gen_exact_value<T>(c);
    c.log() << "filler " << f << " (" << value << ") of " << r << "x" << n << " at (" << i0 << "," << j0 << ") of " << (row ? "row-major " : "column-major ") << show(v);
    c.nontrivial(r * n > 1 && r * n < R * N);
    Matrix<Dense,T,P> m(dense<T,P>(v));
    Matrix<Dense,T,PV> view(m, r, n, i0, j0);
    Ref inner = filled<T>(f, value, r, n, row);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) w(i0+i,j0+j) = inner(i,j);
    c.step("filling");
    switch (f) { case ALL: AllFiller<T>(static_cast<T>(value))(view); break; case NUMBERS: ContinuousNumberFiller()(view); break; case HILBERT: HilbertFiller()(view); break; default: { DiagonalFiller<double> d(value); d(view); } }
    require_same(to_ref(m), w, "matrix", f == HILBERT ? (sizeof(T) == 4 ? 1e-6 : 1e-14) : 0.0);
}
typedef void (*Fn)(Ctx&);

LAW("fillers of dense matrices", 1)
{
    static std::vector<Fn> t = {dense_filler<double,PC>, dense_filler<float,PC>, dense_filler<double,PR>, dense_filler<float,PR>};
    c.pick(t)(c);
}
LAW("fillers of sparse matrices", 0.5)
{
    static std::vector<Fn> t = {sparse_filler<double,PC>, sparse_filler<float,PC>, sparse_filler<double,PR>, sparse_filler<float,PR>};
    c.pick(t)(c);
}
LAW("fillers of views", 0.5)
{
    static std::vector<Fn> t = {view_filler<double,ColumnMajor>, view_filler<float,ColumnMajor>, view_filler<double,RowMajor>, view_filler<float,RowMajor>};
    c.pick(t)(c);
}

// ---- MatrixGenerator ---------------------------------------------------------------------

LAW("generated matrices", 0.5)
{
    size_t r = c.size(0, c.big(20)), n = c.size(0, c.big(20));
    if (c.chance(1, 50)) { r = c.size(70, 110); n = c.size(70, 110); c.bulk(); }
    // the random numbers of the standard library repeat for seeds from 2147483647 on
    unsigned seed = (unsigned)(c.chance(1, 2) ? c.size(0, 70000) : c.below(2147483646));
    double lo = c.below(13), hi = lo + c.below(9), occ = c.chance(1, 3) ? 1.0 : c.chance(1, 8) ? 0.0 : c.chance(1, 4) ? 1.0 - (double)c.size(1, 60) / 1000.0 : (double)c.below(101) / 100.0;
    MatrixGenerator::Settings s;
    s.seed = seed; s.occupation = occ; s.minValue = lo; s.maxValue = hi;
    c.log() << "MatrixGenerator " << r << "x" << n << " seed " << seed << " occupation " << occ << " exponents " << lo << ".." << hi;
    c.nontrivial(r * n > 1 && occ > 0.0);
    std::shared_ptr<MatrixFactory> g = std::make_shared<MatrixGenerator>(r, n, s);
    REQUIRE(g->getNbRows() == r && g->getNbColumns() == n, "the factory says " << g->getNbRows() << "x" << g->getNbColumns());
    c.step("generation");
    Matrix<Dense,double> m = (*g)(), again = (*g)(), other = MatrixGenerator(r, n, s)();
    REQUIRE(m.getNbRows() == r && m.getNbColumns() == n, "the matrix is " << m.getNbRows() << "x" << m.getNbColumns());
    require_same(to_ref(again), to_ref(m), "second call");
    require_same(to_ref(other), to_ref(m), "second generator");
    double least = std::pow(10.0, -hi) * (1 - 1e-12), most = std::pow(10.0, -lo) * (1 + 1e-12);
    size_t nz = 0, neg = 0, size = r * n;
    std::set<double> seen;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < r; ++i) {
        double x = std::abs(m(i,j));
        if (m(i,j) == 0.0 && occ < 1.0) continue;
        ++nz; neg += m(i,j) < 0.0; seen.insert(m(i,j));
        REQUIRE(x >= least && x <= most, "element (" << i << "," << j << ") is " << m(i,j));
    }
    // seven standard deviations, and more for few elements; nothing by chance when all or none have to be occupied
    double d = occ == 0.0 || occ == 1.0 ? 1e-9 : 7.0 * std::sqrt(size * occ * (1.0 - occ)) + 12.0;
    if (std::pow(occ, (double)size) < 1e-12) REQUIRE(nz < size, "all of " << size << " elements are occupied for an occupation of " << occ);
    if (std::pow(1.0 - occ, (double)size) < 1e-12) REQUIRE(nz > 0, "none of " << size << " elements is occupied for an occupation of " << occ);
    REQUIRE(std::abs((double)nz - occ * size) <= d, nz << " of " << size << " elements for an occupation of " << occ);
    REQUIRE(std::abs((double)neg - 0.5 * nz) <= 5.0 * std::sqrt((double)nz) + 1e-9, neg << " of " << nz << " elements are negative");
    if (hi > lo) REQUIRE(seen.size() == nz, "only " << seen.size() << " of " << nz << " elements are different");
    // another seed
    unsigned seed2 = c.chance(1, 2) ? seed + 1 + (unsigned)c.size(0, 3) : c.chance(1, 2) ? seed ^ (1u << c.below(31)) : (unsigned)c.below(2147483646);
    bool distinct = std::max(seed, 1u) != std::max(seed2, 1u) && seed2 < 2147483647u;     // the standard library takes 0 for 1
    if (size < 30 || occ < 0.5 || hi == lo || !distinct) return;
    c.log() << ", then seed " << seed2; c.tag("two seeds"); c.step("generation with another seed");
    s.seed = seed2;
    Matrix<Dense,double> m2 = MatrixGenerator(r, n, s)();
    bool same = true;
    for (size_t j = 0; same && j < n; ++j) for (size_t i = 0; same && i < r; ++i) same = m(i,j) == m2(i,j);
    REQUIRE(!same, "seeds " << seed << " and " << seed2 << " give the same matrix");
}

// ---- MatrixProvider ----------------------------------------------------------------------

Ref band(size_t r, size_t n, size_t width, double value)
{
    Ref w(r, n);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) if ((i > j ? i - j : j - i) < width) w(i,j) = value;
    return w;
}

LAW("provided matrices", 0.5)
{
    std::vector<std::string> names;
    std::map<std::string, std::vector<Ref>> want;
    std::vector<std::unique_ptr<MatrixFile>> files;
    ptree tree;
    bool refused = false;
    size_t sets = c.size(1, 4);
    for (size_t s = 0; s < sets; ++s) {
        std::string name(1, (char)('A' + s));
        ptree set;
        size_t kinds = c.size(1, 2);
        if (!names.empty() && c.chance(1, 3)) {
            bool unknown = c.chance(1, 8);
            std::string source = unknown ? "Z" : c.pick(names);
            size_t before = c.chance(1, 3) ? c.size(1, 2) : 0, after = c.chance(1, 3) ? c.size(1, 2) : 0;
            auto bands = [&](size_t n) {
                for (; n; --n) {
                    size_t d = c.size(1, c.big(5)), w = c.size(0, c.big(6)); double value = gen_nonzero(c);
                    ptree e;
                    e.put_child("dimension", array(std::vector<size_t>{d})); e.put_child("band_width", array(std::vector<size_t>{w})); e.put("value", value);
                    set.push_back(std::make_pair("DiagonalBand", e));
                    c.log() << name << " with a band of " << w << " in dimension " << d << " with " << value << "; ";
                    want[name].push_back(band(d, d, w, value));
                }
            };
            bands(before);          // replaced by the other set
            ptree e; e.put_value(source); set.push_back(std::make_pair("EqualTo", e));
            c.log() << name << " equal to " << source << "; ";
            refused |= unknown;
            if (!unknown) want[name] = want[source];
            bands(after);
        } else for (size_t k = 0; k < kinds; ++k) {
            size_t kind = c.below(8);
            ptree e;
            if (kind == 0) {
                e.put_value("x");
                set.push_back(std::make_pair("Unknown", e));
                c.log() << name << " of unknown type; ";
                refused = true;
            } else if (kind < 3) {
                std::string base = c.scratch + "/" + name + std::to_string(k);
                Ref v = gen_ref(c, c.size(1, 6), c.size(1, 6));
                files.emplace_back(new MatrixFile(base, v));
                e.put_value(base + ".xml");
                set.push_back(std::make_pair("File", e));
                c.log() << name << " from a file with " << show(v) << "; ";
                want[name].push_back(v);
            } else {
                std::vector<size_t> dims(c.size(1, 3)), widths(c.size(1, 3));
                for (size_t& d : dims) d = c.size(1, c.big(8));
                for (size_t& w : widths) w = c.size(0, c.big(10));
                double value = gen_nonzero(c);
                e.put_child("dimension", array(dims)); e.put_child("band_width", array(widths)); e.put("value", value);
                set.push_back(std::make_pair("DiagonalBand", e));
                c.log() << name << " with bands of";
                for (size_t w : widths) c.log() << " " << w;
                c.log() << " in dimensions";
                for (size_t d : dims) c.log() << " " << d;
                c.log() << " with " << value << "; ";
                for (size_t d : dims) for (size_t w : widths) want[name].push_back(band(d, d, w, value));
            }
        }
        tree.push_back(std::make_pair(name, set));
        names.push_back(name);
    }
    c.nontrivial(sets > 1);
    c.step("provider");
    std::unique_ptr<MatrixProvider> p;
    try { p.reset(new MatrixProvider(tree)); }
    catch (std::exception const&) { REQUIRE(refused, "the settings were refused"); return; }
    REQUIRE(!refused, "the settings were accepted");
    for (auto& n : names) {
        auto list = p->get(n);
        REQUIRE(list.size() == want[n].size(), "set " << n << " has " << list.size() << " matrices instead of " << want[n].size());
        for (size_t k = 0; k < list.size(); ++k) require_same(to_ref(list[k]), want[n][k], "matrix " + std::to_string(k) + " of set " + n);
    }
    try { p->get("Q"); } catch (std::exception const&) { return; }
    REQUIRE(false, "an unknown set was returned");
}

// ---- generate_matrix ---------------------------------------------------------------------

LAW("band matrices of the program generate_matrix", 0.2)
{
    size_t most = c.chance(1, 25) ? 300 : 30;
    size_t r = c.size(1, most), n = c.chance(1, 3) ? r : c.size(1, most), w = c.size(0, most + most / 6), sh = c.below(2), bad = c.below(12), omit = c.below(32);
    double value = c.chance(1, 2) ? gen_nonzero(c) : (double)c.sym(1000000000) / 1000.0;
    File f(c.scratch + "/g.dat"), standard(c.scratch + "/matrix.dat");
    value = std::strtod(std::to_string(value).c_str(), nullptr);
    std::vector<std::string> args = {"generate_matrix"};
    // each option has a documented default
    auto option = [&](const char* s, const char* l, std::string const& x) { args.push_back(sh ? s : l); args.push_back(x); };
    if (omit < 2) c.tag("standard number of rows or columns");
    if (omit == 0) { r = 1000; n = c.size(1, 20); } else if (omit == 1) { n = 1000; r = c.size(1, 20); }
    if (omit != 2 && omit != 3) option("-m", "--matrix-file", f.name); else f.name.swap(standard.name);
    if (omit != 0) option("-r", "--rows", std::to_string(r));
    if (omit != 1) option("-c", "--cols", std::to_string(n));
    if (omit != 3 && omit != 4) option("-b", "--band-width", std::to_string(w)); else w = 1;
    if (omit != 4 && omit != 5) option("-v", "--value", std::to_string(value)); else value = 1.0;
    if (c.chance(1, 2)) { args.push_back("-t"); args.push_back("band"); }
    if (bad == 0) args.push_back("--nonsense");
    if (bad == 1) args.push_back("-h");
    for (auto& a : args) c.log() << a << " ";
    c.nontrivial(bad > 1 && r > 1 && n > 1);
    c.step("program");
    int rc;
    { Directory dir(c.scratch); rc = run(generate_matrix_main, args); }
    REQUIRE(!exists(standard.name), "a matrix was written to the wrong file");
    REQUIRE(rc == (bad == 0), "exit code is " << rc);
    std::ifstream is(f.name);
    if (bad < 2) { REQUIRE(!is, "a matrix was written"); return; }
    auto v = read_doubles(f.name);
    REQUIRE(v.size() == r * n, v.size() << " elements were written instead of " << r * n);
    Ref got(r, n);
    got.v = v;
    require_same(got, band(r, n, w, value), "matrix");
}

PINNED("block matrix of the program generate_matrix")
{
    File f(c.scratch + "/g.dat");
    c.log() << "generate_matrix -t block"; c.nontrivial();
    c.step("program");
    int rc = run(generate_matrix_main, {"generate_matrix", "-t", "block", "-m", f.name});
    REQUIRE(rc == 0, "exit code is " << rc);
    auto v = read_doubles(f.name);
    REQUIRE(v.size() == 16000000, v.size() << " elements were written");
    for (size_t j = 0; j < 4000; ++j) for (size_t i = 0; i < 4000; ++i) {
        size_t bi = i / 1000, bj = j / 1000;
        double want = bi != bj ? 0.0 : bi == 1 ? 1e-8 : i == j ? 0.1 : 0.0;
        REQUIRE(v[i + j * 4000] == want, "element (" << i << "," << j << ") is " << v[i + j * 4000] << " instead of " << want);
    }
}

} // namespace
