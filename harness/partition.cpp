// BlockSizeGenerator: the partitions are valid and follow the jumps of magnitude.
#include "bbgen.h"
#include <tuple>
#include "BlasBooster/Core/BlockSizeGenerator.h"
using namespace bb;

namespace {

typedef Matrix<Dense,double,PR> DeDR;

void valid(std::vector<size_t> const& p, size_t n, size_t mn, size_t mx, bool whole_allowed, std::string const& what)
{
    std::ostringstream os;
    for (size_t x : p) os << " " << x;
    size_t sum = 0;
    for (size_t x : p) { REQUIRE(x >= 1, what << ": empty block in" << os.str()); sum += x; }
    REQUIRE(!p.empty() && sum == n, what << ": blocks" << os.str() << " do not add up to " << n);
    if (p.size() == 1 && (n <= mx || whole_allowed)) return;
    for (size_t x : p) REQUIRE(x >= mn && x <= mx, what << ": block size " << x << " out of " << mn << ".." << mx << " in" << os.str());
}

/// magnitudes in patches, so that there are jumps, ties and constant regions
Ref gen_patches(Ctx& c, size_t r, size_t n)
{
    Ref a(r, n);
    int e = static_cast<int>(c.range(0, 12)) - 6;
    double base = c.chance(1, 3) ? 0.0 : std::ldexp(1.0, e);
    for (auto& x : a.v) x = base;
    size_t patches = c.size(0, 4);
    for (size_t k = 0; k < patches; ++k) {
        size_t i0 = c.below(r), j0 = c.below(n), h = c.size(1, r - i0), w = c.size(1, n - j0);
        double v = std::ldexp(c.chance(1, 3) ? -1.5 : 1.25, static_cast<int>(c.range(0, 20)) - 10);
        for (size_t i = i0; i < i0 + h; ++i) for (size_t j = j0; j < j0 + w; ++j) a(i,j) = v;
    }
    if (c.chance(1, 4)) for (auto& x : a.v) if (c.chance(1, 4)) x = std::ldexp(1.0, static_cast<int>(c.range(0, 8)) - 4);
    return a;
}

double expo(double x) { int e; std::frexp(x, &e); return x == 0.0 ? 0.0 : e; }

void ref_detect(Ref const& a, std::vector<double>& rows, std::vector<double>& cols)
{
    rows.assign(a.r - 1, 0.0); cols.assign(a.c - 1, 0.0);
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) {
        if (i + 1 < a.r) rows[i] += std::abs(expo(a(i,j)) - expo(a(i+1,j)));
        if (j + 1 < a.c) cols[j] += std::abs(expo(a(i,j)) - expo(a(i,j+1)));
    }
}

void sizes(Ctx& c, size_t& mn, size_t& mx)
{
    mn = c.size(0, 5);
    mx = std::max<size_t>(1, 2 * mn) + c.size(0, 6);
}

bool has_border(std::vector<size_t> const& p, size_t at) { size_t s = 0; for (size_t x : p) { s += x; if (s == at) return true; } return false; }

/// the strongest jump, if it is unique and both sides are large enough, is a border
void follows(std::vector<double> const& d, std::vector<size_t> const& p, size_t mn, std::string const& what)
{
    if (d.empty()) return;
    size_t best = static_cast<size_t>(std::max_element(d.begin(), d.end()) - d.begin());
    if (std::count(d.begin(), d.end(), d[best]) != 1) return;
    size_t left = best + 1, right = d.size() - best;
    if (left < mn || right < mn) return;
    REQUIRE(has_border(p, best + 1), what << ": no border at the strongest jump, position " << best + 1);
}

template <class T, class P>
void matrix_law(Ctx& c, const char* name)
{
    size_t mn, mx;
    sizes(c, mn, mx);
    size_t r = c.size(1, c.big(24)), n = c.size(1, c.big(24));
    if (c.chance(1, 100)) { n = c.size(1, 3); r = c.pick({255, 256, 257, 300, 513}); if (c.chance(1, 2)) std::swap(r, n); }
    Ref v = gen_patches(c, r, n);
    c.log() << "BlockSizeGenerator(" << mn << "," << mx << ")(" << name << ") " << r << "x" << n << " " << show(v);
    c.nontrivial((r > mx || n > mx) && v.nnz() > 0);
    auto m = dense<T,P>(v);
    std::vector<double> rd, cd;
    ref_detect(v, rd, cd);
    c.step("get_detection_arrays");
    auto det = BlockSizeGenerator(mn, mx).get_detection_arrays(m);
    REQUIRE(std::get<0>(det).size() == r - 1 && std::get<1>(det).size() == n - 1, "detection arrays have " << std::get<0>(det).size() << " and " << std::get<1>(det).size() << " elements");
    for (size_t i = 0; i + 1 < r; ++i) REQUIRE(std::get<0>(det)[i] == rd[i], "jump between rows " << i << " and " << i + 1 << " is " << std::get<0>(det)[i] << " instead of " << rd[i]);
    for (size_t i = 0; i + 1 < n; ++i) REQUIRE(std::get<1>(det)[i] == cd[i], "jump between columns " << i << " and " << i + 1 << " is " << std::get<1>(det)[i] << " instead of " << cd[i]);
    c.step("operator ()");
    auto res = BlockSizeGenerator(mn, mx)(m);
    valid(std::get<0>(res), r, mn, mx, false, "rows");
    valid(std::get<1>(res), n, mn, mx, false, "columns");
    if (r > mx) follows(rd, std::get<0>(res), mn, "rows");
    if (n > mx) follows(cd, std::get<1>(res), mn, "columns");
    require_same(to_ref(m), v, "the matrix afterwards");
}

} // namespace

LAW("block sizes of a matrix, column-major", 0.4) { if (c.chance(1, 3)) matrix_law<float,PC>(c, "Dense<float>"); else matrix_law<double,PC>(c, "Dense<double>"); }
LAW("block sizes of a matrix, row-major", 0.15) { matrix_law<double,PR>(c, "Dense<double,row>"); }
LAW("block sizes of a product", 0.25)
{
    size_t mn, mx;
    sizes(c, mn, mx);
    size_t r = c.size(1, c.big(20)), k = c.size(1, c.big(20)), n = c.size(1, c.big(20));
    Ref a = gen_patches(c, r, k), b = gen_patches(c, k, n);
    c.log() << "BlockSizeGenerator(" << mn << "," << mx << ").matrix_matrix_mult " << r << "x" << k << " * " << k << "x" << n << " A=" << show(a) << " B=" << show(b);
    c.nontrivial((r > mx || k > mx || n > mx) && a.nnz() > 0 && b.nnz() > 0);
    c.step("matrix_matrix_mult");
    DeD ma = dense<double>(a), mb = dense<double>(b);
    auto res = BlockSizeGenerator(mn, mx).matrix_matrix_mult(ma, mb);
    valid(std::get<0>(res), r, mn, mx, false, "rows of A");
    valid(std::get<1>(res), k, mn, mx, false, "columns of A and rows of B");
    valid(std::get<2>(res), n, mn, mx, false, "columns of B");
    std::vector<double> ra, ca, rb, cb;
    ref_detect(a, ra, ca); ref_detect(b, rb, cb);
    for (size_t i = 0; i < ca.size(); ++i) ca[i] += rb[i];
    if (r > mx) follows(ra, std::get<0>(res), mn, "rows of A");
    if (k > mx) follows(ca, std::get<1>(res), mn, "columns of A and rows of B");
    if (n > mx) follows(cb, std::get<2>(res), mn, "columns of B");
}
LAW("block sizes from a detection array", 0.3)
{
    size_t mn, mx;
    sizes(c, mn, mx);
    std::vector<double> d(c.size(0, c.big(60)));
    int levels = static_cast<int>(c.range(1, 6));
    for (auto& x : d) x = static_cast<double>(c.below(levels));
    c.log() << "BlockSizeGenerator(" << mn << "," << mx << ").get_block_size {";
    for (double x : d) c.log() << " " << x;
    c.log() << " }";
    c.nontrivial(d.size() + 1 > mx);
    c.step("get_block_size");
    auto p = BlockSizeGenerator(mn, mx).get_block_size(d);
    valid(p, d.size() + 1, mn, mx, false, "blocks");
    if (d.size() + 1 > mx) follows(d, p, mn, "blocks");
}
PINNED("inconsistent limits are refused")
{
    for (size_t mn = 1; mn < 6; ++mn) for (size_t mx = 0; mx < 12; ++mx) {
        bool thrown = false;
        try { BlockSizeGenerator g(mn, mx); } catch (std::runtime_error const&) { thrown = true; }
        REQUIRE(thrown == (2 * mn > mx), "BlockSizeGenerator(" << mn << "," << mx << ") " << (thrown ? "throws" : "is accepted"));
    }
    c.nontrivial();
}
