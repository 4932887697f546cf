// Blocked matrices: generation, multiplication, unblocking, and the matrices describing the blocks.
#include "bbgen.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
using namespace bb;

namespace {

typedef std::vector<size_t> Sizes;

inline std::ostream& show(std::ostream& os, Sizes const& s)
{
    os << "{";
    for (size_t x : s) os << " " << x;
    return os << " }";
}

Sizes gen_sizes(Ctx& c, size_t blocks, size_t largest)
{
    Sizes s(blocks);
    for (auto& x : s) x = c.size(1, largest);
    return s;
}
size_t sum(Sizes const& s) { size_t n = 0; for (size_t x : s) n += x; return n; }

/// thresholds which keep all elements exactly: multiples of 1/4 are significant and are floats
Threshold gen_threshold(Ctx& c)
{
    ThresholdSettings s;
    s.set_significanceThresholdSinglePrecision(static_cast<double>(c.below(10)) + 0.375).set_significanceThresholdDoublePrecision(0.125);
    auto occ = [&] { return static_cast<double>(c.below(9)) / 8.0; };
    if (c.chance(2, 3)) {
        s.set_occupationThresholdMatrixSparseFloatSinglePrecision(occ()).set_occupationThresholdMatrixSparseFloatDoublePrecision(occ());
        s.set_occupationThresholdMatrixDenseFloatSinglePrecision(occ()).set_occupationThresholdMatrixDenseFloatDoublePrecision(occ());
        s.set_occupationThresholdMatrixSparseDoubleSinglePrecision(occ()).set_occupationThresholdMatrixSparseDoubleDoublePrecision(occ());
        s.set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(occ()).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(occ());
        s.set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(occ()).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(occ());
    }
    return Threshold(s);
}

/// a matrix with blocks of different character
Ref gen_blocky(Ctx& c, Sizes const& rows, Sizes const& cols)
{
    Ref a(sum(rows), sum(cols));
    size_t i0 = 0;
    for (size_t h : rows) {
        size_t j0 = 0;
        for (size_t w : cols) {
            int kind = static_cast<int>(c.below(5));
            // 0 zero, 1 few small, 2 all small, 3 few large, 4 anything
            for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) {
                double& x = a(i0+i,j0+j);
                if (kind == 1 && c.chance(1, 4)) x = gen_nonzero(c, 4);
                if (kind == 2) x = gen_nonzero(c, 4);
                if (kind == 3 && c.chance(1, 4)) x = gen_nonzero(c, 32);
                if (kind == 4) x = gen_value(c, 32);
            }
            j0 += w;
        }
        i0 += h;
    }
    return a;
}

Ref join(BlockedDenseMatrix const& m, Sizes const& rows, Sizes const& cols, std::string const& what)
{
    REQUIRE(m.getNbRows() == rows.size() && m.getNbColumns() == cols.size(), what << " has " << m.getNbRows() << "x" << m.getNbColumns() << " blocks instead of " << rows.size() << "x" << cols.size());
    REQUIRE(m.getUnblockedRows() == sum(rows) && m.getUnblockedColumns() == sum(cols), what << " is " << m.getUnblockedRows() << "x" << m.getUnblockedColumns() << " unblocked");
    Ref a(sum(rows), sum(cols));
    size_t i0 = 0;
    for (size_t bi = 0; bi < rows.size(); ++bi) {
        size_t j0 = 0;
        for (size_t bj = 0; bj < cols.size(); ++bj) {
            DynamicMatrix const& b = m(bi,bj);
            REQUIRE(b, what << ": block (" << bi << "," << bj << ") is missing");
            Ref v = to_ref(b);
            REQUIRE(v.r == rows[bi] && v.c == cols[bj], what << ": block (" << bi << "," << bj << ") is " << v.r << "x" << v.c << " instead of " << rows[bi] << "x" << cols[bj]);
            for (size_t i = 0; i < v.r; ++i) for (size_t j = 0; j < v.c; ++j) a(i0+i,j0+j) = v(i,j);
            j0 += cols[bj];
        }
        i0 += rows[bi];
    }
    return a;
}

size_t kinds(BlockedDenseMatrix const& m) { std::set<size_t> s; for (auto const& x : m) s.insert(x->getTypeIndex()); return s.size(); }

template <class I> struct IName;
template <> struct IName<Native> { static const char* s() { return "Native"; } };
template <> struct IName<TheBestPolicy> { static const char* s() { return "TheBestPolicy"; } };

template <class I>
void product(Ctx& c, BlockedDenseMatrix const& a, BlockedDenseMatrix const& b, Sizes const& sr, Sizes const& sk, Sizes const& sn, Ref const& ra, Ref const& rb)
{
    c.step(std::string("multiply by ") + IName<I>::s());
    c.tag(IName<I>::s());
    BlockedDenseMatrix p = (a * b).template execute<I>();
    Ref want = mul(ra, rb);
    require_same(join(p, sr, sn, "the product"), want, "blocks of the product");
    c.step("unblock the product");
    DeD d(p);
    REQUIRE(d.getSize() == want.v.size(), "size of the unblocked product is " << d.getSize());
    require_same(to_ref(d), want, "unblocked product");
    require_same(join(a, sr, sk, "A afterwards"), ra, "A afterwards");
    require_same(join(b, sk, sn, "B afterwards"), rb, "B afterwards");
}

void product(Ctx& c, BlockedDenseMatrix const& a, BlockedDenseMatrix const& b, Sizes const& sr, Sizes const& sk, Sizes const& sn, Ref const& ra, Ref const& rb)
{
    c.tag("kinds of blocks: " + std::to_string(kinds(a)));
    c.nontrivial(mul(ra, rb).nnz() > 0 && sr.size() * sk.size() * sn.size() > 1);
    if (c.chance(1, 2)) product<Native>(c, a, b, sr, sk, sn, ra, rb); else product<TheBestPolicy>(c, a, b, sr, sk, sn, ra, rb);
}

BlockedDenseMatrix blocks_of_any_type(Ctx& c, Ref const& a, Sizes const& rows, Sizes const& cols)
{
    BlockedDenseMatrix m(rows.size(), cols.size(), a.r, a.c);
    size_t i0 = 0;
    for (size_t bi = 0; bi < rows.size(); ++bi) {
        size_t j0 = 0;
        for (size_t bj = 0; bj < cols.size(); ++bj) {
            Ref v = sub(a, rows[bi], cols[bj], i0, j0);
            size_t k = v.nnz() == 0 ? c.below(7) : 1 + c.below(6);
            m(bi,bj) = make_dyn(c, k, v);
            j0 += cols[bj];
        }
        i0 += rows[bi];
    }
    return m;
}

} // namespace

#ifdef MULT
LAW("product of generated blocked matrices", 0.5)
{
    size_t largest = c.chance(1, 20) ? c.chance(1, 10) ? 80 : 20 : 4;
    Sizes sr = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), largest), sk = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), largest), sn = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), largest);
    Ref ra = gen_blocky(c, sr, sk), rb = gen_blocky(c, sk, sn);
    Threshold t = gen_threshold(c);
    c.log() << "blocks "; show(c.log(), sr) << " x "; show(c.log(), sk) << " x "; show(c.log(), sn) << " A=" << show(ra) << " B=" << show(rb);
    DeD da = dense<double>(ra), db = dense<double>(rb);
    c.step("BlockedMatrixGenerator");
    BlockedDenseMatrix a = BlockedMatrixGenerator()(da, sr, sk, t), b = BlockedMatrixGenerator()(db, sk, sn, t);
    require_same(join(a, sr, sk, "A"), ra, "A in blocks");
    product(c, a, b, sr, sk, sn, ra, rb);
}
LAW("product of blocked matrices with blocks of any type", 0.3)
{
    Sizes sr = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 4), sk = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 4), sn = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 4);
    Ref ra = gen_blocky(c, sr, sk), rb = gen_blocky(c, sk, sn);
    if (c.chance(1, 3)) { auto x = gen_powers(c, ra.r), y = gen_powers(c, ra.c), z = gen_powers(c, rb.c); scale(ra, x, y); scale(rb, y, z, true); c.tag("scaled"); }
    c.log() << "blocks "; show(c.log(), sr) << " x "; show(c.log(), sk) << " x "; show(c.log(), sn) << " A=" << show(ra) << " B=" << show(rb);
    BlockedDenseMatrix a = blocks_of_any_type(c, ra, sr, sk), b = blocks_of_any_type(c, rb, sk, sn);
    product(c, a, b, sr, sk, sn, ra, rb);
}
LAW("block sizes from the matrices, product, unblocking", 0.3)
{
    Sizes sr = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 6), sk = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 6), sn = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 6);
    Ref ra = gen_blocky(c, sr, sk), rb = gen_blocky(c, sk, sn);
    Threshold t = gen_threshold(c);
    size_t mn = c.size(1, 3), mx = 2 * mn + c.size(0, 3);
    c.log() << "limits " << mn << ".." << mx << " A=" << show(ra) << " B=" << show(rb);
    DeD da = dense<double>(ra), db = dense<double>(rb);
    c.step("matrix_matrix_mult");
    auto s = BlockSizeGenerator(mn, mx).matrix_matrix_mult(da, db);
    c.step("BlockedMatrixGenerator");
    BlockedDenseMatrix a, b;
    a = BlockedMatrixGenerator()(da, std::get<0>(s), std::get<1>(s), t);
    b = BlockedMatrixGenerator()(db, std::get<1>(s), std::get<2>(s), t);
    product(c, a, b, std::get<0>(s), std::get<1>(s), std::get<2>(s), ra, rb);
}
LAW("default thresholds: error of the product", 0.3)
{
    Sizes sr = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 5), sk = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 5), sn = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 5);
    auto graded = [&](Sizes const& rows, Sizes const& cols) {
        Ref a = gen_blocky(c, rows, cols);
        size_t i0 = 0;
        for (size_t h : rows) { size_t j0 = 0; for (size_t w : cols) {
            double s = c.pick({1.0, 1e-5, 3e-8, 1e-9, 1e-17});
            for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) a(i0+i,j0+j) *= s * (1.0 + static_cast<double>(c.below(1000)) / 1000.0);
            j0 += w; } i0 += h; }
        return a;
    };
    Ref ra = graded(sr, sk), rb = graded(sk, sn);
    c.log() << "blocks "; show(c.log(), sr) << " x "; show(c.log(), sk) << " x "; show(c.log(), sn) << " A=" << show(ra) << " B=" << show(rb);
    c.nontrivial(ra.nnz() > 0 && rb.nnz() > 0);
    c.step("BlockedMatrixGenerator");
    DeD da = dense<double>(ra), db = dense<double>(rb);
    BlockedDenseMatrix a = BlockedMatrixGenerator()(da, sr, sk, Threshold()), b = BlockedMatrixGenerator()(db, sk, sn, Threshold());
    auto mag = [](double x) { return x < 0 ? -x : x; };
    double ed = std::numeric_limits<double>::epsilon(), ef = std::numeric_limits<float>::epsilon();
    auto conversion_error = [&](double x) { return mag(x) <= ed ? mag(x) * 1.0001 : mag(x) <= ef ? mag(x) * 1e-7 : 0.0; };
    // the blocks are within the conversion error ...
    auto near = [&](Ref const& got, Ref const& x, const char* what) {
        for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j)
            REQUIRE(mag(got(i,j) - x(i,j)) <= conversion_error(x(i,j)), what << " (" << i << "," << j << ") is " << got(i,j) << " instead of " << x(i,j));
    };
    near(join(a, sr, sk, "A"), ra, "A");
    near(join(b, sk, sn, "B"), rb, "B");
    c.step("multiply");
    BlockedDenseMatrix p = (a * b).template execute<TheBestPolicy>();
    c.step("unblock");
    Ref got = to_ref(DeD(p));
    REQUIRE(got.r == ra.r && got.c == rb.c, "the product is " << got.r << "x" << got.c);
    // ... and the product within the rounding errors: in single precision where a factor is
    for (size_t i = 0; i < got.r; ++i) for (size_t j = 0; j < got.c; ++j) {
        double want = 0.0, err = 1e-45;
        for (size_t k = 0; k < ra.c; ++k) {
            double x = ra(i,k), y = rb(k,j), ex = conversion_error(x), ey = conversion_error(y);
            want += x * y;
            err += ex * mag(y) + mag(x) * ey + ex * ey + 1e-14 * mag(x * y);
            if (mag(x) <= ef || mag(y) <= ef) err += 1e-7 * 20 * mag(x * y);
        }
        REQUIRE(mag(got(i,j) - want) <= err, "product (" << i << "," << j << ") is " << got(i,j) << " instead of " << want << ", error bound " << err);
    }
}
#else
LAW("generator and unblocking are inverse", 0.5)
{
    Sizes sr = gen_sizes(c, c.size(1, c.big(4)), c.chance(1, 20) ? c.chance(1, 10) ? 80 : 20 : 4), sc = gen_sizes(c, c.size(1, c.big(4)), 4);
    Ref a = gen_blocky(c, sr, sc);
    Threshold t = gen_threshold(c);
    c.log() << "blocks "; show(c.log(), sr) << " x "; show(c.log(), sc) << " A=" << show(a);
    c.nontrivial(a.nnz() > 0 && sr.size() * sc.size() > 1);
    DeD d = dense<double>(a);
    c.step("BlockedMatrixGenerator");
    BlockedDenseMatrix m = BlockedMatrixGenerator()(d, sr, sc, t);
    c.tag("kinds of blocks: " + std::to_string(kinds(m)));
    require_same(join(m, sr, sc, "blocked"), a, "the blocks");
    require_same(to_ref(d), a, "the source afterwards");
    c.step("each block is converted like the sub-matrix");
    size_t i0 = 0;
    for (size_t bi = 0; bi < sr.size(); ++bi) {
        size_t j0 = 0;
        for (size_t bj = 0; bj < sc.size(); ++bj) {
            DeD part = dense<double>(sub(a, sr[bi], sc[bj], i0, j0));
            size_t want = MatrixConverter()(part, t)->getTypeIndex();
            REQUIRE(m(bi,bj)->getTypeIndex() == want, "block (" << bi << "," << bj << ") is " << kind_name(m(bi,bj)->getTypeIndex()) << " instead of " << kind_name(want));
            j0 += sc[bj];
        }
        i0 += sr[bi];
    }
    c.step("unblock");
    if (c.chance(1, 3)) {
        DeF u(m);
        require_same(to_ref(u), a, "unblocked (float)");
    } else {
        DeD u(m);
        REQUIRE(u.getSize() == a.v.size(), "size of the unblocked matrix is " << u.getSize());
        require_same(to_ref(u), a, "unblocked");
    }
    // the blocks are independent of the source
    for (auto& x : d) x = 77.0;
    require_same(join(m, sr, sc, "blocked"), a, "the blocks after a change of the source");
}
LAW("type, dimension and norm matrices describe the blocks", 0.4)
{
    Sizes sr = gen_sizes(c, c.size(1, c.big(4)), 4), sc = gen_sizes(c, c.size(1, c.big(4)), 4);
    Ref a = gen_blocky(c, sr, sc);
    c.log() << "blocks "; show(c.log(), sr) << " x "; show(c.log(), sc) << " A=" << show(a);
    c.nontrivial(a.nnz() > 0 && sr.size() * sc.size() > 1);
    BlockedDenseMatrix m = blocks_of_any_type(c, a, sr, sc);
    // leave something on the stack, so that uninitialised counters show
    volatile char dirt[256];
    for (size_t i = 0; i < sizeof dirt; ++i) dirt[i] = static_cast<char>(i + 1);
    c.step("get_type_counting");
    auto counts = get_type_counting(m);
    c.step("generateTypeMatrix");
    TypeMatrix types = generateTypeMatrix(m);
    c.step("generateDimensionMatrix");
    DimensionMatrix dims = generateDimensionMatrix(m);
    c.step("generateNormMatrix");
    NormMatrix norms = generateNormMatrix(m);
    REQUIRE(types.getNbRows() == sr.size() && types.getNbColumns() == sc.size(), "type matrix is " << types.getNbRows() << "x" << types.getNbColumns());
    REQUIRE(dims.getNbRows() == sr.size() && dims.getNbColumns() == sc.size(), "dimension matrix is " << dims.getNbRows() << "x" << dims.getNbColumns());
    REQUIRE(norms.getNbRows() == sr.size() && norms.getNbColumns() == sc.size(), "norm matrix is " << norms.getNbRows() << "x" << norms.getNbColumns());
    std::vector<size_t> want(7, 0);
    size_t i0 = 0;
    for (size_t bi = 0; bi < sr.size(); ++bi) {
        size_t j0 = 0;
        for (size_t bj = 0; bj < sc.size(); ++bj) {
            size_t k = m(bi,bj)->getTypeIndex();
            ++want[k];
            REQUIRE(static_cast<size_t>(types(bi,bj)) == k, "type matrix (" << bi << "," << bj << ") is " << types(bi,bj) << " instead of " << k);
            REQUIRE(dims(bi,bj).first == sr[bi] && dims(bi,bj).second == sc[bj], "dimension matrix (" << bi << "," << bj << ") is " << dims(bi,bj) << " instead of " << sr[bi] << "x" << sc[bj]);
            Ref v = sub(a, sr[bi], sc[bj], i0, j0);
            double s = 0.0;
            for (double x : v.v) s += x * x;
            s = std::sqrt(s);
            double d = norms(bi,bj) - s;
            REQUIRE((d < 0 ? -d : d) <= 1e-10 * (s + 1e-30), "norm of block (" << bi << "," << bj << "), " << kind_name(k) << ", is " << norms(bi,bj) << " instead of " << s);
            j0 += sc[bj];
        }
        i0 += sr[bi];
    }
    REQUIRE(counts.size() == 7, "counts of " << counts.size() << " types");
    for (size_t k = 0; k < 7; ++k) REQUIRE(counts[k] == want[k], kind_name(k) << " is counted " << counts[k] << " times instead of " << want[k]);
}
LAW("blocked matrices from lists and by assignment", 0.2)
{
    Sizes sr = gen_sizes(c, 2, 4), sc = gen_sizes(c, 3, 4);
    Ref a = gen_blocky(c, sr, sc);
    c.log() << "list {{.,.,.},{.,.,.}} of blocks "; show(c.log(), sr) << " x "; show(c.log(), sc) << " A=" << show(a);
    c.nontrivial(a.nnz() > 0);
    BlockedDenseMatrix m = blocks_of_any_type(c, a, sr, sc);
    c.step("initializer list");
    BlockedDenseMatrix l{{m(0,0), m(0,1), m(0,2)}, {m(1,0), m(1,1), m(1,2)}};
    require_same(join(l, sr, sc, "list"), a, "the blocks of the list");
    require_same(to_ref(DeD(l)), a, "the unblocked list");
    c.step("copy");
    BlockedDenseMatrix k(l);
    require_same(join(k, sr, sc, "copy"), a, "the copy");
    c.step("assignment");
    BlockedDenseMatrix e;
    e = l;
    require_same(join(e, sr, sc, "assigned"), a, "the assigned matrix");
    c.step("move");
    BlockedDenseMatrix v(std::move(k));
    require_same(join(v, sr, sc, "moved"), a, "the moved matrix");
    e = std::move(v);
    require_same(join(e, sr, sc, "moved"), a, "the move assigned matrix");
    require_same(to_ref(DeD(e)), a, "the move assigned matrix, unblocked");
    c.step("exchange");
    {
        Sizes rows = gen_sizes(c, c.size(1, 3), 4), cols = gen_sizes(c, c.size(1, 3), 4);
        Ref x = gen_blocky(c, rows, cols), y = a;
        Sizes rows2 = sr, cols2 = sc;
        BlockedDenseMatrix p = blocks_of_any_type(c, x, rows, cols), q(l);
        size_t n = c.size(1, 4);
        for (size_t i = 0; i < n; ++i) {
            switch (c.below(3)) {
                case 0: { using std::swap; swap(p, q); break; }
                case 1: { BlockedDenseMatrix h(std::move(p)); p = std::move(q); q = std::move(h); break; }
                default: { BlockedDenseMatrix h(p); p = q; q = h; break; }
            }
            std::swap(x, y); std::swap(rows, rows2); std::swap(cols, cols2);
            require_same(join(p, rows, cols, "exchanged"), x, "the exchanged matrix");
            require_same(join(q, rows2, cols2, "exchanged"), y, "the other exchanged matrix");
            require_same(to_ref(DeD(p)), x, "the exchanged matrix, unblocked");
            require_same(to_ref(DeD(q)), y, "the other exchanged matrix, unblocked");
        }
    }
    c.step("resize");
    Sizes r2 = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 3), c2 = gen_sizes(c, c.size(1, std::min<size_t>(c.big(3), 8)), 3);
    Ref b = gen_blocky(c, r2, c2);
    e.resize(r2.size(), c2.size(), b.r, b.c);
    REQUIRE(e.getSize() == r2.size() * c2.size(), "resized to " << r2.size() << "x" << c2.size() << " blocks, getSize() is " << e.getSize());
    BlockedDenseMatrix src = blocks_of_any_type(c, b, r2, c2);
    for (size_t i = 0; i < r2.size(); ++i) for (size_t j = 0; j < c2.size(); ++j) e(i,j) = src(i,j);
    require_same(join(e, r2, c2, "resized"), b, "the resized matrix");
    require_same(to_ref(DeD(e)), b, "the resized matrix, unblocked");
    require_same(join(l, sr, sc, "list"), a, "the list afterwards");
}
#endif
