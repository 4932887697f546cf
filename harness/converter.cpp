// MatrixConverter: choice of the matrix type by the thresholds, and error of the converted matrix.
#include "bbgen.h"
#include "BlasBooster/Core/MatrixConverter.h"
using namespace bb;

namespace {

typedef Matrix<Dense,double,PR> DeDR;

struct Occ { double f[7], d[7]; };      // by type index

struct Case
{
    double sig_d, sig_f;
    Occ occ;
    bool defaults;
    Threshold threshold;
};

double gen_occ(Ctx& c) { return static_cast<double>(c.below(9)) / 8.0; }

Case gen_case(Ctx& c)
{
    Case k;
    k.defaults = c.chance(1, 3);
    int e = static_cast<int>(c.below(4));
    k.sig_d = e == 0 ? 1e-10 : e == 1 ? std::numeric_limits<double>::epsilon() : std::ldexp(1.0, -20);
    k.sig_f = e == 0 ? 1e-5 : e == 1 ? static_cast<double>(std::numeric_limits<float>::epsilon()) : std::ldexp(1.0, -6);
    if (e == 3) { k.sig_d = gen_wide(c, 30); k.sig_f = k.sig_d * (1.0 + static_cast<double>(c.below(4096)) / 16.0); }       // the same one, too
    // Zero, SpF, DeF, SpD, MuS, MuD, DeD
    Occ def = {{0.0, 0.0, 0.0, 0.2, 0.2, 0.2, 1.0}, {0.0, 0.2, 1.0, 0.2, 0.4, 1.0, 1.0}};
    k.occ = def;
    if (!k.defaults) for (int i = 0; i < 7; ++i) {
        if (c.chance(2, 3)) k.occ.d[i] = gen_occ(c);
        if (c.chance(2, 3)) k.occ.f[i] = gen_occ(c);
        if (i == 0 && c.chance(2, 3)) k.occ.d[0] = k.occ.f[0] = 0.0;
        if (i == 6) k.occ.d[6] = k.occ.f[6] = 1.0;      // the type of last resort has to be admissible
    }
    ThresholdSettings s;
    s.set_significanceThresholdSinglePrecision(k.sig_f).set_significanceThresholdDoublePrecision(k.sig_d);
    if (!k.defaults) {
        s.set_occupationThresholdMatrixZeroSinglePrecision(k.occ.f[0]).set_occupationThresholdMatrixZeroDoublePrecision(k.occ.d[0]);
        s.set_occupationThresholdMatrixSparseFloatSinglePrecision(k.occ.f[1]).set_occupationThresholdMatrixSparseFloatDoublePrecision(k.occ.d[1]);
        s.set_occupationThresholdMatrixDenseFloatSinglePrecision(k.occ.f[2]).set_occupationThresholdMatrixDenseFloatDoublePrecision(k.occ.d[2]);
        s.set_occupationThresholdMatrixSparseDoubleSinglePrecision(k.occ.f[3]).set_occupationThresholdMatrixSparseDoubleDoublePrecision(k.occ.d[3]);
        s.set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(k.occ.f[4]).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(k.occ.d[4]);
        s.set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(k.occ.f[5]).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(k.occ.d[5]);
        s.set_occupationThresholdMatrixDenseDoubleSinglePrecision(k.occ.f[6]).set_occupationThresholdMatrixDenseDoubleDoublePrecision(k.occ.d[6]);
    }
    k.threshold = Threshold(s);
    return k;
}

/// elements of four classes: zero, below sig_d, between, above sig_f, with values on the bounds
Ref gen_graded(Ctx& c, Case const& k, size_t r, size_t n)
{
    Ref a(r, n);
    int prof = static_cast<int>(c.below(5));
    for (auto& x : a.v) {
        int cl;
        switch (prof) {
            case 0: cl = static_cast<int>(c.below(4)); break;                                   // even
            case 1: cl = c.chance(1, 8) ? 1 + static_cast<int>(c.below(3)) : 0; break;          // mostly zero
            case 2: cl = c.chance(1, 8) ? static_cast<int>(c.below(4)) : 2; break;              // mostly small
            case 3: cl = c.chance(1, 5) ? 3 : c.chance(1, 5) ? 2 : 1; break;
            default: cl = c.chance(1, 4) ? 2 : 0; break;
        }
        double s = c.chance(1, 2) ? -1.0 : 1.0, u = (1.0 + static_cast<double>(c.below(1u << 20))) / (1u << 20) * 0.999;   // (0,1)
        if (cl && c.chance(1, 12)) {            // what is hard to tell from the bounds
            double bound = c.chance(1, 2) ? k.sig_d : k.sig_f, f = static_cast<double>(static_cast<float>(bound));
            x = s * neighbor(c.chance(1, 2) ? bound : f, static_cast<int>(c.sym(2)));
            continue;
        }
        if (cl == 1) x = c.chance(1, 6) ? s * k.sig_d : s * u * k.sig_d;
        if (cl == 2) x = c.chance(1, 6) ? s * k.sig_f : s * (k.sig_d + u * (k.sig_f - k.sig_d) * 0.99 + k.sig_d * 1e-3);
        if (cl == 3) x = s * (k.sig_f * 1.001 + u * (c.chance(1, 2) ? 100.0 : k.sig_f));
    }
    return a;
}
Ref gen_graded(Ctx& c, Case const& k, Shape s) { return gen_graded(c, k, s.r, s.n); }

template <class M>
void convert(Ctx& c, M const& m, Ref const& v, Case const& k)
{
    auto mag = [](double x) { return x < 0 ? -x : x; };
    size_t over_d = 0, over_f = 0, mid = 0;
    for (double x : v.v) { over_d += mag(x) > k.sig_d; over_f += mag(x) > k.sig_f; mid += mag(x) > k.sig_d && mag(x) <= k.sig_f; }
    double size = static_cast<double>(std::max<size_t>(1, v.v.size()));   // no element is over, of none
    // the quotient may be rounded differently: leave out ties which are not exact in binary
    for (size_t i = 0; i < 7; ++i) for (double t : {k.occ.d[i], k.occ.f[i]}) for (size_t n : {over_d, over_f})
        if (std::abs(static_cast<double>(n) / size - t) < 1e-9 && t * 8 != std::floor(t * 8)) { c.tag("tie"); return; }
    size_t want = 7;
    for (size_t i = 0; i < 7 && want == 7; ++i)
        if (static_cast<double>(over_d) / size <= k.occ.d[i] && static_cast<double>(over_f) / size <= k.occ.f[i]) want = i;
    c.tag(kind_name(want));
    c.nontrivial(over_d > 0);
    // the question for one type, asked of the matrix
    c.step("IsConvertible");
    auto ask = [&](auto* t, size_t i) {
        typedef typename std::remove_pointer<decltype(t)>::type Type;
        bool expected = static_cast<double>(over_d) / size <= k.occ.d[i] && static_cast<double>(over_f) / size <= k.occ.f[i];
        REQUIRE(IsConvertible<Type>()(m, k.threshold) == expected, "IsConvertible says " << (expected ? "no" : "yes") << " for " << kind_name(i) << " (occupations "
            << over_d / size << " and " << over_f / size << ")");
    };
    ask(static_cast<ZeM*>(nullptr), 0); ask(static_cast<SpF*>(nullptr), 1); ask(static_cast<DeF*>(nullptr), 2); ask(static_cast<SpD*>(nullptr), 3);
    ask(static_cast<MuS*>(nullptr), 4); ask(static_cast<MuD*>(nullptr), 5); ask(static_cast<DeD*>(nullptr), 6);
    DynamicMatrix res;
    c.step("MatrixConverter");
    res = MatrixConverter()(m, k.threshold);
    REQUIRE(res->getTypeIndex() == want, "type is " << kind_name(res->getTypeIndex()) << " instead of " << kind_name(want) << " (occupations "
        << over_d / size << " and " << over_f / size << ")");
    Ref got = to_ref(res);
    REQUIRE(got.r == v.r && got.c == v.c, "dimensions " << got.r << "x" << got.c);
    for (size_t j = 0; j < v.c; ++j) for (size_t i = 0; i < v.r; ++i) {
        double x = v(i,j), err = mag(got(i,j) - x), ax = mag(x), allow;
        bool floats = want == 1 || want == 2 || ((want == 4 || want == 5) && ax <= k.sig_f);
        if (want == 0) allow = ax;                         // dropped on request
        else if (ax <= k.sig_d) allow = ax + ax * 6e-8;    // insignificant
        else allow = floats ? ax * 6e-8 : 0.0;
        REQUIRE(err <= allow, kind_name(want) << ": element (" << i << "," << j << ") is " << got(i,j) << " instead of " << x << " (significant above "
            << k.sig_d << ", in double precision above " << k.sig_f << ")");
    }
    // sparse parts hold the significant elements only
    if (want == 1) REQUIRE(std::static_pointer_cast<SpF>(res)->nnz() == over_d, "Sparse<float> holds " << std::static_pointer_cast<SpF>(res)->nnz() << " elements instead of " << over_d);
    if (want == 3) REQUIRE(std::static_pointer_cast<SpD>(res)->nnz() == over_d, "Sparse<double> holds " << std::static_pointer_cast<SpD>(res)->nnz() << " elements instead of " << over_d);
    if (want == 4 || want == 5) {
        size_t n1 = want == 4 ? std::static_pointer_cast<MuS>(res)->getMatrix1().nnz() : std::static_pointer_cast<MuD>(res)->getMatrix1().nnz();
        REQUIRE(n1 == over_f, "the double precision part holds " << n1 << " elements instead of " << over_f);
        if (want == 4) REQUIRE(std::static_pointer_cast<MuS>(res)->getMatrix2().nnz() == mid, "the single precision part holds "
            << std::static_pointer_cast<MuS>(res)->getMatrix2().nnz() << " elements instead of " << mid);
    }
}

void describe(Ctx& c, Case const& k, Ref const& v, const char* src)
{
    c.log() << src << ", significance " << k.sig_d << "/" << k.sig_f << (k.defaults ? ", default occupations" : ", occupations");
    if (!k.defaults) for (int i = 0; i < 7; ++i) c.log() << " " << k.occ.d[i] << "/" << k.occ.f[i];
    c.log() << " " << show(v);
}

} // namespace

LAW("dense double", 0.4)
{
    Case k = gen_case(c);
    Ref v = gen_graded(c, k, shape(c, 8));
    describe(c, k, v, "Dense<double>");
    DeD m = dense<double>(v);
    convert(c, m, v, k);
    require_same(to_ref(m), v, "the source afterwards");
}
LAW("sub-matrix", 0.4)
{
    Case k = gen_case(c);
    Ref whole = gen_graded(c, k, extent(c, 10), extent(c, 10));
    size_t r = std::min(whole.r, extent(c, 10)), n = std::min(whole.c, extent(c, 10));
    size_t i0 = c.size(0, whole.r - r), j0 = c.size(0, whole.c - n);
    Ref v = sub(whole, r, n, i0, j0);
    describe(c, k, v, "sub-matrix");
    DeD m = dense<double>(whole);
    Matrix<Dense,double,Parameter<size_t,ColumnMajor,VariableSize,LeadingDimension>> s(m, r, n, i0, j0);
    convert(c, s, v, k);
    require_same(to_ref(m), whole, "the source afterwards");
}
LAW("row-major dense double", 0.2)
{
    Case k = gen_case(c);
    Ref v = gen_graded(c, k, shape(c, 8));
    describe(c, k, v, "Dense<double,row>");
    DeDR m = dense<double,PR>(v);
    convert(c, m, v, k);
}
