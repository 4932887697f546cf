// Transposition of dense and sparse matrices of both orientations.
#include "bbgen.h"
#include "BlasBooster/Core/Occupation.h"
using namespace bb;

namespace {

template <class T>
Ref gen_dims(Ctx& c, size_t hi)
{
    auto [r, n] = shape(c, hi);
    if (c.chance(3, 4)) { r = std::max<size_t>(r, 1); n = std::max<size_t>(n, 1); }
    Ref a = gen_exact<T>(c, r, n);
    if (!r || !n) c.tag("empty");
    c.tag(r == n ? "square" : r < n ? "wide" : "tall");
    return a;
}

template <class M>
void type_law(Ctx& c)
{
    Ref a = gen_dims<typename M::value_type>(c, 12);
    c.tag(Name<M>::s());
    c.log() << Name<M>::s() << " " << show(a);
    c.nontrivial(a.r > 1 && a.c > 1 && a.nnz() > 1);
    auto m = Build<M>::make(c, a);
    c.step("transpose");
    M t = transpose(*m);
    require_same(to_ref(t), trans(a), "transpose of " + Name<M>::s());
    require_same(to_ref(*m), a, "the transposed matrix afterwards");
    c.step("transpose twice");
    M tt = transpose(t);
    require_same(to_ref(tt), a, "transpose of transpose of " + Name<M>::s());
    c.step("independence");
    *m = M(1, 1);
    require_same(to_ref(t), trans(a), "the transpose after changing the original");
}

/// sparse matrices whose number of rows and columns differ by a lot, with empty lines
template <class M>
void shape_law(Ctx& c)
{
    bool wide = c.chance(1, 2);
    size_t small = c.size(1, 3), large = c.size(20, 90);
    Ref a(wide ? small : large, wide ? large : small);
    size_t n = c.size(0, 40);
    for (size_t i = 0; i < n; ++i) { size_t p = c.below(a.v.size()); a.v[p] = c.chance(1, 3) ? static_cast<double>(static_cast<typename M::value_type>(Pool(c).any(c))) : gen_nonzero(c); }
    c.tag(Name<M>::s());
    c.log() << Name<M>::s() << " " << a.r << "x" << a.c << " with " << a.nnz() << " non-zero elements";
    c.nontrivial(a.nnz() > 1);
    auto m = Build<M>::make(c, a);
    M t = transpose(*m);
    require_same(to_ref(t), trans(a), "transpose of " + Name<M>::s());
    require_same(to_ref(transpose(t)), a, "transpose of transpose of " + Name<M>::s());
}

/// explicit zeros, which compound assignments leave behind, are elements like all others
template <class M>
void explicit_zero_law(Ctx& c)
{
    Ref a = gen_exact<typename M::value_type>(c, shape(c, 7));
    c.tag(Name<M>::s());
    c.log() << Name<M>::s() << " " << show(a);
    auto m = Build<M>::make(c, a);
    size_t zeros = 0;
    for (auto i = m->begin(), e = m->end(); i != e; ++i) if (c.chance(1, 3)) { *i = 0; ++zeros; }
    Ref b = to_ref(*m);
    c.nontrivial(zeros && b.nnz());
    size_t n = m->nnz();
    M t = transpose(*m);
    require_same(to_ref(t), trans(b), "transpose of " + Name<M>::s());
    REQUIRE(t.nnz() == n, "the transpose has " << t.nnz() << " stored elements instead of " << n);
    require_same(to_ref(transpose(t)), b, "transpose of transpose of " + Name<M>::s());
}

/// (A + B)^T = A^T + B^T and (A B)^T = B^T A^T
template <class M>
void algebra_law(Ctx& c)
{
    size_t r, k, n;
    product_shape(c, 6, r, k, n);
    Ref a = gen_ref(c, r, k, factor_range(k)), b = gen_ref(c, k, n, factor_range(k)), s = gen_ref(c, r, k);
    c.tag(Name<M>::s());
    c.log() << Name<M>::s() << " " << show(a) << " * " << show(b) << " + " << show(s);
    Ref p = mul(a, b);
    c.nontrivial(p.nnz() && r > 1 && n > 1);
    auto A = Build<M>::make(c, a); auto B = Build<M>::make(c, b); auto S = Build<M>::make(c, s);
    c.step("product");
    M AB(*A * *B);
    require_same(to_ref(transpose(AB)), trans(p), "transposed product");
    M At = transpose(*A), Bt = transpose(*B), St = transpose(*S);
    M BtAt(Bt * At);
    require_same(to_ref(BtAt), trans(p), "product of the transposed");
    c.step("sum");
    DeD Dt(At);
    Dt += St;
    require_same(to_ref(Dt), trans(a + s), "sum of the transposed");
    Dt -= At;
    require_same(to_ref(Dt), trans(s), "difference of the transposed");
}

/// through the other orientation: the transpose of a column-major matrix has the arrays of the row-major one
template <class T>
void orientation_law(Ctx& c)
{
    Ref a = gen_exact<T>(c, shape(c, 9));
    c.log() << show(a);
    c.nontrivial(a.nnz() > 1 && a.r > 1 && a.c > 1);
    typedef Matrix<Sparse,T,PC> C; typedef Matrix<Sparse,T,PR> R;
    C m = sparse<T,PC>(a);
    R r(dense<T,PR>(a));
    C t = transpose(m);
    REQUIRE(r.nnz() == t.nnz(), "number of elements");
    REQUIRE(std::equal(r.begin(), r.end(), t.begin()), "the values of the transpose are not those of the row-major matrix");
    REQUIRE(std::equal(r.beginKey(), r.endKey(), t.beginKey()), "the keys of the transpose are not those of the row-major matrix");
    REQUIRE(std::equal(r.beginOffset(), r.endOffset(), t.beginOffset()), "the offsets of the transpose are not those of the row-major matrix");
}

} // namespace

typedef Matrix<Dense,float,PR> DeFR;
typedef Matrix<Dense,double,PR> DeDR;
typedef Matrix<Sparse,float,PR> SpFR;
typedef Matrix<Sparse,double,PR> SpDR;
typedef Matrix<Dense,int,PC> DeI;

LAW("transpose Dense<float>", 1) { type_law<DeF>(c); }
LAW("transpose Dense<double>", 1) { type_law<DeD>(c); }
LAW("transpose Sparse<float>", 1) { type_law<SpF>(c); }
LAW("transpose Sparse<double>", 1) { type_law<SpD>(c); }
LAW("transpose Dense<float,row>", 1) { type_law<DeFR>(c); }
LAW("transpose Dense<double,row>", 1) { type_law<DeDR>(c); }
LAW("transpose Sparse<float,row>", 1) { type_law<SpFR>(c); }
LAW("transpose Sparse<double,row>", 1) { type_law<SpDR>(c); }
LAW("transpose, other parameters", 1)
{
    switch (c.below(6)) {
        case 0: type_law<Matrix<Dense,double,PI>>(c); break;
        case 1: type_law<Matrix<Sparse,double,PI>>(c); break;
        case 2: type_law<Matrix<Dense,float,PUR>>(c); break;
        case 3: type_law<Matrix<Sparse,float,PUR>>(c); break;
        case 4: type_law<Matrix<Sparse,double,PN>>(c); break;
        default: shape_law<Matrix<Sparse,float,PI>>(c);
    }
}
LAW("long and narrow sparse", 1) { if (c.chance(1, 2)) shape_law<SpF>(c); else shape_law<SpD>(c); }
LAW("long and narrow sparse, row", 1) { if (c.chance(1, 2)) shape_law<SpFR>(c); else shape_law<SpDR>(c); }
LAW("explicit zeros", 1) { explicit_zero_law<SpD>(c); }
LAW("explicit zeros, row", 1) { explicit_zero_law<SpFR>(c); }
LAW("algebra dense", 1) { algebra_law<DeD>(c); }
LAW("algebra sparse", 1) { algebra_law<SpD>(c); }
LAW("orientation", 1) { if (c.chance(1, 2)) orientation_law<float>(c); else orientation_law<double>(c); }
