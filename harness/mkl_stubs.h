// The routines of the Intel MKL which BlasBooster uses, after its reference documentation.
#pragma once
#include <algorithm>
#include <vector>

// ------------------------------------------------------------------------------------- stand-ins
namespace {
int illegal, calls, mkl_threads, mkl_dynamic;
void fresh() { illegal = calls = 0; }

template <class T> void gemm(const char* ta, const char* tb, const int* pm, const int* pn, const int* pk, const T* alpha, const T* a, const int* plda,
    const T* b, const int* pldb, const T* beta, T* c, const int* pldc)
{
    ++calls;
    int m = *pm, n = *pn, k = *pk, lda = *plda, ldb = *pldb, ldc = *pldc;
    bool na = *ta == 'N' || *ta == 'n', nb = *tb == 'N' || *tb == 'n';
    int ra = na ? m : k, rb = nb ? k : n;
    if (m < 0) illegal = 3; else if (n < 0) illegal = 4; else if (k < 0) illegal = 5;
    else if (lda < std::max(1, ra)) illegal = 8; else if (ldb < std::max(1, rb)) illegal = 10; else if (ldc < std::max(1, m)) illegal = 13;
    if (illegal) return;
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) {
        T s = 0;
        for (int l = 0; l < k; ++l) s += a[na ? i + (size_t)l * lda : l + (size_t)i * lda] * b[nb ? l + (size_t)j * ldb : j + (size_t)l * ldb];
        T& x = c[i + (size_t)j * ldc];
        x = *beta == 0 ? *alpha * s : *alpha * s + *beta * x;
    }
}

// C = alpha op(A) B + beta C, A sparse, m x k in compressed rows (4 arrays)
template <class T> void csrmm(const char* transa, const int* pm, const int* pn, const int* pk, const T* alpha, const char* descr, const T* val,
    const int* indx, const int* pntrb, const int* pntre, const T* b, const int* pldb, const T* beta, T* c, const int* pldc)
{
    ++calls;
    int m = *pm, n = *pn, k = *pk, ldb = *pldb, ldc = *pldc;
    bool trans = *transa != 'N' && *transa != 'n', one = descr[3] == 'F', general = descr[0] == 'G';
    if (m < 0) illegal = 2; else if (n < 0) illegal = 3; else if (k < 0) illegal = 4; else if (!general || (descr[3] != 'F' && descr[3] != 'C')) illegal = 6;
    // one-based: B and C column-major, zero-based: row-major
    else if (ldb < std::max(1, one ? (trans ? m : k) : n)) illegal = 12; else if (ldc < std::max(1, one ? (trans ? k : m) : n)) illegal = 15;
    if (illegal) return;
    int base = one ? 1 : 0, rows = trans ? k : m;
    auto C = [&](int i, int j) -> T& { return one ? c[i + (size_t)j * ldc] : c[(size_t)i * ldc + j]; };
    auto B = [&](int i, int j) -> T { return one ? b[i + (size_t)j * ldb] : b[(size_t)i * ldb + j]; };
    for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) C(i, j) = *beta == 0 ? T(0) : *beta * C(i, j);
    for (int i = 0; i < m; ++i)
        for (int p = pntrb[i] - pntrb[0]; p < pntre[i] - pntrb[0]; ++p) {
            int l = indx[p] - base;
            if (l < 0 || l >= k) { illegal = 100; return; }
            for (int j = 0; j < n; ++j) if (trans) C(l, j) += *alpha * val[p] * B(i, j); else C(i, j) += *alpha * val[p] * B(l, j);
        }
}

// C = op(A) B, A m x n, B n x k (not transposed), compressed rows, one-based
template <class T> void csrmultcsr(const char* trans, const int* request, const int* sort, const int* pm, const int* pn, const int* pk,
    const T* a, const int* ja, const int* ia, const T* b, const int* jb, const int* ib, T* c, int* jc, int* ic, const int* nzmax, int* info)
{
    ++calls;
    int m = *pm, n = *pn, k = *pk;
    if (*trans != 'N' && *trans != 'n') { illegal = 1; return; }
    if (*request < 0 || *request > 2) { illegal = 2; return; }
    if (m < 0 || n < 0 || k < 0) { illegal = 4; return; }
    if (ia[0] != 1 || ib[0] != 1) { illegal = 9; return; }
    for (int i = 0; i < m; ++i) if (ia[i + 1] < ia[i]) { illegal = 9; return; }
    for (int i = 0; i < n; ++i) if (ib[i + 1] < ib[i]) { illegal = 12; return; }
    bool sorted = *sort < 4 || *sort > 7;
    std::vector<int> start(1, 1); std::vector<int> keys; std::vector<T> values;
    for (int i = 0; i < m; ++i) {
        std::vector<int> order; std::vector<T> acc(k); std::vector<bool> used(k);
        for (int p = ia[i] - 1; p < ia[i + 1] - 1; ++p) {
            int l = ja[p] - 1;
            if (l < 0 || l >= n) { illegal = 100; return; }
            for (int q = ib[l] - 1; q < ib[l + 1] - 1; ++q) {
                int j = jb[q] - 1;
                if (j < 0 || j >= k) { illegal = 101; return; }
                if (!used[j]) { used[j] = true; order.push_back(j); }
                acc[j] += a[p] * b[q];
            }
        }
        if (sorted) std::sort(order.begin(), order.end()); else std::reverse(order.begin(), order.end());
        for (int j : order) { keys.push_back(j + 1); values.push_back(acc[j]); }
        start.push_back((int)keys.size() + 1);
    }
    if (*request == 0 && *nzmax < (int)keys.size()) { *info = 1; return; }      // only then nzmax is used
    std::copy(start.begin(), start.end(), ic);
    if (*request != 1) { std::copy(keys.begin(), keys.end(), jc); std::copy(values.begin(), values.end(), c); }
    *info = 0;
}
} // namespace

extern "C" {
void dgemm_(const char* a, const char* b, const int* m, const int* n, const int* k, const double* al, const double* A, const int* la, const double* B, const int* lb, const double* be, double* C, const int* lc)
{ gemm(a, b, m, n, k, al, A, la, B, lb, be, C, lc); }
void sgemm_(const char* a, const char* b, const int* m, const int* n, const int* k, const float* al, const float* A, const int* la, const float* B, const int* lb, const float* be, float* C, const int* lc)
{ gemm(a, b, m, n, k, al, A, la, B, lb, be, C, lc); }
void MKL_Set_Dynamic(int n) { mkl_dynamic = n; }
void MKL_Set_Num_Threads(int n) { mkl_threads = n; }
void mkl_dcsrmm(const char* a, const int* b, const int* c, const int* d, const double* e, const char* f, const double* g, const int* h, const int* i, const int* j, const double* k, const int* l, const double* m, double* n, const int* o)
{ csrmm(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o); }
void mkl_scsrmm(const char* a, const int* b, const int* c, const int* d, const float* e, const char* f, const float* g, const int* h, const int* i, const int* j, const float* k, const int* l, const float* m, float* n, const int* o)
{ csrmm(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o); }
void mkl_dcsrmultcsr(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, double* g, int* h, int* i, double* j, int* k, int* l, double* m, int* n, int* o, const int* p, int* q)
{ csrmultcsr(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q); }
void mkl_scsrmultcsr(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, float* g, int* h, int* i, float* j, int* k, int* l, float* m, int* n, int* o, const int* p, int* q)
{ csrmultcsr(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q); }
}
