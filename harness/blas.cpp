// P21: every BLAS wrapper computes what the BLAS routine of its name computes.
// Reference: the routine of the library, looked up by name at runtime (complex dot products: an own loop), called
// with copies of the same arguments. One unit per interface; INTERFACE is OpenBLAS or IntelMKL.
#include "pbt.h"
#include <complex>
#include "BlasBooster/BlasInterface/BlasInterface.h"
#include "BlasBooster/BlasInterface/FunctionTypes.h"
#ifdef WITH_MKL
#include "BlasBooster/BlasInterface/BlasInterface_IntelMKL.h"
#define INTERFACE IntelMKL
#else
#include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
#define INTERFACE OpenBLAS
#endif
#include <array>
#include <cstring>
#include <dlfcn.h>
#include <typeinfo>
#include <vector>
using namespace BlasBooster; using pbt::Ctx;
typedef std::complex<float> cfloat; typedef std::complex<double> cdouble;

static void* library() { static void* h = dlopen("libopenblas.so.0", RTLD_NOW | RTLD_LOCAL); return h; }

#ifdef WITH_MKL
// The MKL passes the result of complex dot products through the first argument.
template <class T> static void mkl_dot(T* r, const int* n, const T* x, const int* ix, const T* y, const int* iy, bool conj)
{
    T s(0); int px = *ix < 0 ? (1 - *n) * *ix : 0, py = *iy < 0 ? (1 - *n) * *iy : 0;
    for (int i = 0; i < *n; ++i) s += (conj ? std::conj(x[px + i * *ix]) : x[px + i * *ix]) * y[py + i * *iy];
    *r = s;
}
static int mkl_threads, mkl_dynamic;
static std::vector<const void*> mkl_args; static int mkl_calls[4];
extern "C" {
void cdotc_(cfloat* r, const int* n, const cfloat* x, const int* ix, const cfloat* y, const int* iy) { mkl_dot(r, n, x, ix, y, iy, true); }
void cdotu_(cfloat* r, const int* n, const cfloat* x, const int* ix, const cfloat* y, const int* iy) { mkl_dot(r, n, x, ix, y, iy, false); }
void zdotc_(cdouble* r, const int* n, const cdouble* x, const int* ix, const cdouble* y, const int* iy) { mkl_dot(r, n, x, ix, y, iy, true); }
void zdotu_(cdouble* r, const int* n, const cdouble* x, const int* ix, const cdouble* y, const int* iy) { mkl_dot(r, n, x, ix, y, iy, false); }
void MKL_Set_Dynamic(int f) { mkl_dynamic = f; }
void MKL_Set_Num_Threads(int n) { mkl_threads = n; }
void mkl_dcsrmm(const char* a, const int* b, const int* c, const int* d, const double* e, const char* f, const double* g, const int* h, const int* i, const int* j, const double* k, const int* l, const double* m, double* n, const int* o)
{ ++mkl_calls[0]; mkl_args = {a,b,c,d,e,f,g,h,i,j,k,l,m,n,o}; }
void mkl_dcsrmultcsr(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, double* g, int* h, int* i, double* j, int* k, int* l, double* m, int* n, int* o, const int* p, int* q)
{ ++mkl_calls[1]; mkl_args = {a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q}; }
void mkl_scsrmm(const char* a, const int* b, const int* c, const int* d, const float* e, const char* f, const float* g, const int* h, const int* i, const int* j, const float* k, const int* l, const float* m, float* n, const int* o)
{ ++mkl_calls[2]; mkl_args = {a,b,c,d,e,f,g,h,i,j,k,l,m,n,o}; }
void mkl_scsrmultcsr(const char* a, const int* b, const int* c, const int* d, const int* e, const int* f, float* g, int* h, int* i, float* j, int* k, int* l, float* m, int* n, int* o, const int* p, int* q)
{ ++mkl_calls[3]; mkl_args = {a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q}; }
}
#else
extern "C" int openblas_get_num_threads();
#endif

enum { N = 160 };                         // elements of an array argument
struct Arg { char kind; alignas(16) unsigned char data[N * 16]; };

template <class T> static T value(Ctx& c);
template <> float value<float>(Ctx& c) { int v = (int)c.below(6); return v < 3 ? v - 3 : v - 2; }
template <> double value<double>(Ctx& c) { return value<float>(c); }
template <> cfloat value<cfloat>(Ctx& c) { float a = value<float>(c); return cfloat(a, (float)c.range(-2, 2)); }
template <> cdouble value<cdouble>(Ctx& c) { cfloat v = value<cfloat>(c); return cdouble(v.real(), v.imag()); }

template <class T> static void put(Arg& a, int i, T v) { std::memcpy(a.data + i * sizeof(T), &v, sizeof(T)); }
template <class T> static T get(Arg const& a, int i) { T v; std::memcpy(&v, a.data + i * sizeof(T), sizeof(T)); return v; }

template <class T> static void make_values(Ctx& c, Arg& a, int n, uint64_t& seed)
{
    // array elements by a cheap sequence from one choice, scalars by choice
    if (n == 1) { put(a, 0, value<T>(c)); for (int i = 1; i < N; ++i) put(a, i, T(5)); return; }
    for (int i = 0; i < N; ++i) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        int v = (int)((seed >> 33) % 6), w = (int)((seed >> 50) % 5) - 2;
        v = v < 3 ? v - 3 : v - 2;
        if constexpr (std::is_same<T,cfloat>::value || std::is_same<T,cdouble>::value) put(a, i, T(v, w));
        else put(a, i, T(v));
    }
}

// kinds: t,u,d,s characters; n dimension; k bandwidth; l leading dimension; x increment;
// a scalar, r real scalar, A input, B in/out array, S in/out real scalar, T in/out scalar, P flag and matrix of rotm, I
template <class T, class R> static void make(Ctx& c, Arg& a, char kind, uint64_t& seed)
{
    a.kind = kind;
    std::memset(a.data, 0, sizeof a.data);
    switch (kind) {
        case 't': a.data[0] = "NTC"[c.below(3)]; break;
        case 'v': a.data[0] = "NC"[c.below(2)]; break;      // hermitian updates
        case 'w': a.data[0] = "NT"[c.below(2)]; break;      // complex symmetric updates
        case 'u': a.data[0] = "UL"[c.below(2)]; break;
        case 'd': a.data[0] = "NU"[c.below(2)]; break;
        case 's': a.data[0] = "LR"[c.below(2)]; break;
        case 'n': put<int>(a, 0, (int)c.size(0, 6)); break;
        case 'k': put<int>(a, 0, (int)c.below(3)); break;
        case 'l': put<int>(a, 0, 6 + (int)c.below(4)); break;
        case 'x': { static const int inc[] = { 1, 2, 3, -1, -2 }; put<int>(a, 0, inc[c.below(5)]); break; }
        case 'a': case 'T': make_values<T>(c, a, 1, seed); break;
        case 'r': case 'S': make_values<R>(c, a, 1, seed); break;
        case 'A': case 'B': make_values<T>(c, a, N, seed); break;
        case 'P': make_values<R>(c, a, N, seed); put<R>(a, 0, R((int)c.below(4) - 2)); break;
        case 'Q': make_values<R>(c, a, N, seed); break;
    }
}

template <class T, class R> static const std::type_info& type_of(char kind)
{
    switch (kind) {
        case 't': case 'u': case 'd': case 's': case 'v': case 'w': return typeid(char);
        case 'n': case 'k': case 'l': case 'x': return typeid(int);
        case 'r': case 'S': case 'P': case 'Q': return typeid(R);
        default: return typeid(T);
    }
}

template <class V> static double magnitude(V v) { return std::abs(v); }
template <class V> static bool near(V a, V b, double scale)
{
    if (std::memcmp(&a, &b, sizeof a) == 0) return true;
    double eps = sizeof(decltype(std::abs(a))) == 4 ? 2e-4 : 1e-10;
    return !(magnitude(V(a - b)) > eps * scale);
}

template <class V> static void compare(Ctx& c, const char* name, int i, Arg const& got, Arg const& want, int n)
{
    if (std::memcmp(got.data, want.data, sizeof got.data) == 0) return;
    double scale = 1;
    for (int k = 0; k < n; ++k) scale = std::max(scale, (double)magnitude(get<V>(want, k)));
    for (int k = 0; k < n; ++k)
        if (!near(get<V>(got, k), get<V>(want, k), scale))
            REQUIRE(false, name << ": element " << k << " of argument " << i << " is " << get<V>(got, k) << ", but should be " << get<V>(want, k));
}

template <class Ret, class T, class R, class... A, size_t... I, class Functor>
static void check(Ctx& c, const char* name, const char* spec, Functor const& f, std::index_sequence<I...>, Ret (Functor::*)(A...) const)
{
    static_assert(sizeof...(A) > 0, "");
    REQUIRE(std::strlen(spec) == sizeof...(A), name << ": number of arguments " << sizeof...(A) << " instead of " << std::strlen(spec));
    bool same[] = { type_of<T,R>(spec[I]) == typeid(std::remove_cv_t<std::remove_pointer_t<A>>)... };
    for (size_t i = 0; i < sizeof...(A); ++i) REQUIRE(same[i], name << ": type of argument " << i);

    uint64_t seed = c.below(1u << 30);
    std::vector<Arg> w(sizeof...(A));
    for (size_t i = 0; i < w.size(); ++i) make<T,R>(c, w[i], spec[i], seed);
    c.log() << name << "(";
    bool empty = false;
    for (auto& a : w) {
        switch (a.kind) {
            case 't': case 'u': case 'd': case 's': case 'v': case 'w': c.log() << " " << (char)a.data[0]; break;
            case 'n': empty = empty || get<int>(a, 0) == 0;
            case 'k': case 'l': case 'x': c.log() << " " << get<int>(a, 0); break;
            case 'a': case 'T': c.log() << " " << get<T>(a, 0); break;
            case 'r': case 'S': c.log() << " " << get<R>(a, 0); break;
            default: c.log() << " [" << get<T>(a, 0) << ",..]"; break;
        }
    }
    c.log() << " )";
    c.nontrivial(!empty);
    std::vector<Arg> g(w);
    c.tag(name);

    constexpr bool dot = std::is_same<Ret,cfloat>::value || std::is_same<Ret,cdouble>::value;
    auto same_value = [&](auto got, auto want, double scale) {
        if (!near(got, want, std::max(scale, magnitude(want)))) REQUIRE(false, name << " returns " << got << ", but should return " << want);
    };
    if constexpr (dot) {
        const int n = get<int>(w[0], 0), ix = get<int>(w[2], 0), iy = get<int>(w[4], 0);
        Ret s(0); double scale = 1;
        for (int i = 0; i < n; ++i) {
            Ret x = get<Ret>(w[1], ix < 0 ? (i + 1 - n) * ix : i * ix), y = get<Ret>(w[3], iy < 0 ? (i + 1 - n) * iy : i * iy);
            s += (name[4] == 'c' ? std::conj(x) : x) * y; scale += std::abs(x) * std::abs(y);
        }
        same_value(f(reinterpret_cast<A>(g[I].data)...), s, scale);
    } else {
        auto ref = reinterpret_cast<Ret(*)(A...)>(dlsym(library(), (std::string(name) + "_").c_str()));
        REQUIRE(ref, "the library has no " << name);
        if constexpr (std::is_void<Ret>::value) {
            ref(reinterpret_cast<A>(w[I].data)...);
            f(reinterpret_cast<A>(g[I].data)...);
        } else {
            Ret want = ref(reinterpret_cast<A>(w[I].data)...);
            Ret got = f(reinterpret_cast<A>(g[I].data)...);
            same_value(got, want, 1.0);
        }
    }
    for (size_t i = 0; i < w.size(); ++i) {
        const std::type_info& t = type_of<T,R>(spec[i]);
        if (t == typeid(float)) compare<float>(c, name, (int)i, g[i], w[i], N);
        else if (t == typeid(double)) compare<double>(c, name, (int)i, g[i], w[i], N);
        else if (t == typeid(cfloat)) compare<cfloat>(c, name, (int)i, g[i], w[i], N);
        else if (t == typeid(cdouble)) compare<cdouble>(c, name, (int)i, g[i], w[i], N);
        else REQUIRE(std::memcmp(g[i].data, w[i].data, sizeof g[i].data) == 0, name << " changed argument " << i);
    }
}

template <class... A> struct Count;
template <class Ret, class T, class R, class Functor, class... A>
static void go(Ctx& c, const char* name, const char* spec, Ret (Functor::*m)(A...) const)
{
    check<Ret,T,R,A...>(c, name, spec, Functor(), std::index_sequence_for<A...>(), m);
}
template <class F, class Ret, class T, class R> static void run(Ctx& c, const char* name, const char* spec)
{
    REQUIRE(F::name() == name, "the name of " << name << " is " << F::name());
    typedef BlasInterface<INTERFACE, F> Functor;
    go<Ret,T,R,Functor>(c, name, spec, &Functor::operator());
}

struct Entry { void (*run)(Ctx&, const char*, const char*); const char* name; const char* spec; };
#define E1(NAME,RET,T,R,SPEC) { &run<BlasBooster::NAME, RET, T, R>, #NAME, SPEC },
#define RE(FAM,SPEC) E1(s##FAM,void,float,float,SPEC) E1(d##FAM,void,double,double,SPEC)
#define CO(FAM,SPEC) E1(c##FAM,void,cfloat,float,SPEC) E1(z##FAM,void,cdouble,double,SPEC)
#define ALL(FAM,SPEC) RE(FAM,SPEC) CO(FAM,SPEC)

static const Entry level1[] = {
    E1(scabs1,float,cfloat,float,"a") E1(dcabs1,double,cdouble,double,"a")
    E1(sasum,float,float,float,"nAx") E1(dasum,double,double,double,"nAx") E1(scasum,float,cfloat,float,"nAx") E1(dzasum,double,cdouble,double,"nAx")
    E1(snrm2,float,float,float,"nAx") E1(dnrm2,double,double,double,"nAx") E1(scnrm2,float,cfloat,float,"nAx") E1(dznrm2,double,cdouble,double,"nAx")
    ALL(axpy,"naAxBx") ALL(axpby,"naAxaBx") ALL(copy,"nAxBx") ALL(swap,"nBxBx") ALL(scal,"naBx")
    E1(csscal,void,cfloat,float,"nrBx") E1(zdscal,void,cdouble,double,"nrBx")
    E1(sdot,float,float,float,"nAxAx") E1(ddot,double,double,double,"nAxAx") E1(sdsdot,float,float,float,"naAxAx") E1(dsdot,double,float,float,"nAxAx")
    E1(cdotc,cfloat,cfloat,float,"nAxAx") E1(cdotu,cfloat,cfloat,float,"nAxAx") E1(zdotc,cdouble,cdouble,double,"nAxAx") E1(zdotu,cdouble,cdouble,double,"nAxAx")
    RE(rot,"nBxBxrr") E1(csrot,void,cfloat,float,"nBxBxrr") E1(zdrot,void,cdouble,double,"nBxBxrr")
    RE(rotg,"SSSS") CO(rotg,"TTST") RE(rotm,"nBxBxP") RE(rotmg,"SSSSQ")
    E1(isamax,int,float,float,"nAx") E1(idamax,int,double,double,"nAx") E1(icamax,int,cfloat,float,"nAx") E1(izamax,int,cdouble,double,"nAx")
    E1(isamin,int,float,float,"nAx") E1(idamin,int,double,double,"nAx") E1(icamin,int,cfloat,float,"nAx") E1(izamin,int,cdouble,double,"nAx")
};
static const Entry level2[] = {
    ALL(gbmv,"tnnkkaAlAxaBx") ALL(gemv,"tnnaAlAxaBx") RE(ger,"nnaAxAxBl") CO(gerc,"nnaAxAxBl") CO(geru,"nnaAxAxBl")
    RE(sbmv,"unkaAlAxaBx") CO(hbmv,"unkaAlAxaBx") RE(symv,"unaAlAxaBx") CO(hemv,"unaAlAxaBx")
    RE(spmv,"unaAAxaBx") CO(hpmv,"unaAAxaBx") RE(spr,"unaAxB") CO(hpr,"unrAxB") RE(spr2,"unaAxAxB") CO(hpr2,"unaAxAxB")
    RE(syr,"unaAxBl") CO(her,"unrAxBl") RE(syr2,"unaAxAxBl") CO(her2,"unaAxAxBl")
    ALL(tbmv,"utdnkAlBx") ALL(tbsv,"utdnkAlBx") ALL(tpmv,"utdnABx") ALL(tpsv,"utdnABx") ALL(trmv,"utdnAlBx") ALL(trsv,"utdnAlBx")
};
static const Entry level3[] = {
    ALL(gemm,"ttnnnaAlAlaBl") CO(gemm3m,"ttnnnaAlAlaBl") ALL(symm,"sunnaAlAlaBl") CO(hemm,"sunnaAlAlaBl")
    RE(syrk,"utnnaAlaBl") CO(syrk,"uwnnaAlaBl") CO(herk,"uvnnrAlrBl")
    RE(syr2k,"utnnaAlAlaBl") CO(syr2k,"uwnnaAlAlaBl") CO(her2k,"uvnnaAlAlrBl")
    ALL(trmm,"sutdnnaAlBl") ALL(trsm,"sutdnnaAlBl")
};
template <size_t M> static void any(Ctx& c, const Entry (&e)[M]) { const Entry& x = e[c.below(M)]; x.run(c, x.name, x.spec); }

LAW("level 1", 1) { any(c, level1); }
LAW("level 2", 1) { any(c, level2); }
LAW("level 3", 1) { any(c, level3); }
LAW("threads", 0.03)
{
    int n = 1 + (int)c.below(4);
    c.log() << n << " threads"; c.nontrivial(n > 1);
#ifdef WITH_MKL
    mkl_threads = 0; mkl_dynamic = 1;
    IntelMKL_set_num_threads(n);
    REQUIRE(mkl_threads == n, "number of threads is " << mkl_threads << " instead of " << n);
    REQUIRE(mkl_dynamic == 0, "the number of threads is left to the library");
#else
    OpenBLAS_set_num_threads(n);
    int got = openblas_get_num_threads();
    OpenBLAS_set_num_threads(1);
    REQUIRE(got == n, "number of threads is " << got << " instead of " << n);
#endif
}
#ifdef WITH_MKL
template <class F, class Ret, class... A, size_t... I> static void sparse_call(Ctx& c, const char* name, int which, Ret (F::*)(A...) const, std::index_sequence<I...>)
{
    // the routine must get exactly these arguments (there is only one routine to do this)
    std::vector<std::array<double,2>> w(sizeof...(A));
    c.log() << name; c.nontrivial(); c.tag(name);
    c.below(2);
    mkl_args.clear(); for (int& n : mkl_calls) n = 0;
    F()(reinterpret_cast<A>(w[I].data())...);
    for (int i = 0; i < 4; ++i) REQUIRE(mkl_calls[i] == (i == which), name << " called routine " << i << " " << mkl_calls[i] << " times");
    for (size_t i = 0; i < w.size(); ++i) REQUIRE(mkl_args[i] == w[i].data(), name << ": argument " << i << " is not passed on");
}
template <class F> static void sparse_one(Ctx& c, const char* name, int which)
{
    REQUIRE(F::name() == name, "the name of " << name << " is " << F::name());
    typedef BlasInterface<IntelMKL, F> Functor;
    [&]<class Ret, class... A>(Ret (Functor::*m)(A...) const) { sparse_call<Functor,Ret,A...>(c, name, which, m, std::index_sequence_for<A...>()); }(&Functor::operator());
}
LAW("sparse routines", 0.03)
{
    switch (c.below(4)) {
        case 0: sparse_one<dcsrmm>(c, "dcsrmm", 0); break;
        case 1: sparse_one<dcsrmultcsr>(c, "dcsrmultcsr", 1); break;
        case 2: sparse_one<scsrmm>(c, "scsrmm", 2); break;
        default: sparse_one<scsrmultcsr>(c, "scsrmultcsr", 3); break;
    }
}
#endif
