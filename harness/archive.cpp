// readXML/writeXML/readBinary/writeBinary, serialisation of paths, storages and matrices.
#include "BlasBooster/Utilities/FileIO.h"
#include "BlasBooster/Utilities/BoostSerializePath.h"
#include "bbgen.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include "BlasBooster/Core/SparseStorage.h"
#include <cstdio>
using namespace bb;

namespace {

std::string gen_text(Ctx& c)
{
    static const std::string alphabet = "ab Z09<>&\"'_-.;/\\#%=]}\t\n";
    std::string s;
    for (size_t k = c.size(0, c.chance(1, 8) ? 200 : 10); k; --k) s += alphabet[c.below(alphabet.size())];
    return s;
}
double gen_double(Ctx& c)
{
    switch (c.below(5)) {
        case 0: return static_cast<double>(c.sym(100));
        case 1: return c.sym(1000000) / 3.0;
        case 2: return std::ldexp(1.0 + c.below(1u << 30) / 1073741824.0, static_cast<int>(c.sym(1000)));
        case 3: return 0.1 * static_cast<double>(c.sym(1000));
        default: return (c.chance(1, 2) ? -1 : 1) * std::numeric_limits<double>::max() / static_cast<double>(1 + c.below(7));
    }
}
float gen_float(Ctx& c) { return c.chance(1, 2) ? static_cast<float>(c.sym(1000000)) / 3.0f : std::ldexp(1.0f + static_cast<float>(c.below(1u << 23)) / 8388608.0f, static_cast<int>(c.sym(120))); }

struct Leaf
{
    int i = 0; double d = 0; std::string s;
    template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(i) & BOOST_SERIALIZATION_NVP(d) & BOOST_SERIALIZATION_NVP(s); }
    bool operator == (Leaf const& o) const { return i == o.i && std::memcmp(&d, &o.d, 8) == 0 && s == o.s; }
};
struct Doc
{
    bool b = false; unsigned long u = 0; float f = 0; std::string s; boost::filesystem::path p;
    std::vector<double> v; std::vector<Leaf> l; std::map<std::string,int> m;
    template <class A> void serialize(A& ar, unsigned)
    {
        ar & BOOST_SERIALIZATION_NVP(b) & BOOST_SERIALIZATION_NVP(u) & BOOST_SERIALIZATION_NVP(f) & BOOST_SERIALIZATION_NVP(s)
           & BOOST_SERIALIZATION_NVP(p) & BOOST_SERIALIZATION_NVP(v) & BOOST_SERIALIZATION_NVP(l) & BOOST_SERIALIZATION_NVP(m);
    }
    bool operator == (Doc const& o) const
    {
        return b == o.b && u == o.u && std::memcmp(&f, &o.f, 4) == 0 && s == o.s && p.string() == o.p.string() && v.size() == o.v.size()
            && (v.empty() || std::memcmp(v.data(), o.v.data(), v.size() * 8) == 0) && l == o.l && m == o.m;
    }
};
template <class T> struct Gen;
template <> struct Gen<int> { static int make(Ctx& c) { return static_cast<int>(c.sym(2000000000)); } };
template <> struct Gen<double> { static double make(Ctx& c) { return gen_double(c); } };
template <> struct Gen<std::string> { static std::string make(Ctx& c) { return gen_text(c); } };
template <> struct Gen<boost::filesystem::path> { static boost::filesystem::path make(Ctx& c) { return gen_text(c); } };
template <> struct Gen<Leaf> { static Leaf make(Ctx& c) { Leaf l; l.i = Gen<int>::make(c); l.d = gen_double(c); l.s = gen_text(c); return l; } };
template <> struct Gen<Doc> { static Doc make(Ctx& c)
{
    Doc d;
    d.b = c.chance(1, 2); d.u = c.below(~0ul); d.f = gen_float(c); d.s = gen_text(c); d.p = gen_text(c);
    for (size_t k = c.size(0, 5); k; --k) d.v.push_back(gen_double(c));
    for (size_t k = c.size(0, 3); k; --k) d.l.push_back(Gen<Leaf>::make(c));
    for (size_t k = c.size(0, 3); k; --k) d.m[gen_text(c)] = static_cast<int>(c.sym(100));
    return d;
} };
template <class T> bool same(T const& a, T const& b) { return a == b; }
bool same(double const& a, double const& b) { return std::memcmp(&a, &b, 8) == 0; }
bool same(boost::filesystem::path const& a, boost::filesystem::path const& b) { return a.string() == b.string(); }

std::string slurp(std::string const& f) { std::ifstream is(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); }
bool is_file(std::string const& f) { return ::access(f.c_str(), F_OK) == 0; }

template <class T> void put(bool xml, T& t, std::string const& name, std::string const& f, int over)
{
    if (over < 0) { if (xml) writeXML(t, name, f); else writeBinary(t, name, f); }
    else { if (xml) writeXML(t, name, f, over == 1); else writeBinary(t, name, f, over == 1); }
}
template <class T> void get(bool xml, T& t, std::string const& name, std::string const& f) { if (xml) readXML(t, name, f); else readBinary(t, name, f); }

/// a history of writes and reads on two files against a map of their contents
template <class T> void files(Ctx& c)
{
    std::string f[2] = {c.scratch + "/f0", c.scratch + "/f 1.xml"};
    for (auto& x : f) std::remove(x.c_str());
    bool there[2] = {false, false}, as_xml[2] = {false, false};
    T value[2];
    size_t reads = 0, n = c.size(2, 8);
    static const std::vector<std::string> names{"Settings", "a", "BlasCallNumber", "x_1.y-z"};
    std::string name = c.pick(names);
    for (size_t k = 0; k < n; ++k) {
        size_t i = c.below(2);
        std::string before = there[i] ? slurp(f[i]) : "";
        switch (c.below(k < 2 ? 2 : 4)) {
            case 0: case 1: {
                bool xml = c.chance(1, 2);
                int over = static_cast<int>(c.below(3)) - 1;
                T t = Gen<T>::make(c), copy(t);
                c.log() << " write" << (xml ? "XML" : "Binary") << i << (over == 0 ? "(keep)" : "");
                c.step("write");
                bool thrown = false;
                try { put(xml, t, name, f[i], over); } catch (BlasBoosterException const&) { thrown = true; }
                REQUIRE(same(t, copy), "writing changes the object");
                REQUIRE(thrown == (over == 0 && there[i]), (thrown ? "write is refused" : "an existing file is overwritten"));
                if (thrown) { c.tag("kept"); REQUIRE(slurp(f[i]) == before, "the refused write changes the file"); break; }
                value[i] = t; there[i] = true; as_xml[i] = xml;
                std::string fresh = c.scratch + "/fresh";
                std::remove(fresh.c_str());
                put(xml, t, name, fresh, -1);
                REQUIRE(slurp(f[i]) == slurp(fresh), "writing to an existing file doesn't replace its content");
                std::remove(fresh.c_str());
                break;
            }
            case 2: {
                T t = Gen<T>::make(c), u(t);
                c.log() << " read" << i;
                c.step("read");
                bool thrown = false;
                try { get(as_xml[i], t, name, f[i]); } catch (BlasBoosterException const&) { thrown = true; }
                REQUIRE(thrown == !there[i], (thrown ? "existing file not found" : "reading a missing file is accepted"));
                if (thrown) { REQUIRE(same(t, u), "the object changes although the file is missing"); REQUIRE(!is_file(f[i]), "reading creates the file"); c.tag("missing"); }
                else { REQUIRE(same(t, value[i]), "the object read is not the object written"); ++reads; c.tag(as_xml[i] ? "xml" : "binary"); REQUIRE(slurp(f[i]) == before, "reading changes the file"); }
                break;
            }
            default:
                c.log() << " remove" << i;
                std::remove(f[i].c_str()); there[i] = false;
        }
    }
    for (size_t i = 0; i < 2; ++i) if (there[i]) {
        T t = Gen<T>::make(c);
        get(as_xml[i], t, name, f[i]);
        REQUIRE(same(t, value[i]), "at the end the object read is not the object written");
        ++reads;
    }
    c.nontrivial(reads > 0);
    for (auto& x : f) std::remove(x.c_str());
}

/// a file cut off is refused by an exception
void cut(Ctx& c)
{
    std::string f = c.scratch + "/cut";
    bool xml = c.chance(1, 2);
    Leaf t = Gen<Leaf>::make(c);
    put(xml, t, "leaf", f, -1);
    std::string s = slurp(f);
    size_t useful = xml ? s.find("</leaf>") : s.size();
    size_t keep = c.below(useful);
    { std::ofstream os(f, std::ios::binary | std::ios::trunc); os.write(s.data(), keep); }
    c.log() << (xml ? "xml" : "binary") << " cut to " << keep << " of " << useful;
    c.nontrivial();
    bool thrown = false;
    c.step("read cut file");
    Leaf u;
    try { get(xml, u, "leaf", f); } catch (std::exception const&) { thrown = true; }
    std::remove(f.c_str());
    REQUIRE(thrown, "a file which is cut off is read without an error");
}

template <class A> struct In;
template <> struct In<boost::archive::text_oarchive> { typedef boost::archive::text_iarchive type; };
template <> struct In<boost::archive::binary_oarchive> { typedef boost::archive::binary_iarchive type; };

template <class M> Ref gen_for(Ctx& c) { return gen_ref(c, shape(c, 6)); }

/// elements with all bits used
template <class T, class P> Matrix<Dense,T,P> gen_dense(Ctx& c, size_t r, size_t n)
{
    Matrix<Dense,T,P> m(r, n);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) m(i,j) = static_cast<T>(std::is_same<T,float>::value ? gen_float(c) : gen_double(c));
    return m;
}
template <class T, class P> bool same_matrix(Matrix<Dense,T,P> const& a, Matrix<Dense,T,P> const& b)
{
    if (a.getNbRows() != b.getNbRows() || a.getNbColumns() != b.getNbColumns() || a.getSize() != b.getSize()) return false;
    for (size_t i = 0; i < a.getNbRows(); ++i) for (size_t j = 0; j < a.getNbColumns(); ++j) {
        T x = a(i,j), y = b(i,j);
        if (std::memcmp(&x, &y, sizeof(T))) return false;
    }
    return true;
}

template <class OA, class T, class P>
void matrices(Ctx& c, bool fixed, size_t fr = 0, size_t fn = 0)
{
    typedef Matrix<Dense,T,P> M;
    size_t n = c.size(1, 3);
    std::vector<M> src;
    std::stringstream ss;
    {
        OA oa(ss);
        for (size_t k = 0; k < n; ++k) {
            Shape sh = shape(c, 6);
            size_t r = fixed ? fr : sh.r, cols = fixed ? fn : sh.n;
            src.push_back(gen_dense<T,P>(c, r, cols));
            c.log() << r << "x" << cols << " ";
            c.nontrivial(r * cols > 1);
            M copy(src.back());
            M const& out = src.back();
            c.step("save");
            oa << out;
            REQUIRE(same_matrix(src.back(), copy), "saving changes the matrix");
        }
    }
    bool cut = !fixed && c.chance(1, 4);
    if (cut) {
        c.tag("cut");
        std::string s = ss.str();
        M m(gen_dense<T,P>(c, 2, 3));
        bool thrown = false;
        c.step("load cut");
        size_t full = 0;
        std::stringstream cs(s.substr(0, c.below(s.size() * 2 / 3 / n + 1)));
        try { typename In<OA>::type ia(cs); for (size_t k = 0; k < n; ++k) { ia >> m; ++full; } } catch (std::exception const&) { thrown = true; }
        REQUIRE(thrown, "an archive which is cut off is loaded without an error");
        return;
    }
    typename In<OA>::type ia(ss);
    M into(gen_dense<T,P>(c, fixed ? fr : c.size(0, 3), fixed ? fn : c.size(0, 3)));
    bool one = c.chance(1, 2);
    for (size_t k = 0; k < n; ++k) {
        M fresh(gen_dense<T,P>(c, fixed ? fr : c.size(0, 3), fixed ? fn : c.size(0, 3)));
        M& m = one ? into : fresh;
        M keep(m);
        c.step("load");
        ia >> m;
        REQUIRE(same_matrix(m, src[k]), "matrix number " << k << " loaded is " << show(to_ref(m)) << " instead of " << show(to_ref(src[k])));
        (void)keep;
    }
}

typedef SparseStorage<double,size_t,false,0> SpStore;
template <class OA> void sparse_store(Ctx& c)
{
    size_t n = c.size(0, 6), o = c.size(1, 5);
    SpStore s(n, o);
    std::vector<double> v; std::vector<size_t> k, f;
    for (size_t i = 0; i < n; ++i) { v.push_back(gen_double(c)); s.begin()[i] = v[i]; k.push_back(c.below(100)); s.beginKey()[i] = k[i]; }
    for (size_t i = 0; i < o; ++i) { f.push_back(c.below(100)); s.beginOffset()[i] = f[i]; }
    c.log() << n << " values " << o << " offsets"; c.nontrivial(n > 0);
    std::stringstream ss;
    { OA oa(ss); SpStore const& cs = s; oa << cs; }
    SpStore t(c.size(0, 3), c.size(1, 3));
    { typename In<OA>::type ia(ss); ia >> t; }
    REQUIRE(t.nnz() == n && t.sizeOffset() == o, "loaded storage has " << t.nnz() << " values and " << t.sizeOffset() << " offsets");
    REQUIRE(n == 0 || std::memcmp(v.data(), &t.begin()[0], n * 8) == 0, "values differ");
    REQUIRE(std::equal(k.begin(), k.end(), t.beginKey()), "keys differ");
    REQUIRE(std::equal(f.begin(), f.end(), t.beginOffset()), "offsets differ");
}

typedef boost::archive::text_oarchive TO;
typedef boost::archive::binary_oarchive BO;
typedef Parameter<size_t,ColumnMajor,FixedSize<2,3>> F23;
typedef Parameter<size_t,RowMajor,FixedSize<3,2>> F32;

} // namespace

LAW("files of settings", 1) { files<Doc>(c); }
LAW("files of one value", 1)
{
    switch (c.below(4)) { case 0: files<int>(c); break; case 1: files<double>(c); break; case 2: files<std::string>(c); break; default: files<boost::filesystem::path>(c); }
}
LAW("files cut off", 0.5) { cut(c); }
LAW("dense matrices, binary", 1) { if (c.chance(1, 2)) matrices<BO,double,PC>(c, false); else matrices<BO,float,PR>(c, false); }
LAW("dense matrices, text", 1) { if (c.chance(1, 2)) matrices<TO,double,PR>(c, false); else matrices<TO,float,PC>(c, false); }
LAW("fixed size matrices", 0.5) { if (c.chance(1, 2)) matrices<BO,double,F23>(c, true, 2, 3); else matrices<TO,float,F32>(c, true, 3, 2); }
LAW("sparse storages", 0.5) { if (c.chance(1, 2)) sparse_store<BO>(c); else sparse_store<TO>(c); }
LAW("nowhere to write", 0.1)
{
    bool xml = c.chance(1, 2);
    Leaf t = Gen<Leaf>::make(c);
    std::string f = c.chance(1, 2) ? c.scratch + "/no such directory/x" : c.scratch;
    c.log() << (xml ? "xml " : "binary ") << (f == c.scratch ? "to a directory" : "in a missing directory"); c.nontrivial();
    bool thrown = false;
    c.step("write");
    try { put(xml, t, "leaf", f, static_cast<int>(c.below(2)) * 2 - 1); } catch (std::exception const&) { thrown = true; }
    REQUIRE(thrown, "writing to a place which does not exist is not reported");
}
