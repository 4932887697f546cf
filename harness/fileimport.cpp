// Import of matrices from files: Matrix(file), operator >>, MatrixFileImporter.
#include "bbgen.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
#include "program.h"
#include <cstdio>
#include <sys/stat.h>
using namespace bb;

namespace {


template <class T>
void write(std::string const& name, std::vector<T> const& v, size_t bytes)
{
    std::ofstream os(name, std::ofstream::binary);
    os.write(reinterpret_cast<const char*>(v.data()), bytes);
}

struct Desc { size_t r, n, ldr, ldc, ro, co; };

std::string xml(Ctx& c, Desc const& d, std::string const& data)
{
    std::vector<std::string> tags;
    auto add = [&](char const* t, std::string const& v) { tags.push_back(std::string("<") + t + ">" + v + "</" + t + ">"); };
    add("nbRows", std::to_string(d.r)); add("nbColumns", std::to_string(d.n));
    add("rowLeadingDimension", std::to_string(d.ldr)); add("columnLeadingDimension", std::to_string(d.ldc));
    auto offset = [](size_t o) { return std::to_string(static_cast<long>(o)); };      // wrapped ones are written as negative numbers
    if (d.ro || c.chance(1, 2)) add("rowOffset", offset(d.ro));
    if (d.co || c.chance(1, 2)) add("columnOffset", offset(d.co));
    add("filename", data);
    if (c.chance(1, 2)) std::rotate(tags.begin(), tags.begin() + c.below(tags.size()), tags.end());
    std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\" ?>\n";
    for (auto& t : tags) s += t + (c.chance(1, 2) ? "\n" : "");
    return s;
}

/// the elements of a file, distinct, in every byte meaningful
template <class T> std::vector<T> content(Ctx& c, size_t n)
{
    std::vector<T> v(n);
    T base = static_cast<T>(1 + c.below(1000));
    for (size_t i = 0; i < n; ++i) v[i] = (base + static_cast<T>(i)) / static_cast<T>(3) * (i % 3 ? 1 : -1);
    return v;
}

template <class M> std::string bits_differ(M const& m, size_t i, size_t j)
{ std::ostringstream os; os.precision(17); os << "element (" << i << "," << j << ") is " << value_of(m(i,j)); return os.str(); }

template <class T, class O = ColumnMajor>
void window_law(Ctx& c, bool history)
{
    File data(c.scratch + "/m.dat"), desc(c.scratch + "/m.xml");
    typedef Matrix<Dense,T,Parameter<size_t,O>> M;
    M m;
    if (history) m.resize(c.size(0, 6), c.size(0, 6));
    for (size_t k = 0, n = history ? c.size(2, 4) : 1; k < n; ++k) {
        Desc d;
        d.ldr = c.size(1, c.chance(1, 10) ? 300 : 9); d.ldc = c.size(1, c.chance(1, 10) ? 60 : 9);
        if (c.chance(1, 150)) { d.ldr = gen_long(c); d.ldc = c.size(1, 3); if (c.chance(1, 3)) std::swap(d.ldr, d.ldc); }
        d.r = c.size(1, d.ldr); d.n = c.size(1, d.ldc);
        if (c.chance(1, 4)) d.r = d.ldr;
        if (c.chance(1, 4)) d.n = d.ldc;
        d.ro = c.size(0, d.ldr - d.r); d.co = c.size(0, d.ldc - d.n);
        auto v = content<T>(c, d.ldr * d.ldc);
        size_t need = (d.co + d.n - 1) * d.ldr + d.ro + d.r;         // elements up to the last one of the window
        if (d.r == d.ldr && d.n == d.ldc) need = v.size();
        int kind = static_cast<int>(c.below(8));
        // 0-2 whole file, 3 ends right after the window, 4 shorter than the window, 5 window outside, 6 file missing, 7 more data
        size_t bytes = v.size() * sizeof(T);
        bool refuse = false;
        if (kind == 3) bytes = need * sizeof(T);
        if (kind == 4) { bytes = c.chance(1, 2) ? need * sizeof(T) - 1 - c.below(sizeof(T)) : c.below(need * sizeof(T)); refuse = true; }
        Desc s(d);
        if (kind == 5) { refuse = true; if (c.chance(1, 2)) s.ro = d.ldr - d.r + 1 + c.below(3); else s.co = d.ldc - d.n + 1 + c.below(3);
            if (c.chance(1, 3)) { (c.chance(1, 2) ? s.ro : s.co) = 0 - c.size(1, 3); } }        // in front of the matrix of the file
        if (kind == 7) { v.push_back(T(7)); v.push_back(T(8)); bytes = v.size() * sizeof(T); }
        if (kind == 6) { std::remove(data.name.c_str()); refuse = true; } else write(data.name, v, bytes);
        { std::ofstream os(desc.name); os << xml(c, s, data.name); }
        c.log() << (k ? "; " : "") << d.r << "x" << d.n << "@(" << s.ro << "," << s.co << ") of " << d.ldr << "x" << d.ldc << " kind " << kind;
        c.tag(refuse ? "refused" : (d.r == d.ldr && d.n == d.ldc) ? "whole" : "window");
        c.nontrivial(refuse || d.r != d.ldr || d.n != d.ldc);
        c.step("import");
        bool thrown = false;
        try {
            if (!history && c.chance(1, 2)) { M x{filesystem::path(desc.name)}; m = x; }
            else { std::ifstream is(desc.name); is >> m; }
        } catch (std::exception const&) { thrown = true; }
        REQUIRE(thrown == refuse, (refuse ? "import is accepted although " : "import is refused: ")
            << (kind == 4 ? "the file is too short" : kind == 5 ? "the window leaves the matrix of the file" : kind == 6 ? "there is no such file" : "valid file"));
        if (refuse) continue;
        REQUIRE(m.getNbRows() == d.r && m.getNbColumns() == d.n, "imported matrix is " << m.getNbRows() << "x" << m.getNbColumns());
        for (size_t j = 0; j < d.n; ++j) for (size_t i = 0; i < d.r; ++i) {
            T want = v[(d.co + j) * d.ldr + d.ro + i], have = m(i,j);
            REQUIRE(std::memcmp(&want, &have, sizeof(T)) == 0, bits_differ(m, i, j) << " instead of " << want);
        }
    }
}

/// bytes of a missing window must not be undefined: a random description never crashes and never invents elements
template <class T>
void any_law(Ctx& c)
{
    File data(c.scratch + "/m.dat"), desc(c.scratch + "/m.xml");
    auto v = content<T>(c, c.size(0, 30));
    size_t bytes = v.size() * sizeof(T);
    if (bytes && c.chance(1, 4)) bytes -= c.below(sizeof(T));
    write(data.name, v, bytes);
    Desc d{c.size(0, 5), c.size(0, 5), c.size(0, 7), c.size(0, 7), c.size(0, 4), c.size(0, 4)};
    { std::ofstream os(desc.name); os << xml(c, d, data.name); }
    c.log() << d.r << "x" << d.n << "@(" << d.ro << "," << d.co << ") of " << d.ldr << "x" << d.ldc << " from " << bytes << " bytes";
    bool inside = d.r + d.ro <= d.ldr && d.n + d.co <= d.ldc;
    bool there = d.r * d.n == 0 || ((d.co + d.n - 1) * d.ldr + d.ro + d.r) * sizeof(T) <= bytes;
    c.tag(!inside ? "outside" : there ? "there" : "short");
    c.nontrivial(d.r * d.n > 0);
    Matrix<Dense,T> m(2, 2);
    bool thrown = false;
    c.step("import");
    try { std::ifstream is(desc.name); is >> m; } catch (std::exception const&) { thrown = true; }
    if (d.r * d.n == 0 && inside) return;        // whether an empty window needs data is left open
    REQUIRE(thrown == !(inside && there), (thrown ? "refused" : "accepted"));
    if (thrown) return;
    REQUIRE(m.getNbRows() == d.r && m.getNbColumns() == d.n, "imported matrix is " << m.getNbRows() << "x" << m.getNbColumns());
    for (size_t j = 0; j < d.n; ++j) for (size_t i = 0; i < d.r; ++i) {
        T want = v[(d.co + j) * d.ldr + d.ro + i], have = m(i,j);
        REQUIRE(std::memcmp(&want, &have, sizeof(T)) == 0, bits_differ(m, i, j) << " instead of " << want);
    }
}

/// names without a directory, of matrices which have the same names in several directories
void relative_law(Ctx& c)
{
    static const char* dirs[] = {"/here", "/there", "/elsewhere"};
    struct Dirs {
        std::string base;
        Dirs(std::string const& b) : base(b) { for (auto d : dirs) mkdir((base + d).c_str(), 0700); }
        ~Dirs() { for (auto d : dirs) { for (auto f : {"/d.dat", "/s.txt", "/s.xml"}) std::remove((base + d + f).c_str()); rmdir((base + d).c_str()); } }
    } made(c.scratch);
    size_t r = c.size(1, 5), n = c.size(1, 5), used = c.below(3), described = c.below(3);
    std::vector<double> v[3];
    bool there[3];
    for (size_t k = 0; k < 3; ++k) {
        v[k] = content<double>(c, r * n);
        for (auto& x : v[k]) x += 10000.0 * (k + 1);
        there[k] = c.chance(3, 4);
        if (there[k]) write(c.scratch + dirs[k] + "/d.dat", v[k], r * n * sizeof(double));
    }
    // the current directory is the first one
    bool full = c.chance(1, 3), old = c.chance(1, 2);
    std::string name = full ? c.scratch + dirs[used] + "/d.dat" : used ? ".." + std::string(dirs[used]) + "/d.dat" : c.chance(1, 2) ? "d.dat" : "./d.dat";
    std::string desc = (c.chance(1, 2) ? c.scratch : "..") + dirs[described] + (old ? "/s.txt" : "/s.xml");
    if (!described && c.chance(1, 2)) desc = old ? "s.txt" : "s.xml";
    { Directory d(c.scratch + dirs[0]); std::ofstream os(desc); if (old) os << r << " " << n << " " << name; else os << xml(c, Desc{r, n, r, n, 0, 0}, name); }
    c.log() << r << "x" << n << " from " << (full ? "(scratch)" + std::string(dirs[used]) + "/d.dat" : name) << " described in" << dirs[described]
        << (there[0] ? "; here" : "") << (there[1] ? "; there" : "") << (there[2] ? "; elsewhere" : "") << (old ? "; importer" : "");
    c.tag(there[used] ? "valid" : "refused"); c.nontrivial();
    c.step("import");
    Matrix<Dense,double> m;
    bool thrown = false;
    {
        Directory d(c.scratch + dirs[0]);
        try {
            if (old) m = MatrixFileImporter(filesystem::path(desc))();
            else m = Matrix<Dense,double>{filesystem::path(desc)};
        } catch (std::exception const&) { thrown = true; }
    }
    REQUIRE(thrown == !there[used], (thrown ? "the file is refused" : "a missing file is accepted"));
    if (thrown) return;
    REQUIRE(m.getNbRows() == r && m.getNbColumns() == n, "imported matrix is " << m.getNbRows() << "x" << m.getNbColumns());
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < r; ++i)
        REQUIRE(m(i,j) == v[used][j * r + i], bits_differ(m, i, j) << " instead of " << v[used][j * r + i]);
}

void importer(Ctx& c)
{
    bool spaces = c.chance(1, 4);
    File data(c.scratch + (spaces ? "/a matrix.dat" : "/i.dat")), desc(c.scratch + "/i.txt");
    size_t r = c.size(1, c.chance(1, 10) ? 200 : 8), n = c.size(1, 8);
    auto v = content<double>(c, r * n);
    int kind = static_cast<int>(c.below(6));     // 0-2 valid, 3 short, 4 no data file, 5 bad description
    size_t bytes = v.size() * 8;
    if (kind == 3) bytes = c.below(bytes);
    if (kind == 2) { v.push_back(1.0); bytes += 8; }
    if (kind == 4) std::remove(data.name.c_str()); else write(data.name, v, bytes);
    bool no_desc = false;
    {
        std::ofstream os(desc.name);
        if (kind == 5) {
            switch (c.below(4)) {
                case 0: os << r; break;
                case 1: os << r << " x" << n << " " << data.name; break;
                case 2: os << r << " " << n; break;
                default: no_desc = true;
            }
        } else {
            os << r << (c.chance(1, 2) ? "\n" : " ") << n << (c.chance(1, 2) ? "\n" : "  ");
            if (spaces) os << '"' << data.name << '"'; else os << data.name;
            if (c.chance(1, 2)) os << "\n";
        }
    }
    if (no_desc) std::remove(desc.name.c_str());
    c.log() << r << "x" << n << " kind " << kind << (spaces ? " name with a space" : "");
    c.tag(kind <= 2 ? "valid" : "refused");
    c.nontrivial(kind > 2 || (r > 1 && n > 1));
    bool thrown = false;
    c.step("MatrixFileImporter");
    try {
        std::shared_ptr<MatrixFactory> f = std::make_shared<MatrixFileImporter>(filesystem::path(desc.name));
        REQUIRE(kind != 5, "a wrong description is accepted");
        REQUIRE(f->getNbRows() == r && f->getNbColumns() == n, "importer says " << f->getNbRows() << "x" << f->getNbColumns());
        for (int k = 0; k < 2; ++k) {               // the factory can be used again
            Matrix<Dense,double> m = (*f)();
            REQUIRE(kind < 3, "a file which is too short or missing is accepted");
            REQUIRE(m.getNbRows() == r && m.getNbColumns() == n, "imported matrix is " << m.getNbRows() << "x" << m.getNbColumns());
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < r; ++i)
                REQUIRE(m(i,j) == v[j * r + i], bits_differ(m, i, j) << " instead of " << v[j * r + i]);
        }
    } catch (BlasBoosterException const&) { thrown = true; }
    REQUIRE(thrown == (kind > 2), "valid files are refused");
}

} // namespace

LAW("window of a file, double", 1) { window_law<double>(c, false); }
LAW("window of a file, float", 0.5) { window_law<float>(c, false); }
LAW("window of a file, row-major", 0.5) { if (c.chance(1, 2)) window_law<double,RowMajor>(c, false); else window_law<float,RowMajor>(c, true); }
LAW("import again and again", 0.5) { window_law<double>(c, true); }
LAW("any description, double", 0.5) { any_law<double>(c); }
LAW("any description, float", 0.3) { any_law<float>(c); }
LAW("importer", 0.7) { importer(c); }
LAW("relative names", 0.3) { relative_law(c); }

