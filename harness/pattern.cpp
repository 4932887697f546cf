// PatternGenerator: the xpm image of a matrix.
#include "bbgen.h"
#include "BlasBooster/Core/PatternGenerator.h"
#include "xpm.h"
#include <cstdio>
using namespace bb;

namespace {

typedef PatternGenerator::Color Color;

template <class M>
void check(Ctx& c, M const& m, Ref const& a, std::vector<Color> const& palette, std::string const& bi, std::string const& bc)
{
    std::string file = c.scratch + "/p.xpm";
    if (c.chance(1, 4)) { std::ofstream os(file); os << std::string(5000, 'x'); }        // an older, longer file is replaced
    PatternGenerator::Settings s;
    s.set_palette(palette).set_background_index(bi).set_background_color(bc);
    c.step("PatternGenerator");
    PatternGenerator gen(s);
    gen(m, file);
    std::ifstream is(file);
    std::string text((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    std::remove(file.c_str());
    Image im = parse(text);
    REQUIRE(im.w == a.c && im.h == a.r, "image is " << im.w << " wide and " << im.h << " high");
    REQUIRE(im.colors == palette.size() + 1 && im.cpp == 1, "image has " << im.colors << " colors with " << im.cpp << " characters");
    REQUIRE(im.strings.size() == 1 + im.colors + a.r, "file has " << im.strings.size() << " strings");
    for (size_t k = 0; k < im.colors; ++k) {
        std::string want = k < palette.size() ? palette[k].index + "\tc #" + palette[k].color : bi + "\tc #" + bc;
        REQUIRE(im.strings[1 + k] == want, "color " << k << " is '" << im.strings[1 + k] << "' instead of '" << want << "'");
    }
    for (size_t i = 0; i < a.r; ++i) {
        std::string want;
        for (size_t j = 0; j < a.c; ++j) {
            std::string p = bi;
            for (auto const& k : palette) if (std::fabs(a(i,j)) >= k.threshold) { p = k.index; break; }
            want += p;
        }
        REQUIRE(im.strings[1 + im.colors + i] == want, "row " << i << " is '" << im.strings[1 + im.colors + i] << "' instead of '" << want << "'");
    }
}

std::vector<Color> gen_palette(Ctx& c, std::string& bi, std::string& bc)
{
    static const std::string chars = "abcdefXYZ0123 .+#*";
    size_t start = c.below(chars.size());
    auto color = [&]() { std::string s; for (int k = 0; k < 6; ++k) s += "0123456789ABCDEF"[c.below(16)]; return s; };
    bi = chars.substr(start, 1); bc = color();
    std::vector<Color> p;
    size_t n = c.size(0, 5);
    for (size_t k = 0; k < n; ++k) {
        double t = c.chance(1, 4) ? std::pow(10.0, -static_cast<double>(c.below(12))) : static_cast<double>(c.below(34)) / 4.0;
        p.push_back(Color(chars.substr((start + 1 + k) % chars.size(), 1), color(), t));
    }
    if (c.chance(2, 3)) {                       // usual: descending thresholds
        std::vector<double> t; for (auto& x : p) t.push_back(x.threshold);
        std::sort(t.rbegin(), t.rend());
        for (size_t k = 0; k < n; ++k) p[k].threshold = t[k];
    }
    return p;
}

template <class T, class O> void law(Ctx& c)
{
    typedef Matrix<Dense,T,Parameter<size_t,O>> M;
    typedef Matrix<Dense,T,Parameter<size_t,O,VariableSize,LeadingDimension>> S;
    std::string bi, bc;
    auto palette = gen_palette(c, bi, bc);
    size_t r = c.size(0, c.big(8)), n = c.size(0, c.big(8));
    if (c.chance(1, 20)) n = c.size(100, 400);
    if (c.chance(1, 250)) { Shape s = shape_of_lines(c); r = s.r; n = s.n; }
    Ref a = gen_ref(c, r, n, 40);
    if (std::is_same<T,int>::value) for (auto& x : a.v) x = std::trunc(x);
    else for (auto& x : a.v) if (c.chance(1, 6)) {
        // magnitudes at and next to a threshold
        double t = palette.empty() ? 1.0 : palette[c.below(palette.size())].threshold;
        int d = static_cast<int>(c.below(3));
        double y = d == 0 ? t : d == 1 ? std::nextafter(t, 0.0) : std::nextafter(t, 1e9);
        x = static_cast<double>(static_cast<T>(c.chance(1, 2) ? y : -y));
    }
    if (!std::is_same<T,int>::value && c.chance(1, 5)) {
        // values of every size
        Pool pool(c, c.chance(1, 2) ? 10 : 120);
        bool plain = a.plain;
        for (auto& x : a.v) if (c.chance(1, 3)) { x = static_cast<double>(static_cast<T>(pool.any(c))); plain = false; }
        a.plain = plain; c.tag("wide values");
        for (auto& p : palette) if (c.chance(1, 4)) p.threshold = pool.positive(c);
    }
    c.log() << show(a) << " with " << palette.size() << " colors:";
    for (auto& p : palette) c.log() << " " << p.index << ">=" << p.threshold;
    std::set<std::string> used;
    for (double x : a.v) { std::string p = bi; for (auto const& k : palette) if (std::fabs(x) >= k.threshold) { p = k.index; break; } used.insert(p); }
    c.nontrivial(used.size() > 1);
    c.tag(std::to_string(used.size()) + " colors used");
    M m(a.r, a.c);
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) m(i,j) = static_cast<T>(a(i,j));
    if (r && n && c.chance(1, 3)) {
        size_t sr = c.size(1, r), sn = c.size(1, n), i0 = c.size(0, r - sr), j0 = c.size(0, n - sn);
        c.log() << " sub " << sr << "x" << sn << "@(" << i0 << "," << j0 << ")";
        S s(m, sr, sn, i0, j0);
        check(c, s, sub(a, sr, sn, i0, j0), palette, bi, bc);
        c.tag("sub-matrix");
    } else check(c, m, a, palette, bi, bc);
}

} // namespace

LAW("pattern of doubles", 1) { law<double,ColumnMajor>(c); }
LAW("pattern of floats", 0.5) { law<float,ColumnMajor>(c); }
LAW("pattern of a row-major matrix", 0.5) { law<double,RowMajor>(c); }
LAW("pattern of integers", 0.3) { law<int,ColumnMajor>(c); }
LAW("nowhere to write", 0.1)
{
    Ref a = gen_ref(c, c.size(1, 3), c.size(1, 3));
    DeD m = dense<double>(a);
    std::string bi, bc;
    PatternGenerator::Settings s;
    s.set_palette(gen_palette(c, bi, bc)).set_background_index(bi).set_background_color(bc);
    std::string f = c.chance(1, 2) ? c.scratch + "/no such directory/x.xpm" : c.scratch;
    c.log() << show(a) << (f == c.scratch ? " to a directory" : " to a missing directory"); c.nontrivial();
    bool thrown = false;
    try { PatternGenerator gen(s); gen(m, f); } catch (std::exception const&) { thrown = true; }
    REQUIRE(thrown, "writing to a place which does not exist is not reported");
}
