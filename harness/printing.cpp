// MatrixIO: what is printed about a matrix is what it holds.
#include "bbgen.h"
#include "BlasBooster/Utilities/STLHelpers.h"
#include <iomanip>
#include "BlasBooster/Core/MatrixIO.h"
using namespace bb;

namespace {

struct Lines
{
    std::vector<std::string> v; size_t k = 0; std::string what;
    Lines(std::string const& text, std::string const& what) : what(what)
    {
        std::string l; std::istringstream is(text);
        while (std::getline(is, l)) v.push_back(l);
    }
    bool more() const { return k < v.size(); }
    std::string next() { REQUIRE(k < v.size(), what << ": the text ends after " << k << " lines"); return v[k++]; }
    void expect(std::string const& want) { std::string l = next(); REQUIRE(l == want, what << ": line " << k << " is '" << l << "' instead of '" << want << "'"); }
    void skip_blank() { while (more() && v[k].empty()) ++k; }
};

double number(std::string const& s, std::string const& what)
{
    char* e = nullptr;
    double x = std::strtod(s.c_str(), &e);
    REQUIRE(e && *e == 0 && !s.empty(), what << ": '" << s << "' is not a number");
    return x;
}
std::string printed(double x) { char b[64]; std::snprintf(b, sizeof(b), "%.10e", x); return b; }
template <class T> std::string shown(T x) { return printed(static_cast<double>(x)); }
std::string shown(int x) { return std::to_string(x); }

std::vector<std::string> split(std::string const& s) { std::istringstream is(s); std::vector<std::string> v; std::string w; while (is >> w) v.push_back(w); return v; }
std::string dim(size_t r, size_t n) { return std::to_string(r) + " x " + std::to_string(n); }

template <class T, class P>
void dense_text(Lines& l, Matrix<Dense,T,P> const& m, bool full)
{
    if (m.getNbRows() > 100 || m.getNbColumns() > 100) { l.expect("Matrix too large for printing."); return; }
    l.skip_blank();
    if (full) { l.expect(Matrix<Dense,T,P>::name()); l.expect("Dimension = " + dim(m.getNbRows(), m.getNbColumns())); }
    l.skip_blank();
    std::vector<size_t> ends;
    for (size_t i = 0; i < m.getNbRows(); ++i) {
        if (m.getNbColumns() == 0) continue;
        std::string line = l.next();
        auto w = split(line);
        REQUIRE(w.size() == m.getNbColumns(), l.what << ": row " << i << " has " << w.size() << " numbers: '" << line << "'");
        size_t pos = 0;
        for (size_t j = 0; j < w.size(); ++j) {
            REQUIRE(w[j] == shown(m(i,j)), l.what << ": element (" << i << "," << j << ") is shown as " << w[j] << " instead of " << shown(m(i,j)));
            pos = line.find(w[j], pos) + w[j].size();
            if (i == 0) ends.push_back(pos);
            else REQUIRE(ends[j] == pos, l.what << ": column " << j << " is not aligned in row " << i);
        }
    }
    l.skip_blank();
}

template <class T> std::vector<std::string> list(Lines& l, std::string const& head)
{
    std::string s = l.next();
    REQUIRE(s.compare(0, head.size(), head) == 0, l.what << ": '" << s << "' instead of " << head);
    return split(s.substr(head.size()));
}

template <class T, class P>
void sparse_text(Lines& l, Matrix<Sparse,T,P> const& m)
{
    if (m.getSize() > 100) { l.expect("SparseMatrix (Size = " + std::to_string(m.getSize()) + ") too large for printing."); return; }
    l.expect(Matrix<Sparse,T,P>::name());
    l.expect("Size = " + std::to_string(m.getSize()));
    l.expect("Dimension = " + dim(m.getNbRows(), m.getNbColumns()));
    auto v = list<T>(l, "Value array =");
    REQUIRE(v.size() == m.nnz(), l.what << ": " << v.size() << " values instead of " << m.nnz());
    for (size_t k = 0; k < v.size(); ++k) {
        double x = number(v[k], l.what), y = static_cast<double>(m.begin()[k]);
        REQUIRE(std::fabs(x - y) <= 1e-5 * std::fabs(y), l.what << ": value " << k << " is shown as " << v[k] << " instead of " << y);
    }
    auto key = list<T>(l, "Key array =");
    REQUIRE(key.size() == m.nnz(), l.what << ": " << key.size() << " keys instead of " << m.nnz());
    for (size_t k = 0; k < key.size(); ++k) REQUIRE(key[k] == std::to_string(m.beginKey()[k]), l.what << ": key " << k << " is shown as " << key[k]);
    auto off = list<T>(l, "Offset array =");
    size_t n = m.endOffset() - m.beginOffset();
    REQUIRE(off.size() == n, l.what << ": " << off.size() << " offsets instead of " << n);
    for (size_t k = 0; k < n; ++k) REQUIRE(off[k] == std::to_string(m.beginOffset()[k]), l.what << ": offset " << k << " is shown as " << off[k]);
    l.skip_blank();
}

template <class P>
void zero_text(Lines& l, Matrix<Zero,NullType,P> const& m)
{
    l.expect(Matrix<Zero,NullType,P>::name());
    l.expect("Size = " + std::to_string(m.getSize()));
    l.expect("Dimension = " + dim(m.getNbRows(), m.getNbColumns()));
}

template <class T, class P> void text_of(Lines& l, Matrix<Dense,T,P> const& m, bool full) { dense_text(l, m, full); }
template <class T, class P> void text_of(Lines& l, Matrix<Sparse,T,P> const& m, bool) { sparse_text(l, m); }
template <class P> void text_of(Lines& l, Matrix<Zero,NullType,P> const& m, bool) { zero_text(l, m); }

template <class M>
void show_one(Ctx& c, M const& m, bool full, std::string const& what)
{
    std::ostringstream os;
    if (full) os << fullprint; else if (c.chance(1, 2)) os << fullprint << shortprint;
    c.step("print " + what);
    os << m;
    Lines l(os.str(), what);
    text_of(l, m, full);
    REQUIRE(!l.more(), what << ": more text than expected: '" << l.v[l.k] << "'");
    // printing twice prints the same
    std::ostringstream a, b;
    if (full) { a << fullprint; b << fullprint; }
    a << m; b << m << m;
    REQUIRE(a.str() + [&]{ std::ostringstream t; if (full) t << fullprint; t << std::scientific << std::setprecision(10) << m; return t.str(); }() == b.str()
        || b.str() == a.str() + a.str(), what << ": the second print differs");
}

template <class T, class O>
void dense_law(Ctx& c)
{
    size_t r = c.size(0, 6), n = c.size(0, 6);
    if (c.chance(1, 12)) r = c.size(99, 102);
    if (c.chance(1, 12)) n = c.size(99, 102);
    Ref a = gen_ref(c, r, n, 1000);
    for (auto& x : a.v) { if (std::is_same<T,int>::value) x = std::trunc(x); else if (c.chance(1, 3)) x = static_cast<double>(static_cast<T>(std::ldexp(x / 3.0, static_cast<int>(c.sym(std::is_same<T,float>::value ? 100 : 900))))); }
    bool full = c.chance(1, 2);
    c.log() << show(a) << (full ? " full" : " short");
    c.nontrivial(r > 1 && n > 1);
    typedef Matrix<Dense,T,Parameter<size_t,O>> M;
    M m(r, n);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < n; ++j) m(i,j) = static_cast<T>(a(i,j));
    if (r && n && c.chance(1, 4)) {
        size_t sr = c.size(1, r), sn = c.size(1, n), i0 = c.size(0, r - sr), j0 = c.size(0, n - sn);
        c.log() << " sub " << sr << "x" << sn << "@(" << i0 << "," << j0 << ")";
        Matrix<Dense,T,Parameter<size_t,O,VariableSize,LeadingDimension>> s(m, sr, sn, i0, j0);
        show_one(c, s, full, "sub-matrix");
    } else show_one(c, m, full, "matrix");
}

template <class T, class P>
void sparse_law(Ctx& c)
{
    size_t r = c.size(0, 10), n = c.size(0, 10);
    if (c.chance(1, 10)) { r = 10; n = c.size(10, 11); }
    Ref a = gen_exact<T>(c, r, n);
    c.log() << show(a); c.nontrivial(a.nnz() > 1);
    show_one(c, sparse<T,P>(a), c.chance(1, 2), "sparse matrix");
}

void dynamic_law(Ctx& c)
{
    std::ostringstream os;
    if (c.chance(1, 8)) {
        os << DynamicMatrix();
        c.log() << "no matrix";
        REQUIRE(os.str() == "No Matrix found.", "null is shown as " << os.str());
        return;
    }
    size_t k = c.below(7), r = c.size(1, 6), n = c.size(1, 6);
    Ref a = gen_dyn_ref(c, k, r, n);
    bool full = c.chance(1, 2);
    c.log() << kind_name(k) << " " << show(a) << (full ? " full" : ""); c.nontrivial(a.nnz() > 0); c.tag(kind_name(k));
    DynamicMatrix d = make_dyn(c, k, a);
    c.step("print dynamic");
    if (full) os << fullprint;
    os << d;
    Lines l(os.str(), kind_name(k));
    switch (k) {
        case 0: text_of(l, *std::dynamic_pointer_cast<ZeM>(d), full); break;
        case 1: text_of(l, *std::dynamic_pointer_cast<SpF>(d), full); break;
        case 2: text_of(l, *std::dynamic_pointer_cast<DeF>(d), full); break;
        case 3: text_of(l, *std::dynamic_pointer_cast<SpD>(d), full); break;
        case 6: text_of(l, *std::dynamic_pointer_cast<DeD>(d), full); break;
        default: {
            // both parts, one after the other
            auto s = [&](auto const& x) { std::ostringstream t; if (full) t << fullprint; t << x.getMatrix1(); std::string y = t.str(); t << x.getMatrix2(); return t.str(); };
            std::string want = k == 4 ? s(*std::dynamic_pointer_cast<MuS>(d)) : s(*std::dynamic_pointer_cast<MuD>(d));
            REQUIRE(os.str() == want, "multiple matrix is shown as '" << os.str() << "' instead of '" << want << "'");
            return;
        }
    }
    l.skip_blank();
    REQUIRE(!l.more(), "more text than expected: '" << l.v[l.k] << "'");
}

} // namespace

LAW("dense double", 1) { dense_law<double,ColumnMajor>(c); }
LAW("dense float, row", 0.5) { dense_law<float,RowMajor>(c); }
LAW("dense int", 0.3) { dense_law<int,ColumnMajor>(c); }
LAW("sparse", 1) { switch (c.below(3)) { case 0: sparse_law<double,Parameter<>>(c); break; case 1: sparse_law<float,Parameter<>>(c); break; default: sparse_law<double,PR>(c); } }
LAW("zero", 0.1) { ZeM m(c.size(0, 200), c.size(0, 200)); c.log() << m.getNbRows() << "x" << m.getNbColumns(); c.nontrivial(m.getNbRows() != m.getNbColumns()); show_one(c, m, c.chance(1, 2), "zero matrix"); }
LAW("multiple", 0.5)
{
    Ref a = gen_ref(c, c.size(0, 5), c.size(0, 5));
    auto m = Build<MuD>::make(c, a);
    c.log() << show(a); c.nontrivial(a.nnz() > 0);
    std::ostringstream os; c.step("print multiple"); os << *m;
    Lines l(os.str(), "multiple matrix");
    text_of(l, m->getMatrix1(), false);
    // the offsets of the first part and the first line of the second one may share a line
    text_of(l, m->getMatrix2(), false);
}
LAW("dynamic", 1) { dynamic_law(c); }
LAW("lists", 0.3)
{
    std::vector<size_t> v(c.size(0, 8));
    std::vector<double> d;
    for (auto& x : v) { x = c.below(c.chance(1, 4) ? 1000000 : 10); d.push_back(static_cast<double>(x) / 4.0); }
    c.log() << v.size() << " numbers";
    c.nontrivial(v.size() > 1);
    std::ostringstream os, want;
    BlasBooster::operator << (BlasBooster::operator << (os, v), d);
    want << "size = " << v.size() << "\n";
    for (auto x : v) want << x << "\n";
    want << "size = " << d.size() << "\n";
    for (auto x : d) want << x << "\n";
    REQUIRE(os.str() == want.str(), "printed " << os.str() << " instead of " << want.str());
}
