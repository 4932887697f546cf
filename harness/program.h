// Running the programs of the repository as functions.
#pragma once
#include "bbgen.h"
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <cstdio>
#include <cstring>
#include <unistd.h>

namespace bb {

using boost::property_tree::ptree;

struct Quiet            // the programs write to std::cout and std::cerr
{
    std::ostringstream out, err;
    std::streambuf *o, *e;
    std::ios state, state2;
    Quiet() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())), state(nullptr), state2(nullptr) { state.copyfmt(std::cout); state2.copyfmt(std::cerr); }
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.copyfmt(state); std::cerr.copyfmt(state2); }
};
struct File { std::string name; File(std::string const& n) : name(n) { std::remove(name.c_str()); } ~File() { std::remove(name.c_str()); } };
struct Directory        // the programs write to the current directory
{
    char before[4096];
    Directory(std::string const& d) { if (!getcwd(before, sizeof before) || chdir(d.c_str())) throw std::runtime_error("chdir"); }
    ~Directory() { if (chdir(before)) std::abort(); }
};

inline int run(int (*program)(int, char**), std::vector<std::string> const& args, std::string* out = nullptr)
{
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    Quiet q;
    int rc = program((int)args.size(), argv.data());
    if (out) *out = q.out.str();
    return rc;
}
inline bool exists(std::string const& name) { return (bool)std::ifstream(name); }
inline std::string read_text(std::string const& name)
{
    std::ifstream is(name, std::ifstream::binary);
    REQUIRE(is, "there is no file " << name.substr(name.rfind('/') + 1));
    return std::string((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
}
inline std::vector<double> read_doubles(std::string const& name)
{
    std::string s = read_text(name);
    REQUIRE(s.size() % sizeof(double) == 0, "the file has " << s.size() << " bytes");
    std::vector<double> v(s.size() / sizeof(double));
    if (!v.empty()) std::memcpy(v.data(), s.data(), s.size());
    return v;
}
template <class T> ptree array(std::vector<T> const& v)
{
    ptree t;
    for (T x : v) { ptree e; e.put_value(x); t.push_back(std::make_pair("", e)); }
    return t;
}
/// a matrix of doubles, described by an xml file
struct MatrixFile
{
    File dat, xml;
    MatrixFile(std::string const& base, Ref const& v) : dat(base + ".dat"), xml(base + ".xml")
    {
        std::ofstream os(dat.name, std::ofstream::binary);
        os.write(reinterpret_cast<const char*>(v.v.data()), v.v.size() * sizeof(double));
        std::ofstream(xml.name) << "<nbRows>" << v.r << "</nbRows><nbColumns>" << v.c << "</nbColumns><rowLeadingDimension>" << v.r
            << "</rowLeadingDimension><columnLeadingDimension>" << v.c << "</columnLeadingDimension><filename>" << dat.name << "</filename>";
    }
};

} // namespace bb
