// Stand-in for clara.hpp (https://github.com/catchorg/Clara), which is not installed here: the part of its
// documented interface which the programs of BlasBooster use.
#pragma once
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace clara {

struct Args
{
    std::vector<std::string> v;
    Args(int argc, char const* const* argv) : v(argv + 1, argv + argc) {}
};

struct Result
{
    std::string error;
    explicit operator bool () const { return error.empty(); }
    bool operator ! () const { return !error.empty(); }
    std::string errorMessage() const { return error; }
};

struct Item
{
    std::vector<std::string> names;     // empty for a positional argument
    bool flag = false, must = false, seen = false;
    std::function<bool(std::string const&)> set;
    std::string hint, text;
};

template <class T> bool convert(std::string const& s, T& t)
{
    std::istringstream is(s);
    T x;
    if (!(is >> x) || !(is >> std::ws).eof()) return false;
    t = x;
    return true;
}
inline bool convert(std::string const& s, std::string& t) { t = s; return true; }

struct Opt
{
    Item i;
    template <class T> Opt(T& t, std::string const& hint) { i.hint = hint; i.set = [&t](std::string const& s) { return convert(s, t); }; }
    explicit Opt(bool& b) { i.flag = true; i.set = [&b](std::string const&) { b = true; return true; }; }
    Opt& operator [] (std::string const& n) { i.names.push_back(n); return *this; }
    Opt& operator () (std::string const& t) { i.text = t; return *this; }
    Opt& required() { i.must = true; return *this; }
};
struct Arg
{
    Item i;
    template <class T> Arg(T& t, std::string const& hint) { i.hint = hint; i.set = [&t](std::string const& s) { return convert(s, t); }; }
    Arg& operator () (std::string const& t) { i.text = t; return *this; }
    Arg& required() { i.must = true; return *this; }
};
struct Help : Opt
{
    explicit Help(bool& b) : Opt(b) { i.names = {"-?", "-h", "--help"}; i.text = "display usage information"; }
};

struct Parser
{
    std::vector<Item> items;
    Result parse(Args const& args)
    {
        Result r;
        for (size_t k = 0; k < args.v.size(); ++k) {
            std::string a = args.v[k], value;
            Item* found = nullptr;
            bool option = a.size() > 1 && a[0] == '-', has = false;
            if (option) {
                size_t p = a.find_first_of("=:");
                if (p != std::string::npos) { value = a.substr(p + 1); a = a.substr(0, p); has = true; }
                for (auto& i : items) for (auto& n : i.names) if (n == a) found = &i;
            } else {
                for (auto& i : items) if (!found && i.names.empty() && !i.seen) { found = &i; value = a; has = true; }
            }
            if (!found) { r.error = "Unrecognised token: " + args.v[k]; return r; }
            if (!found->flag && !has) {
                if (++k == args.v.size()) { r.error = "Expected argument following " + a; return r; }
                value = args.v[k];
            }
            if (!found->set(value)) { r.error = "Unable to convert '" + value + "'"; return r; }
            found->seen = true;
        }
        for (auto& i : items) if (i.must && !i.seen) r.error = "Expected: " + i.hint;
        return r;
    }
};
template <class A, class B> auto operator | (A const& a, B const& b) -> decltype(a.i, b.i, Parser()) { Parser p; p.items = {a.i, b.i}; return p; }
template <class B> auto operator | (Parser p, B const& b) -> decltype(b.i, Parser()) { p.items.push_back(b.i); return p; }
inline std::ostream& operator << (std::ostream& os, Parser const& p)
{
    os << "usage:\n";
    for (auto& i : p.items) { for (auto& n : i.names) os << " " << n; os << " <" << i.hint << "> " << i.text << "\n"; }
    return os;
}

} // namespace clara
