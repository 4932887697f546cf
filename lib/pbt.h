// Small property-based testing engine used by every harness in /verif/harness.
//
// * A law is a function of a Ctx.  Every random decision it takes is drawn from the Ctx and is
//   recorded, so a case IS its sequence of choices: replay feeds the sequence back, shrinking
//   deletes/zeroes/lowers entries of the sequence (missing entries read as 0).
// * Cases run in a forked child, so that a crash, a sanitizer report, a failed assertion or an
//   endless loop of the code under test is a failure of the case (with its choices at hand in
//   shared memory) and not of the check.
// * A run is a pure function of the code, the seed and the case count.
#pragma once

#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline uint64_t hash_str(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

constexpr size_t MAX_CHOICES = 1u << 17;
constexpr size_t BULK_AFTER = 20000;

struct Shared
{
    volatile uint64_t case_idx;
    volatile uint64_t nchoices;
    volatile uint32_t status;        // 0 running, 1 finished, 2 failed
    char msg[8192];
    char step[1024];
    uint64_t choices[MAX_CHOICES];
};

class Ctx
{
public:
    Ctx(Shared* sh, uint64_t seed) : sh(sh), state(seed) { sh->nchoices = 0; }
    Ctx(Shared* sh, std::vector<uint64_t> const& rep, bool) : sh(sh), replay(&rep) { sh->nchoices = 0; }

    /// uniform in [0,n)
    uint64_t below(uint64_t n)
    {
        if (n == 0) n = 1;
        if (bulk_) return scaled(mix(bulk_ += 0x9E3779B97F4A7C15ull), n);
        if (sh->nchoices >= BULK_AFTER) { bulk(); return below(n); }
        return recorded(n);
    }
    /// From here on a case derives its decisions from one more recorded choice: for the elements of large inputs.
    /// Happens by itself when a case has taken very many decisions.
    void bulk() { if (!bulk_) bulk_ = mix(recorded(1ull << 32)) | 1; }
    uint64_t recorded(uint64_t n)
    {
        uint64_t v;
        if (replay) {
            v = pos < replay->size() ? (*replay)[pos] : 0;
            ++pos;
            if (v >= n) v = n - 1;
        } else {
            state += 0x9E3779B97F4A7C15ull;
            uint64_t x = mix(state);
            v = scaled(x, n);
        }
        if (sh->nchoices < MAX_CHOICES) { sh->choices[sh->nchoices] = v; sh->nchoices = sh->nchoices + 1; }
        return v;
    }
    /// uniform in [lo,hi]; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    /// shrinks towards 0 then small magnitude
    int64_t sym(int64_t m) { uint64_t v = below(2 * m + 1); return (v & 1) ? -static_cast<int64_t>((v + 1) / 2) : static_cast<int64_t>(v / 2); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // shrinks to false
    size_t size(size_t lo, size_t hi) { return static_cast<size_t>(range(lo, hi)); }
    /// an upper limit of sizes: now and then (decided once per case) eight times as large
    size_t big(size_t hi) { if (big_ < 0) big_ = chance(1, 50); return big_ ? 8 * hi : hi; }
    template <class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }

    void tag(std::string const& t) { tags.insert(t); }
    void nontrivial(bool b = true) { nt = nt || b; }
    bool is_nontrivial() const { return nt; }
    /// human readable description of the generated input
    std::ostream& log() { return description; }
    std::string desc() const { return description.str(); }
    /// name of the step being executed (shown when the code under test crashes)
    void step(std::string const& s) { std::snprintf(sh->step, sizeof(sh->step), "%s", s.c_str()); }
    [[noreturn]] void fail(std::string const& m) { throw Failure{m}; }

    std::set<std::string> tags;
    std::string scratch;      // private directory of this run, for laws that need files
private:
    Shared* sh;
    uint64_t state = 0;
    std::vector<uint64_t> const* replay = nullptr;
    size_t pos = 0;
    int big_ = -1;
    uint64_t bulk_ = 0;
    static uint64_t scaled(uint64_t x, uint64_t n) { return static_cast<uint64_t>((static_cast<unsigned __int128>(x) * n) >> 64); }
    bool nt = false;
    std::ostringstream description;
};

typedef std::function<void(Ctx&)> LawFn;

struct Law { std::string name; double weight; bool once; LawFn fn; };

inline std::vector<Law>& laws() { static std::vector<Law> v; return v; }

struct Reg
{
    Reg(std::string name, double weight, LawFn fn, bool once = false) { laws().push_back({name, weight, once, fn}); }
};

struct Finding { std::string id; std::string what; LawFn fn; };
inline std::vector<Finding>& findings() { static std::vector<Finding> v; return v; }
struct RegFinding { RegFinding(std::string id, std::string what, LawFn fn) { findings().push_back({id, what, fn}); } };

#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
/// LAW("name", weight) { ... body using c ... }
#define LAW(name, weight) \
    static void PBT_CAT(law_fn_, __LINE__)(pbt::Ctx& c); \
    static pbt::Reg PBT_CAT(law_reg_, __LINE__)(name, weight, PBT_CAT(law_fn_, __LINE__)); \
    static void PBT_CAT(law_fn_, __LINE__)([[maybe_unused]] pbt::Ctx& c)
/// a fixed input, run once per process
#define PINNED(name) \
    static void PBT_CAT(law_fn_, __LINE__)(pbt::Ctx& c); \
    static pbt::Reg PBT_CAT(law_reg_, __LINE__)(name, 0, PBT_CAT(law_fn_, __LINE__), true); \
    static void PBT_CAT(law_fn_, __LINE__)([[maybe_unused]] pbt::Ctx& c)
/// the failing input of a recorded known finding
#define KNOWN(id, what) \
    static void PBT_CAT(law_fn_, __LINE__)(pbt::Ctx& c); \
    static pbt::RegFinding PBT_CAT(law_reg_, __LINE__)(id, what, PBT_CAT(law_fn_, __LINE__)); \
    static void PBT_CAT(law_fn_, __LINE__)([[maybe_unused]] pbt::Ctx& c)

#define REQUIRE(cond, text) \
    do { if (!(cond)) { std::ostringstream pbt_os; pbt_os.precision(17); pbt_os << text; throw pbt::Failure{pbt_os.str()}; } } while (0)

// ---------------------------------------------------------------------------------------------

inline Shared* make_shared_mem()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
    return static_cast<Shared*>(p);
}

inline std::string& scratch_dir() { static std::string s; return s; }
inline std::string& err_file() { static std::string s; return s; }
inline Shared*& g_shared() { static Shared* s = nullptr; return s; }

inline void on_cpu_limit(int)
{
    Shared* sh = g_shared();
    const char* m = "the case used more than 20 s of CPU time (cases normally need milliseconds): endless loop in step ";
    std::strcpy(sh->msg, m);
    std::strncat(sh->msg, sh->step, sizeof(sh->msg) - std::strlen(m) - 1);
    sh->status = 2;
    _exit(78);
}

inline void arm(int seconds)
{
    struct itimerval t = {};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

/// run one case in this process; returns empty string when it holds
inline bool run_case(LawFn const& fn, Ctx& c, Shared* sh, std::string& msg)
{
    sh->step[0] = 0;
    c.scratch = scratch_dir();
    try {
        arm(20);
        fn(c);
        arm(0);
        return true;
    } catch (Failure const& f) {
        msg = f.msg;
    } catch (std::exception const& e) {
        msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
        if (sh->step[0]) msg += std::string(" [step ") + sh->step + "]";
    } catch (...) {
        msg = "unexpected exception of unknown type";
    }
    arm(0);
    return false;
}

inline void child_setup()
{
    g_shared() = g_shared();
    std::signal(SIGPROF, on_cpu_limit);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int fd = ::open(err_file().c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (fd >= 0) { dup2(fd, 2); ::close(fd); }
    int nul = ::open("/dev/null", O_WRONLY);
    if (nul >= 0) { dup2(nul, 1); ::close(nul); }
}

inline std::string crash_text(int st, Shared* sh)
{
    std::ostringstream os;
    if (WIFSIGNALED(st)) os << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    else os << "terminated with exit code " << WEXITSTATUS(st);
    if (sh->step[0]) os << " in step " << sh->step;
    std::ifstream is(err_file());
    std::string line; int n = 0;
    while (std::getline(is, line)) {
        if (line.find("ERROR: ") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos
            || line.find("ssertion") != std::string::npos || line.find("terminate called") != std::string::npos
            || line.find("what()") != std::string::npos || line.find("    #") == 0) {
            if (++n > 14) break;
            os << "\n" << line.substr(0, 300);
        }
    }
    return os.str();
}

struct Outcome { bool ok = true; bool broken = false; std::string msg; std::string desc; std::vector<uint64_t> choices; };

/// replay a choice sequence in a forked child
inline Outcome replay_case(LawFn const& fn, std::vector<uint64_t> const& choices, Shared* sh)
{
    Outcome o;
    sh->status = 0; sh->msg[0] = 0; sh->step[0] = 0; sh->nchoices = 0;
    int pfd[2];
    if (pipe(pfd)) { o.broken = true; return o; }
    std::cout.flush(); std::cerr.flush();
    pid_t pid = fork();
    if (pid == 0) {
        ::close(pfd[0]);
        child_setup();
        Ctx c(sh, choices, true);
        std::string msg;
        bool ok = run_case(fn, c, sh, msg);
        std::string d = c.desc();
        if (d.size() > 60000) d.resize(60000);
        if (!ok) std::snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
        sh->status = ok ? 1 : 2;
        ssize_t w = ::write(pfd[1], d.data(), d.size()); (void)w;
        _exit(ok ? 0 : 77);
    }
    ::close(pfd[1]);
    char buf[4096]; ssize_t r;
    while ((r = ::read(pfd[0], buf, sizeof(buf))) > 0) o.desc.append(buf, r);
    ::close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    o.choices.assign(sh->choices, sh->choices + sh->nchoices);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 1) { o.ok = true; return o; }
    o.ok = false;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.broken = true; }   // memory guard, not a verdict
    o.msg = sh->status == 2 ? std::string(sh->msg) : crash_text(st, sh);
    return o;
}

inline bool simpler(std::vector<uint64_t> const& a, std::vector<uint64_t> const& b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline Outcome shrink(LawFn const& fn, Outcome best, Shared* sh, double max_seconds)
{
    auto t0 = std::chrono::steady_clock::now();
    int attempts = 0;
    auto spent = [&]() { return attempts > 4000 ||
        std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > max_seconds; };
    bool hang = best.msg.find("endless loop") != std::string::npos;
    if (hang) return best;
    auto attempt = [&](std::vector<uint64_t> const& cand) {
        if (spent()) return false;
        ++attempts;
        Outcome o = replay_case(fn, cand, sh);
        if (!o.ok && !o.broken && o.msg.find("endless loop") == std::string::npos && simpler(o.choices, best.choices)) { best = o; return true; }
        return false;
    };
    bool progress = true;
    while (progress && !spent()) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1 && !spent(); len /= 2) {
            for (size_t i = 0; i + len <= best.choices.size() && !spent(); ) {
                auto cand = best.choices;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (attempt(cand)) progress = true; else i += len;
            }
            if (len == 1) break;
        }
        for (size_t len = 16; len >= 1 && !spent(); len /= 2) {
            for (size_t i = 0; i + len <= best.choices.size() && !spent(); i += len) {
                auto cand = best.choices; bool any = false;
                for (size_t k = i; k < i + len; ++k) if (cand[k]) { cand[k] = 0; any = true; }
                if (any && attempt(cand)) progress = true;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.choices.size() && !spent(); ++i) {
            while (i < best.choices.size() && best.choices[i] > 0 && !spent()) {
                auto cand = best.choices;
                cand[i] /= 2;
                if (attempt(cand)) { progress = true; continue; }
                cand = best.choices;
                cand[i] -= 1;
                if (attempt(cand)) { progress = true; continue; }
                break;
            }
            // lower a length and drop what it governed
            if (i < best.choices.size() && best.choices[i] > 0) {
                for (size_t drop = 1; drop <= 4 && i + 1 + drop <= best.choices.size() && !spent(); ++drop) {
                    auto cand = best.choices;
                    cand[i] -= 1;
                    cand.erase(cand.begin() + i + 1, cand.begin() + i + 1 + drop);
                    if (attempt(cand)) { progress = true; break; }
                }
            }
        }
    }
    return best;
}

inline std::string jstr(std::string const& s)
{
    std::ostringstream o;
    o << '"';
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') o << '\\' << ch;
        else if (ch == '\n') o << "\\n";
        else if (ch == '\t') o << "\\t";
        else if (ch < 0x20 || ch > 0x7e) { char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", ch); o << b; }
        else o << ch;
    }
    o << '"';
    return o.str();
}

struct Stats
{
    uint64_t cases = 0, nontrivial = 0;
    std::map<std::string, uint64_t> tags;
    std::vector<std::string> samples;
    std::vector<uint64_t> hashes;
};

/// child body: run cases [first, first+count) of a law; stats go through a pipe
inline void write_stats(std::ostream& os, Stats const& s)
{
    os << s.cases << ' ' << s.nontrivial << ' ' << s.tags.size() << ' ' << s.samples.size() << ' ' << s.hashes.size() << '\n';
    for (auto& t : s.tags) os << t.second << ' ' << t.first << '\n';
    for (auto& x : s.samples) { std::string y = x; std::replace(y.begin(), y.end(), '\n', '\x01'); os << y << '\n'; }
    for (auto h : s.hashes) os << h << '\n';
}
inline bool read_stats(std::istream& is, Stats& s)
{
    uint64_t ca, nt; size_t t, sa, h; std::string line;
    if (!(is >> ca >> nt >> t >> sa >> h)) return false;
    std::getline(is, line);
    s.cases += ca; s.nontrivial += nt;
    for (size_t i = 0; i < t; ++i) { uint64_t n; is >> n; is.get(); std::getline(is, line); s.tags[line] += n; }
    for (size_t i = 0; i < sa; ++i) { std::getline(is, line); std::replace(line.begin(), line.end(), '\x01', '\n'); if (s.samples.size() < 3) s.samples.push_back(line); }
    for (size_t i = 0; i < h; ++i) { uint64_t x; is >> x; s.hashes.push_back(x); }
    return true;
}

inline std::string arg(int argc, char** argv, std::string const& name, std::string const& def)
{
    for (int i = 1; i + 1 < argc; ++i) if (name == argv[i]) return argv[i + 1];
    return def;
}

inline uint64_t case_seed(uint64_t seed, std::string const& law, uint64_t idx)
{
    return mix(mix(seed * 1000003ull + hash_str(law)) + idx * 0x9E3779B97F4A7C15ull);
}

inline int main_(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    scratch_dir() = arg(argc, argv, "--scratch", "/tmp");
    err_file() = scratch_dir() + "/stderr." + std::to_string(getpid());
    Shared* sh = make_shared_mem();
    g_shared() = sh;

    if (mode == "list") {
        for (auto& l : laws()) std::cout << l.name << " " << l.weight << "\n";
        return 0;
    }
    auto find = [&](std::string const& name) -> Law* {
        for (auto& l : laws()) if (l.name == name) return &l;
        return nullptr;
    };
    if (mode == "replay") {
        // choices on stdin
        Law* l = find(arg(argc, argv, "--law", ""));
        if (!l) { std::cerr << "no such law\n"; return 3; }
        std::vector<uint64_t> ch; uint64_t x;
        while (std::cin >> x) ch.push_back(x);
        Outcome o = replay_case(l->fn, ch, sh);
        std::cout << "{\"ok\": " << (o.ok ? "true" : "false") << ", \"broken\": " << (o.broken ? "true" : "false")
                  << ", \"msg\": " << jstr(o.msg) << ", \"desc\": " << jstr(o.desc) << "}\n";
        unlink(err_file().c_str());
        return 0;
    }
    if (mode == "known") {
        // run each known finding's input; tell which still fail
        std::cout << "{";
        bool first = true;
        for (auto& f : findings()) {
            Outcome o = replay_case(f.fn, {}, sh);
            std::cout << (first ? "" : ", ") << jstr(f.id) << ": {\"fails\": " << (o.ok ? "false" : "true")
                      << ", \"what\": " << jstr(f.what) << ", \"msg\": " << jstr(o.msg) << "}";
            first = false;
        }
        std::cout << "}\n";
        unlink(err_file().c_str());
        return 0;
    }
    if (mode != "run") { std::cerr << "usage: run|replay|known|list\n"; return 3; }

    uint64_t seed = std::strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    uint64_t total = std::strtoull(arg(argc, argv, "--cases", "1000").c_str(), nullptr, 10);
    uint64_t shard = std::strtoull(arg(argc, argv, "--shard", "0").c_str(), nullptr, 10);
    uint64_t nshards = std::strtoull(arg(argc, argv, "--nshards", "1").c_str(), nullptr, 10);
    double limit = std::atof(arg(argc, argv, "--time", "60").c_str());
    double shrink_limit = std::atof(arg(argc, argv, "--shrink-time", "40").c_str());
    std::string out = arg(argc, argv, "--out", "/dev/stdout");
    std::string hash_out = arg(argc, argv, "--hashes", "");
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

    std::map<std::string, Stats> stats;
    struct Todo { Law* law; uint64_t next; uint64_t end; };
    std::vector<Todo> todo;
    for (auto& l : laws()) {
        uint64_t n = l.once ? 1 : std::max<uint64_t>(1, static_cast<uint64_t>(total * l.weight));
        // this shard owns cases shard, shard+nshards, ...
        todo.push_back({&l, shard, n});
    }
    // "--law L --first F --count N": only that chunk (replay of a failure that needs its predecessors)
    std::string only = arg(argc, argv, "--law", "");
    bool failed = false, broken = false, out_of_time = false;
    std::string f_law; uint64_t f_case = 0, f_first = 0; Outcome f_out;
    uint64_t CHUNK = 64;
    if (!only.empty()) {
        uint64_t first = std::strtoull(arg(argc, argv, "--first", "0").c_str(), nullptr, 10);
        CHUNK = std::strtoull(arg(argc, argv, "--count", "1").c_str(), nullptr, 10);
        std::vector<Todo> sel;
        for (auto& t : todo) if (t.law->name == only) sel.push_back({t.law, first, first + (CHUNK - 1) * nshards + 1});
        todo = sel;
    }
    bool more = true;
    while (more && !failed && !broken) {
        more = false;
        for (auto& t : todo) {
            if (t.next >= t.end) continue;
            if (elapsed() > limit) { out_of_time = true; break; }
            more = true;
            Law* law = t.law;
            uint64_t first = t.next, n = 0;
            while (t.next < t.end && n < CHUNK) { t.next += nshards; ++n; }
            int pfd[2];
            if (pipe(pfd)) { broken = true; break; }
            sh->status = 0; sh->msg[0] = 0; sh->step[0] = 0; sh->nchoices = 0; sh->case_idx = first;
            pid_t pid = fork();
            if (pid == 0) {
                ::close(pfd[0]);
                child_setup();
                Stats s;
                uint64_t idx = first;
                for (uint64_t k = 0; k < n; ++k, idx += nshards) {
                    sh->case_idx = idx;
                    Ctx c(sh, case_seed(seed, law->name, idx));
                    std::string msg;
                    if (!run_case(law->fn, c, sh, msg)) {
                        std::snprintf(sh->msg, sizeof(sh->msg), "%s", msg.c_str());
                        sh->status = 2;
                        _exit(77);
                    }
                    ++s.cases;
                    if (c.is_nontrivial()) {
                        ++s.nontrivial;
                        uint64_t h = hash_str(law->name);
                        for (uint64_t i = 0; i < sh->nchoices; ++i) h = mix(h ^ sh->choices[i]);
                        s.hashes.push_back(h);
                        if (s.samples.size() < 1) { std::string d = c.desc(); if (d.size() > 1500) d.resize(1500); s.samples.push_back(d); }
                    }
                    for (auto& g : c.tags) ++s.tags[g];
                }
                sh->status = 1;
                std::ostringstream os;
                write_stats(os, s);
                std::string str = os.str();
                size_t off = 0;
                while (off < str.size()) { ssize_t w = ::write(pfd[1], str.data() + off, str.size() - off); if (w <= 0) break; off += w; }
                _exit(0);
            }
            if (pid < 0) { broken = true; break; }
            ::close(pfd[1]);
            std::string data; char buf[65536]; ssize_t r;
            while ((r = ::read(pfd[0], buf, sizeof(buf))) > 0) data.append(buf, r);
            ::close(pfd[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 1) {
                std::istringstream is(data);
                read_stats(is, stats[law->name]);
                continue;
            }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { broken = true; break; }
            // failed: take the case's choices and shrink
            f_law = law->name; f_case = sh->case_idx; f_first = first;
            Outcome o;
            o.ok = false;
            o.msg = sh->status == 2 ? std::string(sh->msg) : crash_text(st, sh);
            o.choices.assign(sh->choices, sh->choices + sh->nchoices);
            Outcome again = replay_case(law->fn, o.choices, sh);
            if (again.ok || again.broken) {
                // does not fail on its own: depends on state left by earlier cases in the process
                o.msg = "UNREPRODUCED: " + o.msg;
                f_out = o;
            } else {
                f_out = shrink(law->fn, again, sh, shrink_limit);
            }
            failed = true;
            break;
        }
        if (out_of_time) break;
    }
    std::ofstream os(out);
    os << "{\"failed\": " << (failed ? "true" : "false") << ", \"broken\": " << (broken ? "true" : "false")
       << ", \"out_of_time\": " << (out_of_time ? "true" : "false") << ", \"elapsed\": " << elapsed();
    if (failed) {
        os << ", \"law\": " << jstr(f_law) << ", \"case\": " << f_case << ", \"first\": " << f_first
           << ", \"nshards\": " << nshards << ", \"seed\": " << seed << ", \"msg\": " << jstr(f_out.msg)
           << ", \"desc\": " << jstr(f_out.desc) << ", \"choices\": [";
        for (size_t i = 0; i < f_out.choices.size(); ++i) os << (i ? "," : "") << f_out.choices[i];
        os << "]";
    }
    os << ", \"laws\": {";
    bool first = true;
    for (auto& s : stats) {
        os << (first ? "" : ", ") << jstr(s.first) << ": {\"cases\": " << s.second.cases << ", \"nontrivial\": " << s.second.nontrivial << ", \"tags\": {";
        bool f2 = true;
        for (auto& t : s.second.tags) { os << (f2 ? "" : ", ") << jstr(t.first) << ": " << t.second; f2 = false; }
        os << "}, \"samples\": [";
        f2 = true;
        for (auto& x : s.second.samples) { os << (f2 ? "" : ", ") << jstr(x); f2 = false; }
        os << "]}";
        first = false;
    }
    os << "}}\n";
    if (!hash_out.empty()) {
        std::ofstream hs(hash_out, std::ios::binary);
        for (auto& s : stats) hs.write(reinterpret_cast<char const*>(s.second.hashes.data()), s.second.hashes.size() * 8);
    }
    unlink(err_file().c_str());
    return 0;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
