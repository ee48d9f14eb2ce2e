// Harness runtime shared by all checks: deterministic case generation, case
// bookkeeping, violation records, crash and hang attribution.
//
// A harness defines sections. A section is a number of cases; a case gets a
// random stream that depends only on (seed, section, index), builds inputs,
// calls the public API of frackit and lets an oracle judge what it observed.
#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

#include <csignal>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

#include <Standard_Failure.hxx>

namespace vf {

// ------------------------------------------------------------------ random
inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline std::uint64_t hashStr(const std::string& s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}

struct Rng
{
    std::uint64_t s = 1;
    Rng() = default;
    explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
    std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    // uniform in [0,1)
    double u() { return double(next() >> 11) * (1.0/9007199254740992.0); }
    double u(double a, double b) { return a + (b-a)*u(); }
    // integer in [0,n)
    int i(int n) { return int(next() % std::uint64_t(n)); }
    // integer in [a,b]
    int i(int a, int b) { return a + i(b-a+1); }
    bool b(double p = 0.5) { return u() < p; }
    double normal()
    {
        double a = u(); if (a < 1e-300) a = 1e-300;
        return std::sqrt(-2.0*std::log(a))*std::cos(2.0*M_PI*u());
    }
    // log-uniform
    double lu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[i(int(v.size()))]; }
};

// stream that feeds std::random_device, so that library samplers are reproducible
inline Rng& deviceRng() { static Rng r(42); return r; }

// ------------------------------------------------------------- bookkeeping
struct Violation { std::string section; long idx; std::string kind, detail, input; };

struct State
{
    std::uint64_t seed = 1;
    std::string tier = "quick";
    int shard = 0, nshards = 1;
    std::string onlySection; long onlyIdx = -1;
    double scale = 1.0;
    std::string out, cur;
    bool verbose = false;
    std::set<std::string> skip;
    int curFd = -1;
    double cpuLimit = 60.0;

    std::map<std::string, long> evaluated;
    std::map<std::string, long> counters;
    std::map<std::string, long> required;
    std::set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string,int> samplesPerSection;
    std::vector<Violation> violations;
    std::map<std::string,long> violationCounts;
};
inline State& st() { static State s; return s; }

struct Case
{
    std::string section; long idx;
    std::ostringstream in;   // description of the input
    bool failed = false;
    bool nt = false;
    std::string sig;

    Case(const std::string& s, long i) : section(s), idx(i) { in << std::setprecision(17); }

    // records a violation of the property
    void fail(const std::string& kind, const std::string& detail)
    {
        failed = true;
        auto& n = st().violationCounts[section + "/" + kind];
        if (++n <= 4)
            st().violations.push_back({section, idx, kind, detail, in.str()});
    }
    // marks the case as non-trivial; cases with equal signature count once
    void nontrivial(const std::string& s = "") { nt = true; if (!s.empty()) sig += "|" + s; }
    void count(const std::string& what, long n = 1) { st().counters[section + ":" + what] += n; }
};

inline void count(const std::string& what, long n = 1) { st().counters[what] += n; }
// the run is inconclusive (error exit) if fewer than n events were observed over all shards
inline void require(const std::string& counter, long n) { st().required[counter] = n; }

// a case that cannot be judged
struct Skip { std::string why; };

inline std::string jsonEscape(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

inline void dump()
{
    auto& S = st();
    if (S.out.empty()) return;
    std::ofstream f(S.out);
    f << "{\"evaluated\":{";
    bool first = true;
    for (auto& p : S.evaluated) { f << (first ? "" : ",") << "\"" << jsonEscape(p.first) << "\":" << p.second; first = false; }
    f << "},\"counters\":{"; first = true;
    for (auto& p : S.counters) { f << (first ? "" : ",") << "\"" << jsonEscape(p.first) << "\":" << p.second; first = false; }
    f << "},\"required\":{"; first = true;
    for (auto& p : S.required) { f << (first ? "" : ",") << "\"" << jsonEscape(p.first) << "\":" << p.second; first = false; }
    f << "},\"distinct\":["; first = true;
    for (auto h : S.distinct) { f << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
    f << "],\"samples\":["; first = true;
    for (auto& s : S.samples) { f << (first ? "" : ",") << "\"" << jsonEscape(s) << "\""; first = false; }
    f << "],\"violations\":["; first = true;
    for (auto& v : S.violations)
    {
        f << (first ? "" : ",") << "{\"section\":\"" << jsonEscape(v.section) << "\",\"idx\":" << v.idx
          << ",\"kind\":\"" << jsonEscape(v.kind) << "\",\"detail\":\"" << jsonEscape(v.detail)
          << "\",\"input\":\"" << jsonEscape(v.input) << "\"}";
        first = false;
    }
    f << "],\"violation_counts\":{"; first = true;
    for (auto& p : S.violationCounts) { f << (first ? "" : ",") << "\"" << jsonEscape(p.first) << "\":" << p.second; first = false; }
    f << "}}\n";
}

inline void onCpuLimit(int) { static const char m[] = "HANG: cpu limit of one case reached\n";
                              (void)!write(2, m, sizeof(m)-1); _exit(97); }

inline void armCpu(double sec)
{
    struct itimerval t; std::memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = long(sec);
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline void markCurrent(const std::string& s, long idx)
{
    auto& S = st();
    if (S.curFd < 0) return;
    char buf[256]; std::memset(buf, ' ', sizeof(buf));
    const int n = std::snprintf(buf, sizeof(buf), "%s %ld", s.c_str(), idx);
    buf[n] = ' '; buf[255] = '\n';
    (void)!pwrite(S.curFd, buf, sizeof(buf), 0);
}

inline void parse(int argc, char** argv)
{
    auto& S = st();
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i+1 < argc ? argv[++i] : ""); };
        if (a == "--seed") S.seed = std::stoull(val());
        else if (a == "--tier") S.tier = val();
        else if (a == "--shard") S.shard = std::stoi(val());
        else if (a == "--nshards") S.nshards = std::stoi(val());
        else if (a == "--out") S.out = val();
        else if (a == "--cur") S.cur = val();
        else if (a == "--scale") S.scale = std::stod(val());
        else if (a == "--verbose") S.verbose = true;
        else if (a == "--skip") S.skip.insert(val());
        else if (a == "--only") { auto v = val(); auto p = v.rfind(':'); S.onlySection = v.substr(0, p);
                                  S.onlyIdx = p == std::string::npos ? -1 : std::stol(v.substr(p+1)); }
    }
    if (!S.cur.empty()) S.curFd = ::open(S.cur.c_str(), O_CREAT|O_RDWR|O_TRUNC, 0644);
    std::signal(SIGPROF, onCpuLimit);
}

// runs the cases of a section; quick/thorough: number of cases per tier
inline void section(const std::string& name, long quick, long thorough,
                    const std::function<void(Rng&, Case&)>& body)
{
    auto& S = st();
    if (!S.onlySection.empty() && S.onlySection != name) return;
    long n = S.tier == "thorough" ? thorough : quick;
    n = long(std::ceil(double(n)*S.scale));
    const auto base = mix(S.seed*0x100000001B3ull) ^ hashStr(name);
    struct Timer { std::string n; std::clock_t t = std::clock(); ~Timer() { if (std::getenv("VERIF_TIMES")) std::fprintf(stderr, "%8.2f s  %s\n", double(std::clock() - t)/CLOCKS_PER_SEC, n.c_str()); } } timer{name};
    for (long i = 0; i < n; ++i)
    {
        if (S.onlyIdx >= 0) { if (i != S.onlyIdx) continue; }
        else if (i % S.nshards != S.shard) continue;

        if (S.skip.count(name + ":" + std::to_string(i))) continue;
        markCurrent(name, i);
        armCpu(S.cpuLimit);
        Case c(name, i);
        Rng r(base + mix(std::uint64_t(i)));
        deviceRng() = Rng(base ^ mix(std::uint64_t(i) + 77));
        bool skipped = false;
        try { body(r, c); }
        catch (const Skip& s) { skipped = true; S.counters[name + ":skipped:" + s.why]++; }
        catch (const Standard_Failure& e)
        { c.fail("exception", std::string("OpenCascade exception ") + e.DynamicType()->Name() + ": "
                              + (e.GetMessageString() ? e.GetMessageString() : "")); }
        catch (const std::exception& e)
        { c.fail("exception", std::string("C++ exception ") + typeid(e).name() + ": " + e.what()); }
        catch (...)
        { c.fail("exception", "exception of unknown type"); }

        S.evaluated[name]++;
        if (!skipped && c.nt) S.distinct.insert(hashStr(name + c.sig + (c.sig.empty() ? c.in.str() : "")));
        if (!skipped && c.nt && S.samplesPerSection[name] < 2 && S.shard == 0)
        { S.samplesPerSection[name]++; S.samples.push_back(name + " #" + std::to_string(i) + ": " + c.in.str()); }
        if (S.verbose) std::cerr << name << " #" << i << (skipped ? " SKIP" : c.failed ? " FAIL" : " ok")
                                 << "\n  " << c.in.str() << std::endl;
        if (S.verbose) for (auto& v : S.violations) if (v.section == name && v.idx == i)
            std::cerr << "  VIOLATED " << v.kind << ": " << v.detail << std::endl;
    }
    markCurrent("-", 0);
}

// true if f throws a C++ exception (any type); anything else it does is left to the sanitizers
template<class F> bool throws(F&& f)
{
    try { f(); } catch (const Standard_Failure&) { return true; }
    catch (const std::exception&) { return true; }
    return false;
}

template<class... A> std::string str(const A&... a)
{
    std::ostringstream o; o << std::setprecision(17);
    (void)std::initializer_list<int>{ ((o << a), 0)... };
    return o.str();
}

// silences std::cout for a scope and returns what was written
struct CoutCapture
{
    std::ostringstream buf; std::streambuf* old;
    std::ios_base::fmtflags fl; std::streamsize prec;
    CoutCapture() : fl(std::cout.flags()), prec(std::cout.precision()) { old = std::cout.rdbuf(buf.rdbuf()); }
    ~CoutCapture() { std::cout.rdbuf(old); std::cout.flags(fl); std::cout.precision(prec); }
    std::string text() const { return buf.str(); }
};

inline int finish()
{
    armCpu(0);
    dump();
    return 0;
}

} // namespace vf

#if defined(VERIF_DETERMINISTIC_DEVICE)
// interpose the entropy source: std::random_device draws from the case's stream
std::random_device::result_type std::random_device::_M_getval()
{ return std::random_device::result_type(vf::deviceRng().next() >> 32); }
#endif

#endif
