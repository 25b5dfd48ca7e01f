// Common infrastructure of the runtime monitors: random numbers, case loop, statistics, failures.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vh
{
using u64 = std::uint64_t;

inline u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {}
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        return mix(s);
    }
    int range(int lo, int hi) { return lo + int(next() % u64(hi - lo + 1)); } // inclusive
    double uni() { return double(next() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    template<class V>
    auto& pick(V& v)
    {
        return v[next() % v.size()];
    }
    template<class V>
    void shuffle(V& v)
    {
        for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
    }
};

// thrown by fail(): the current case violated the property
struct Violation
{
    std::string msg;
};
// thrown by probes when a case does far more work than it ever legitimately needs; it is not derived from
// std::exception so that nothing swallows it by accident
struct Budget
{
    std::string what;
};

inline std::string strf(const char* fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

[[noreturn]] inline void fail(const std::string& msg) { throw Violation{msg}; }
#define VH_CHECK(cond, ...)                                                                                            \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond)) vh::fail(vh::strf(__VA_ARGS__));                                                                  \
    } while (0)

inline std::string num(double x) { return strf("%.17g", x); }

struct Stats
{
    u64 cases = 0;
    std::map<std::string, u64> counters;
    std::set<u64> distinct; // hashes of the non-trivial cases
    std::vector<std::string> samples;
    void add(const std::string& k, u64 n = 1) { counters[k] += n; }
};

struct Ctx
{
    Rng rng;
    u64 caseno;
    bool thorough;
    bool verbose;
    Stats& st;
    std::string desc;     // description of the case, printed with a failure and in samples
    std::string dig = {}; // what is compared between builds; starts with "!" if the case is not comparable
    void nontrivial(u64 h) { st.distinct.insert(mix(h)); }
    void count(const char* k, u64 n = 1) { st.add(k, n); }
};

inline u64 hash_str(const std::string& s, u64 h = 1469598103934665603ULL)
{
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}
inline u64 hash_u(u64 h, u64 v) { return mix(h ^ mix(v)); }
inline u64 hash_d(u64 h, double d)
{
    u64 v;
    memcpy(&v, &d, 8);
    return hash_u(h, v);
}

// comparison of values computed by independent but mathematically equal formulas
inline bool close(double a, double b, double tol)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}

bool debug_build(); // was the library's debug mode on when this was compiled?

// what a suite provides
extern const char* suite_property;
extern const char* suite_rule;
extern std::string suite_arg; // --arg
void suite_case(Ctx& c);
// optional: number of enumerated (non-random) cases, run first; weak default 0
} // namespace vh
