// Small runtime-monitoring harness: seeded cases, violation records, observation tallies.
#ifndef VF_HPP
#define VF_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = s += 0x9E3779B97F4A7C15ULL;
        z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ z >> 27) * 0x94D049BB133111EBULL;
        return z ^ z >> 31;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long long range(long long a, long long b) { return a + (long long) below((uint64_t)(b - a) + 1); }
    bool chance(double p) { return (double) (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + unit() * (b - a); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + below(l.size())); }
    template <class T> T pickv(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[below(i)]); }
    }
};

struct Abandon {};

struct Case {
    Rng r;
    uint64_t id;
    std::string kind;
    std::string dir; // empty scratch directory (created on demand through vf::scratch())
    bool verbose;
};

// --- reporting -----------------------------------------------------------
[[noreturn]] void fail(const std::string& sig, const std::string& msg);
void fail_soft(const std::string& sig, const std::string& msg); // record, keep going
void tally(const std::string& key, uint64_t n = 1);
void distinct(uint64_t h);
void sample(const std::string& s);
void desc(const std::string& s); // what the current case is doing (shown when it crashes)
void addmsg(const std::string& s);
const std::string& scratch();    // per-worker scratch directory (exists, emptied before each case that used it)
void drop_privileges();          // in vf_init: go on as a user that owns only its scratch directory
bool thorough();
bool verbose();
#define VF_CHECK(cond, ...) do { if (!(cond)) vf::fail(__VA_ARGS__); } while (0)
inline void check(bool ok, const std::string& sig, const std::string& msg) { if (!ok) fail(sig, msg); }

inline uint64_t mix(uint64_t h, uint64_t v) { Rng r(h ^ (v * 0xD6E8FEB86659FD93ULL)); return r.next(); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

struct Str { // stream builder
    std::ostringstream o;
    Str() { o.precision(17); }
    template <class T> Str& operator<<(const T& v) { o << v; return *this; }
    operator std::string() const { return o.str(); }
};
inline std::string q(const std::string& s) { // printable
    std::string o = "\"";
    char b[8];
    size_t n = 0;
    for (unsigned char c: s) {
        if (++n > 400) { o += "..."; break; }
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

typedef void (*CaseFn)(Case&);
struct Kind { std::string name; double weight; CaseFn fn; bool leakcheck; };
std::vector<Kind>& kinds();
struct Reg { Reg(const char* name, double weight, CaseFn fn, bool leakcheck = false) { kinds().push_back(Kind{name, weight, fn, leakcheck}); } };
// weight < 0: probe, run exactly once per check run as one of the first cases
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_KIND(fn, weight) static void fn(vf::Case&); static vf::Reg VF_CAT(reg_, fn)(#fn, weight, fn); static void fn(vf::Case& c)
#define VF_KIND_LEAK(fn, weight) static void fn(vf::Case&); static vf::Reg VF_CAT(reg_, fn)(#fn, weight, fn, true); static void fn(vf::Case& c)

// files
void write_file(const std::string& path, const std::string& bytes);
bool read_file(const std::string& path, std::string& bytes);
void rm_tree(const std::string& dir); // only below the scratch root
}
extern void vf_init();            // once per worker, defined by the property harness
extern const char* vf_rule;
#endif
