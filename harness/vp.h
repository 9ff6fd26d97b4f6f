// Runtime-monitoring driver framework: seeded scenarios, online checks, measured counters.
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <cstdlib>
#include <cstring>

namespace vp {

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}
inline uint64_t hash_combine(uint64_t h, uint64_t v) { return mix(h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2))); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) { }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t operator () (uint64_t n) { return n ? next() % n : 0; }         // [0,n)
    uint64_t range(uint64_t a, uint64_t b) { return a + (*this)(b - a + 1); } // [a,b]
    bool chance(unsigned num, unsigned den) { return (*this)(den) < num; }
    template <class T> const T & pick(const std::vector<T>& v) { return v[(*this)(v.size())]; }
    // sizes clustered at 0, 1 and multiples of unit +-1
    uint64_t boundary(uint64_t unit, uint64_t maxunits) {
        uint64_t k = (*this)(maxunits + 1) * unit;
        switch ((*this)(6)) {
        case 0: return k;
        case 1: return k + 1;
        case 2: return k ? k - 1 : 0;
        case 3: return (*this)(4);
        default: return (*this)(maxunits * unit + 1);
        }
    }
};

struct Failure : public std::runtime_error {
    std::string key;
    Failure(const std::string& k, const std::string& m) : std::runtime_error(m), key(k) { }
};

// measured observations (thread-safe)
void count(const char* name, uint64_t n = 1);
void cov(const char* dim, const std::string& value);
void nontrivial(uint64_t hash);          // this execution was non-trivial; hash identifies it
void sample(const std::string& s);       // keep a few written-out cases
void fail_async(const std::string& key, const std::string& msg); // from any thread
[[noreturn]] void fail(const std::string& key, const std::string& msg);

struct Ctx {
    Rng rng;
    bool thorough;
    int cfg;             // disk configuration index of this process
    std::string tmp;     // scratch directory of this process
    uint64_t h;          // trace hash
    Ctx() : rng(1), thorough(false), cfg(0), h(0) { }
    void note(uint64_t v) { h = hash_combine(h, v); }
    unsigned scale(unsigned q, unsigned t) const { return thorough ? t : q; }
};

typedef void (* ScenarioFn)(Ctx&);
struct Reg { Reg(const char* name, ScenarioFn fn, unsigned quick, unsigned thorough); };

// jitter of wrapped system calls, in microseconds (0 = off)
void set_jitter(unsigned usec);
void leak_exempt(); // what this run of a scenario keeps in internal memory is meant to stay (new queues, tables of the driver)
void set_spurious(unsigned den); // one in den condition waits returns without a notification (0 = off)
void set_lock_delay(unsigned den); // one in den locks is taken late (0 = off)

struct Hex { uint64_t v; };
inline std::ostream& operator << (std::ostream& os, const Hex& h) { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)h.v); return os << b; }

} // namespace vp

#define VP_SCENARIO(name, q, t) \
    static void vp_scn_ ## name(vp::Ctx&); \
    static vp::Reg vp_reg_ ## name(#name, vp_scn_ ## name, q, t); \
    static void vp_scn_ ## name(vp::Ctx & ctx)

#define VP_SCENARIO_T(fn, name, q, t, ...) \
    static vp::Reg vp_reg_ ## name(#name, &fn<__VA_ARGS__>, q, t)

#define VP_CHECK(cond, key, msg) do { if (!(cond)) { std::ostringstream vp_os_; vp_os_ << msg; vp::fail(key, vp_os_.str()); } } while (0)
#define VP_EQ(a, b, key, msg) do { if (!((a) == (b))) { std::ostringstream vp_os_; vp_os_ << msg << ": got " << (a) << " expected " << (b); vp::fail(key, vp_os_.str()); } } while (0)

#endif
