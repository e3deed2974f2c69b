// Common support for the monitored harnesses: seeded randomness, virtual time,
// operation trace, oracle reporting and the record of what the monitors observed.
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

// ------------------------------------------------------------------ randomness
struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t & x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed) { uint64_t x = seed; s[0] = mix(x); s[1] = mix(x); }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b; a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned percent) { return below(100) < percent; }
    bool one_in(uint64_t n) { return below(n) == 0; }
    // log-uniform in [0, max]
    uint64_t logn(uint64_t max) {
        unsigned bits = 0; while (bits < 63 && (1ull << bits) <= max) ++bits;
        uint64_t v = next() & ((1ull << below(bits + 1)) - 1);
        return v > max ? max : v;
    }
    template <class V> const typename V::value_type & pick(const V & v) { return v[below(v.size())]; }
    std::string bytes(size_t n) { std::string r(n, '\0'); for (auto & c : r) c = char(next() >> 24); return r; }
};

// ------------------------------------------------------------------ virtual time
extern int64_t vclock_ns;          // current virtual time
extern int64_t vclock_calls;       // number of clock reads
extern int64_t vclock_tick_call;   // at this clock read (counted from arm) time jumps
extern int64_t vclock_tick_ns;
inline int64_t vnow_s() { return vclock_ns / 1000000000ll; }

// ------------------------------------------------------------------ options, reporting
struct Options {
    std::string property = "?", profile;
    uint64_t seed = 1;
    long cases = 10, first_case = 0, only_case = -1;
    double scale = 1.0;
    double soft_budget_s = 1e9;
    std::string progress;
    std::map<std::string, std::string> extra;
};
extern Options opt;
extern long current_case;
extern std::deque<std::string> trace_ring;
extern std::map<std::string, uint64_t> counters;
extern std::unordered_set<uint64_t> signatures;
extern std::vector<std::string> samples;
extern uint64_t evaluations;

void parse(int argc, char ** argv);
void trace(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violate(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harness_error(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void finish();
void sample(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t h64(const void * p, size_t n, uint64_t h = 1469598103934665603ull);
inline void sig(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
    uint64_t v[4] = {a, b, c, d}; signatures.insert(h64(v, sizeof v));
}
inline void count(const char * name, uint64_t n = 1) { counters[name] += n; }
std::string show(const std::string & s, size_t max = 48);
double wall();

// evaluation of one oracle clause
#define VH_CHECK(cond, ...) do { ++vh::evaluations; if (!(cond)) vh::violate(__VA_ARGS__); } while (0)

// run `fn(rng)` for each case; every case is a pure function of (seed, case number)
template <class Fn> int run_cases(Fn fn) {
    const double start = wall();
    for (long n = opt.first_case; n < opt.first_case + opt.cases; ++n) {
        if (opt.only_case >= 0 && n != opt.only_case) continue;
        if (wall() - start > opt.soft_budget_s) { count("cases_skipped_budget", opt.first_case + opt.cases - n); break; }
        current_case = n;
        if (!opt.progress.empty()) {
            int fd = ::open(opt.progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            if (fd >= 0) { dprintf(fd, "%ld\n", n); ::close(fd); }
        }
        trace_ring.clear();
        Rng rng(opt.seed * 1000003ull + uint64_t(n) * 7919ull + 17);
        fn(rng, n);
        count("cases");
    }
    finish();
    return 0;
}
} // namespace vh
