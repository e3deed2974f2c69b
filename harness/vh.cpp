#include "vh.h"
namespace vh {
int64_t vclock_ns = 1000ll * 1000000000ll, vclock_calls = 0, vclock_tick_call = -1, vclock_tick_ns = 0;
Options opt;
long current_case = -1;
std::deque<std::string> trace_ring;
std::map<std::string, uint64_t> counters;
std::unordered_set<uint64_t> signatures;
std::vector<std::string> samples;
uint64_t evaluations = 0;

double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t h64(const void * p, size_t n, uint64_t h) {
    auto b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
std::string show(const std::string & s, size_t max) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '\\' && c != '"') r += char(c);
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    if (s.size() > max) { snprintf(b, sizeof b, "..."); r += b; r += "(" + std::to_string(s.size()) + "B)"; }
    return r;
}
void parse(int argc, char ** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto eq = a.find('=');
        if (a.compare(0, 2, "--") != 0 || eq == std::string::npos) harness_error("bad argument %s", argv[i]);
        std::string k = a.substr(2, eq - 2), v = a.substr(eq + 1);
        if (k == "property") opt.property = v;
        else if (k == "profile") opt.profile = v;
        else if (k == "seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "cases") opt.cases = atol(v.c_str());
        else if (k == "first") opt.first_case = atol(v.c_str());
        else if (k == "case") opt.only_case = atol(v.c_str());
        else if (k == "scale") opt.scale = atof(v.c_str());
        else if (k == "budget") opt.soft_budget_s = atof(v.c_str());
        else if (k == "progress") opt.progress = v;
        else opt.extra[k] = v;
    }
}
static std::string vfmt(const char * fmt, va_list ap) {
    char buf[2048]; vsnprintf(buf, sizeof buf, fmt, ap); return buf;
}
void trace(const char * fmt, ...) {
    va_list ap; va_start(ap, fmt); trace_ring.push_back(vfmt(fmt, ap)); va_end(ap);
    if (trace_ring.size() > 60) trace_ring.pop_front();
}
void sample(const char * fmt, ...) {
    if (samples.size() >= 6) return;
    va_list ap; va_start(ap, fmt); samples.push_back(vfmt(fmt, ap)); va_end(ap);
}
void violate(const char * fmt, ...) {
    va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
    fprintf(stderr, "HARNESS-VIOLATION: property=%s profile=%s seed=%llu case=%ld: %s\n", opt.property.c_str(),
            opt.profile.c_str(), (unsigned long long) opt.seed, current_case, m.c_str());
    fprintf(stderr, "-- last operations (oldest first):\n");
    for (auto & t : trace_ring) fprintf(stderr, "   %s\n", t.c_str());
    fflush(stderr);
    _exit(77);
}
void harness_error(const char * fmt, ...) {
    va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
    fprintf(stderr, "HARNESS-ERROR: %s\n", m.c_str()); fflush(stderr);
    _exit(78);
}
static std::string jstr(const std::string & s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += char(c); }
    return r + "\"";
}
void finish() {
    std::string j = "{\"evaluations\":" + std::to_string(evaluations) + ",\"distinct\":[";
    bool first = true; size_t n = 0;
    for (auto s : signatures) { if (++n > 20000) break; if (!first) j += ","; first = false; char b[24]; snprintf(b, sizeof b, "\"%llx\"", (unsigned long long) s); j += b; }
    j += "],\"counters\":{"; first = true;
    for (auto & c : counters) { if (!first) j += ","; first = false; j += jstr(c.first) + ":" + std::to_string(c.second); }
    j += "},\"samples\":["; first = true;
    for (auto & s : samples) { if (!first) j += ","; first = false; j += jstr(s); }
    j += "]}";
    printf("HARNESS-SUMMARY %s\n", j.c_str());
    fflush(stdout);
}
} // namespace vh

// Every clock read of the code under test comes here: time only moves when a workload moves it.
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    ++vh::vclock_calls;
    if (vh::vclock_tick_call >= 0 && --vh::vclock_tick_call < 0) vh::vclock_ns += vh::vclock_tick_ns;
    return time_point(duration(vh::vclock_ns));
}
}}}

// The arena of the code under test is obtained through this (see -Daligned_alloc=vh_aligned_alloc)
#undef aligned_alloc
extern "C" void * aligned_alloc(size_t, size_t);
namespace vh { uintptr_t arena_lo = 0, arena_hi = 0; long fail_after = -1; long host_allocs = 0; bool arena_fail = false; }
extern "C" void * vh_aligned_alloc(size_t a, size_t n) noexcept;
extern "C" void * vh_aligned_alloc(size_t a, size_t n) noexcept {
    if (vh::arena_fail) return nullptr;
    void * p = aligned_alloc(a, n);
    vh::arena_lo = uintptr_t(p); vh::arena_hi = vh::arena_lo + n;
    return p;
}

#if !__has_feature(address_sanitizer)      // the uninstrumented builds have no such counter
extern "C" size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif
