// Host memory runs out at a chosen point of a chosen call: the call reports it and nothing else changes.
#include "vh.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <server/io_buffer.h>
#include <new>
#include <sanitizer/allocator_interface.h>
using namespace cachelot;
using cache::Cache;
using vh::Rng;
typedef std::string str;

// ------------------------------------------------------------------ injected failures of operator new
static bool inj_on; static long inj_nth; static size_t inj_min; static long inj_seen, inj_hit; static bool inj_sticky;
static long live;   // blocks obtained by operator new and not yet given back
static void * got(size_t n) { void * p = malloc(n ? n : 1); live += p != nullptr; return p; }
static void gone(void * p) { live -= p != nullptr; free(p); }
static bool inject(size_t n) { if (!inj_on || n < inj_min) return false; long k = inj_seen++; if (k == inj_nth || (inj_sticky && k > inj_nth)) { ++inj_hit; return true; } return false; }
void * operator new(size_t n) { if (inject(n)) throw std::bad_alloc(); void * p = got(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { if (inject(n)) throw std::bad_alloc(); void * p = got(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return inject(n) ? nullptr : got(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return inject(n) ? nullptr : got(n); }
void operator delete(void * p) noexcept { gone(p); }
void operator delete[](void * p) noexcept { gone(p); }
void operator delete(void * p, size_t) noexcept { gone(p); }
void operator delete[](void * p, size_t) noexcept { gone(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { gone(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { gone(p); }

static uint32_t H(const str & k) { return cache::HashFunction()(slice(k.data(), k.size())); }

static void cache_case(Rng & r, long n) {
    ResetStats(); vh::vclock_ns = 77000ll * 1000000000ll;
    size_t page = size_t(1) << r.range(10, 14), mem = page << r.range(4, 8); bool evict = r.chance(50); size_t dict = size_t(1) << r.range(0, 6);
    vh::trace("memory=%zu page=%zu dict=%zu evictions=%d", mem, page, dict, evict);
    // creation under failure: reported, nothing leaks or is used after free (ASan)
    for (int i = 0; i < 6; ++i) {
        inj_on = true; inj_nth = i; inj_min = 0; inj_seen = inj_hit = 0; inj_sticky = r.chance(50);
        bool threw = false;
        try { Cache c = Cache::Create(mem, page, dict, evict); inj_on = false; str k = "probe"; auto it = c.create_item(slice(k.data(), k.size()), H(k), 4, 0, cache::seconds(0)); it->assign_value(slice("abcd", 4)); c.do_set(it); auto g = c.do_get(slice(k.data(), k.size()), H(k)); VH_CHECK(g && g->value().length() == 4, "new cache lost its first item"); }
        catch (const std::bad_alloc &) { threw = true; }
        inj_on = false;
        VH_CHECK(threw == (inj_hit > 0), "creation with allocation %d failing %s", i, threw ? "threw without a failure" : "reported success");
        vh::count(threw ? "create_failures" : "create_ok"); vh::sig(1, i, threw);
    }
    Cache c = Cache::Create(mem, page, dict, evict);
    std::map<str, str> m; bool in_op = false; str cur;
    c.on_eviction = [&](cache::ConstItemPtr i) { bool s = inj_on; inj_on = false; str k(i->key().begin(), i->key().length()); VH_CHECK(in_op && evict, "unexpected eviction"); VH_CHECK(m.count(k), "evicted item '%s' is not stored", k.c_str()); VH_CHECK(m[k] == str(i->value().begin(), i->value().length()), "evicted item '%s' has other content", k.c_str()); m.erase(k); vh::count("evictions"); inj_on = s; };
    auto verify = [&](const str & k) {
        auto i = c.do_get(slice(k.data(), k.size()), H(k)); auto it = m.find(k);
        VH_CHECK((i != nullptr) == (it != m.end()), "'%s' %s", k.c_str(), i ? "is found but was never stored" : "is lost");
        if (i) { VH_CHECK(str(i->key().begin(), i->key().length()) == k, "another key returned"); VH_CHECK(str(i->value().begin(), i->value().length()) == it->second, "value of '%s' changed", k.c_str()); }
    };
    c.publish_stats(); uint64_t last_cap = STAT_GET(cache, hash_capacity);
    auto check_cap = [&]() {
        c.publish_stats(); uint64_t cap = STAT_GET(cache, hash_capacity);
        VH_CHECK(cap <= 2 * last_cap, "hash table of %llu entries became %llu at once", (unsigned long long) last_cap, (unsigned long long) cap);
        if (cap != last_cap) vh::count("expansions"); last_cap = cap;
    };
    long ops = long(2500 * vh::opt.scale); uint64_t ids = 0; unsigned fault_pct = unsigned(r.range(5, 100));
    for (long o = 0; o < ops; ++o) {
        str k = "key" + std::to_string(r.chance(70) ? ids++ : r.below(ids + 1)); str v = r.bytes(r.below(30)); if (r.chance(20)) v = std::to_string(r.below(100000));
        int kind = int(r.below(8)); bool was = m.count(k), threw = false, ret = false; str before = was ? m[k] : str();
        bool fault = r.chance(fault_pct);
        cache::ItemPtr item = nullptr; in_op = true;
        auto store = [&]() -> bool {
            bool s = inj_on;
            try { item = c.create_item(slice(k.data(), k.size()), H(k), v.size(), 0, cache::seconds(0)); } catch (const system_error & e) { inj_on = false; VH_CHECK(!evict && e.code() == error::out_of_memory, "create_item failed with '%s'", e.code().message().c_str()); inj_on = s; return false; }
            item->assign_value(slice(v.data(), v.size())); return true;
        };
        inj_seen = inj_hit = 0; inj_nth = long(r.below(3)); inj_sticky = r.chance(60); inj_min = 0; inj_on = fault;
        bool created = true; uint64_t num = 0;
        try {
            switch (kind) {
            case 0: case 1: case 2: case 3: if ((created = store())) { c.do_set(item); ret = true; } break;
            case 4: if ((created = store())) ret = c.do_add(item); break;
            case 5: if ((created = store())) ret = c.do_replace(item); break;
            case 6: std::tie(ret, num) = c.do_incr(slice(k.data(), k.size()), H(k), 3); break;
            case 7: if ((created = store())) ret = c.do_append(item); break;
            }
        } catch (const std::bad_alloc &) { threw = true; }
        catch (const system_error & e) { inj_on = false; threw = true; if (e.code() == error::numeric_convert || e.code() == error::numeric_overflow) VH_CHECK(kind == 6, "numeric error"); else VH_CHECK(e.code() == error::out_of_memory && (!evict || kind == 7), "failed with '%s'", e.code().message().c_str()); }
        inj_on = false; in_op = false;
        vh::trace("op %d '%s' %s -> %s%d (injected %ld)", kind, k.c_str(), fault ? "with fault" : "", threw ? "failed " : "", int(ret), inj_hit);
        if (fault && inj_hit) { vh::count("faults_hit"); vh::sig(2, kind, threw, was); }
        if (!created) { ids = m.size() > 40 ? ids : ids; }
        was = m.count(k);                 // the victim of an eviction may be the key itself
        if (threw || !created) { if (kind == 6 && !was && !before.empty() && threw) { /* evicted meanwhile */ } }
        else switch (kind) {
            case 4: VH_CHECK(ret == !was, "add returned %d, key was %s", ret, was ? "stored" : "absent"); if (ret) m[k] = v; break;
            case 5: VH_CHECK(ret == was, "replace returned %d", ret); if (ret) m[k] = v; break;
            case 7: VH_CHECK(ret == was, "append returned %d", ret); if (ret) m[k] += v; break;
            case 6: if (ret) m[k] = std::to_string(num); break;
            default: m[k] = v;
        }
        // a refused expansion leaves no trace: the table is as big as it was, and the next one is the usual doubling
        check_cap();
        verify(k);
        if (o % 250 == 0 || (threw && inj_hit && m.size() < 400)) { std::vector<str> ks; for (auto & e : m) ks.push_back(e.first); for (auto & q : ks) verify(q); vh::count("full_sweeps"); }
        if (!evict && !created) { // make room and go on
            int d = 0; while (!m.empty() && d++ < 20) { str q = m.begin()->first; VH_CHECK(c.do_delete(slice(q.data(), q.size()), H(q)), "delete '%s' found nothing", q.c_str()); m.erase(m.begin()); } }
        // the same store works once memory is available again
        if (threw && inj_hit && kind < 4) { in_op = true; if (store()) { c.do_set(item); m[k] = v; in_op = false; verify(k); vh::count("recovered"); } in_op = false; check_cap(); }
    }
    c.publish_stats(); VH_CHECK(STAT_GET(cache, curr_items) == m.size(), "%llu items counted, %zu stored", (unsigned long long) STAT_GET(cache, curr_items), m.size());
    if (n < 2) vh::sample("memory=%zu dict=%zu: %ld faults so far, %zu items at the end", mem, dict, long(vh::counters["faults_hit"]), m.size());
}
static void arena_case(Rng & r) {
    // the arena itself cannot be had
    bool threw = false; size_t page = size_t(1) << r.range(12, 30);
    try { Cache c = Cache::Create(size_t(1) << 46, page, 16, true); } catch (const std::bad_alloc &) { threw = true; }
    VH_CHECK(threw, "a cache bigger than the machine was created"); vh::count("arena_failures");
    // the IO buffer keeps what it has when it cannot grow
    io_buffer b(0, size_t(1) << 50); str data = r.bytes(1 + r.below(5000)); size_t done = 0;
    while (done < data.size()) { size_t k = std::min<size_t>(data.size() - done, 1 + r.below(700)); memcpy(b.begin_write(k), data.data() + done, k); b.confirm_write(k); done += k;
        bool t = false; try { b.begin_write(size_t(1) << r.range(45, 48)); } catch (const std::bad_alloc &) { t = true; } catch (const std::length_error &) { t = true; }
        VH_CHECK(t, "buffer grew beyond the machine"); VH_CHECK(b.non_read() == done && memcmp(b.begin_read(), data.data(), done) == 0, "buffer lost its content when it could not grow"); vh::count("buffer_failures"); }
}
// every block obtained for a cache is given back: when an expansion ends, when it is refused, when the cache goes
static void balance_case(Rng & r) {
    size_t page = size_t(1) << r.range(10, 13), mem = page << r.range(5, 8), dict = size_t(1) << r.range(0, 5); bool evict = r.chance(70); unsigned pct = r.chance(30) ? 0 : unsigned(r.range(1, 60)); long n = long(r.range(10, 3000));
    long before = live, most = 0, hits = 0; size_t bytes = __sanitizer_get_current_allocated_bytes();
    {
        Cache c = Cache::Create(mem, page, dict, evict);
        long at_start = live;
        for (long i = 0; i < n; ++i) {
            char k[24]; int l = snprintf(k, sizeof k, "key%ld", r.chance(90) ? i : long(r.below(uint64_t(i) + 1))); slice key(k, size_t(l)); auto h = cache::HashFunction()(key);
            inj_on = r.chance(pct); inj_nth = 0; inj_min = 0; inj_seen = inj_hit = 0; inj_sticky = true;
            try { auto it = c.create_item(key, h, 8, 0, cache::seconds(0)); it->assign_value(slice("abcdefgh", 8)); c.do_set(it); }
            catch (const std::bad_alloc &) { } catch (const system_error &) { }
            inj_on = false; hits += inj_hit;
            if (r.chance(10)) c.do_delete(key, h);
            most = std::max(most, live - at_start);
        }
    }
    VH_CHECK(live == before, "a cache of %zu bytes that is gone after %ld stores (%ld of its allocations failed) keeps %ld blocks of memory", mem, n, hits, live - before);
    size_t now = __sanitizer_get_current_allocated_bytes();
    VH_CHECK(now == bytes, "a cache of %zu bytes that is gone after %ld stores keeps %lld bytes of memory", mem, n, (long long) (now - bytes));
    vh::count("balanced"); if (most > 0) vh::count("balanced_after_growth"); vh::sig(3, most > 0, hits > 0, evict);
}
int main(int argc, char ** argv) { vh::parse(argc, argv); return vh::run_cases([](Rng & r, long n) { arena_case(r); cache_case(r, n); balance_case(r); }); }
