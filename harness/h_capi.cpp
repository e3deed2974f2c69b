// The C interface against a reference model: only c_api.h is used.
#include "vh.h"
extern "C" {
#include <cachelot/c_api.h>
}
#include <algorithm>
using vh::Rng;
typedef std::string str;
#if defined(ADDRESS_SANITIZER)
static const bool malloc_mode = true;
#else
static const bool malloc_mode = false;
#endif

struct E { str v; int64_t exp; };   // exp: virtual second of expiration, -1 never
static std::map<str, E> * g_model; static uint64_t g_evicted; static bool g_may_evict; static bool g_cb;
static bool alive(const E & e) { return e.exp < 0 || vh::vnow_s() < e.exp; }
static void on_evicted(CachelotConstItemPtr i) {
    str k(cachelot_item_get_key(i), cachelot_item_get_keylen(i)), v(cachelot_item_get_value(i), cachelot_item_get_valuelen(i));
    VH_CHECK(g_cb, "eviction callback called after it was reset");
    VH_CHECK(g_may_evict, "item '%s' evicted by an operation that stores nothing new or with evictions disabled", vh::show(k).c_str());
    auto it = g_model->find(k);
    VH_CHECK(it != g_model->end(), "evicted item '%s' is not stored", vh::show(k).c_str());
    VH_CHECK(it->second.v == v, "evicted item '%s' is reported with other content", vh::show(k).c_str());
    vh::trace("  evicted %s", vh::show(k, 20).c_str());
    g_model->erase(it); ++g_evicted; vh::count("evictions_reported");
}
struct Err { CachelotError e; Err() { dirty(); } void dirty() { memset(&e, 0x5a, sizeof e); e.code = 77; e.category = "stale"; strcpy(e.desription, "stale"); }
    void clear(const char * op) { VH_CHECK(e.code == 0, "%s succeeded but left error code %d", op, e.code); VH_CHECK(e.category == nullptr && e.desription[0] == 0, "%s succeeded but left an error", op); }
    void set(const char * op) { VH_CHECK(e.code != 0 || (e.category && !strcmp(e.category, "Unknown")), "%s failed with error code 0", op); VH_CHECK(e.code != 77, "%s failed without setting the error (code %d)", op, e.code); VH_CHECK(e.category && strcmp(e.category, "stale") != 0, "%s failed without the error category", op);
        VH_CHECK(memchr(e.desription, 0, sizeof e.desription) && strcmp(e.desription, "stale") && e.desription[0], "%s failed without the error description", op); vh::count("errors_reported"); } };

static bool numeric(const str & s, uint64_t & out) {
    if (s.empty() || s.size() > 20) return false; unsigned __int128 v = 0;
    for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } if (v > ~0ull) return false; out = uint64_t(v); return true;
}
static uint32_t fnv(const str & k) { uint32_t h = 2166136261u; for (unsigned char c : k) { h ^= c; h *= 16777619u; } return h; }

static void options_case(Rng & r) {
    // creation: exactly the documented combinations are accepted (all powers of 2, at least 4 pages)
    for (int i = 0; i < 40; ++i) {
        CachelotOptions o; memset(&o, 0, sizeof o);
        size_t ps = size_t(1) << r.range(0, 40); if (r.chance(20)) ps += r.below(3); if (r.chance(5)) ps = 0; if (r.chance(50)) ps = size_t(1) << r.range(8, 16);
        size_t ml = size_t(1) << r.range(4, 24); if (r.chance(15)) ml += r.below(3) * 1024; if (r.chance(5)) ml = 0; if (r.chance(3)) ml = ~size_t(0);
        size_t ds = size_t(1) << r.range(0, 18); if (r.chance(10)) ds = r.below(40); if (r.chance(4)) ds = size_t(1) << r.range(32, 63);
        o.memory_limit = ml; o.mem_page_size = ps; o.initial_dict_size = ds; o.enable_evictions = r.chance(50);
        auto p2 = [](size_t x) { return x && !(x & (x - 1)); };
        bool ok = p2(ml) && p2(ps) && p2(ds) && ps >= 256 && ps <= 0xffffffffull && ml / 4 >= ps && ds <= 0xffffffffull;
        Err e; CachelotPtr c = cachelot_init(o, &e.e);
        vh::trace("init(memory=%zu page=%zu dict=%zu) = %d", ml, ps, ds, c != nullptr);
        VH_CHECK((c != nullptr) == ok, "cache of memory=%zu page=%zu dict=%zu was %s", ml, ps, ds, c ? "accepted" : "refused");
        if (!ok) { e.set("init"); vh::count("bad_options_refused"); } else { e.clear("init"); cachelot_destroy(c); vh::count("good_options"); }
        if (!ok) VH_CHECK(cachelot_init(o, nullptr) == nullptr, "init without the error argument");
        vh::sig(1, ok, ps, ml);
    }
    cachelot_destroy(nullptr);
}

static void one_case(Rng & r, long n) {
    vh::vclock_ns = 1000000ll * 1000000000ll;
    VH_CHECK(cachelot_version() && *cachelot_version(), "no version");
    options_case(r);
    CachelotOptions o; o.mem_page_size = size_t(1) << r.range(9, 14); o.memory_limit = o.mem_page_size << r.range(2, 6); o.initial_dict_size = size_t(1) << r.range(0, 8); o.enable_evictions = !malloc_mode && r.chance(60);
    const size_t page = o.mem_page_size;
    vh::trace("config memory=%zu page=%zu evict=%d", o.memory_limit, page, int(o.enable_evictions));
    Err e; CachelotPtr c = cachelot_init(o, &e.e); VH_CHECK(c != nullptr, "init failed: %s", e.e.desription); e.clear("init");
    std::map<str, E> m; g_model = &m; g_evicted = 0; g_may_evict = false; g_cb = true;
    cachelot_on_eviction_callback(c, on_evicted);
    auto K = [&](const str & k) { CachelotItemKey x; x.key = k.data(); x.keylen = k.size(); x.hash = cachelot_hash(k.data(), k.size()); VH_CHECK(x.hash == fnv(k), "hash of '%s'", vh::show(k).c_str()); return x; };
    auto live = [&](const str & k) { auto it = m.find(k); return it != m.end() && alive(it->second); };
    long ops = long(1200 * vh::opt.scale); uint64_t keyspace = r.range(4, 300);
    size_t vmax = r.chance(50) ? page / 8 : page / 2;
    auto check_get = [&](const str & k) {
        bool pass = r.chance(90); e.dirty(); CachelotConstItemPtr i = cachelot_get_unsafe(c, K(k), pass ? &e.e : nullptr);
        if (pass) e.clear("get");
        VH_CHECK((i != nullptr) == live(k), "get '%s' %s", vh::show(k).c_str(), i ? "returned an item that is not stored" : "lost a stored item");
        if (!i) return;
        str gk(cachelot_item_get_key(i), cachelot_item_get_keylen(i)), gv(cachelot_item_get_value(i), cachelot_item_get_valuelen(i));
        VH_CHECK(gk == k, "get '%s' returned the item '%s'", vh::show(k).c_str(), vh::show(gk).c_str());
        VH_CHECK(gv == m[k].v, "get '%s' returned '%s', stored '%s'", vh::show(k).c_str(), vh::show(gv).c_str(), vh::show(m[k].v).c_str());
        uint32_t ttl = cachelot_item_get_ttl_seconds(i);
        if (m[k].exp < 0) VH_CHECK(ttl == cachelot_infinite_TTL, "time to live of '%s' is %u, expected infinite", vh::show(k).c_str(), ttl);
        else VH_CHECK(int64_t(ttl) == m[k].exp - vh::vnow_s(), "time to live of '%s' is %u, expected %lld", vh::show(k).c_str(), ttl, (long long)(m[k].exp - vh::vnow_s()));
        vh::count("gets_hit");
    };
    for (long op = 0; op < ops; ++op) {
        str k = "k" + std::to_string(r.below(keyspace)); if (r.chance(10)) k += str(r.below(200), 'x');
        if (r.one_in(80)) k = r.bytes(1 + r.below(30));
        if (r.one_in(400)) k = str(r.range(200, 255), 'y');
        unsigned d = unsigned(r.below(100));
        if (d < 50) { // stores
            str v = r.chance(30) ? std::to_string(r.next() >> r.below(64)) : r.bytes(r.chance(4) ? r.below(vmax) : r.below(60));
            if (r.one_in(60)) v = str(page - r.below(40) + r.below(80), 'B');
            int kind = int(r.below(6)); static const char * const names[] = {"set", "set", "add", "replace", "append", "prepend"};
            uint64_t ev0 = g_evicted; g_may_evict = o.enable_evictions; e.dirty();
            CachelotItemPtr i = cachelot_create_item_raw(c, K(k), v.data(), v.size(), &e.e);
            g_may_evict = false;
            bool possible = v.size() + k.size() + 8 <= page;   // certainly impossible when this is false
            if (!i) {
                e.set("create_item"); vh::trace("create %s (%zu) refused: %s", vh::show(k, 20).c_str(), v.size(), e.e.desription);
                if (o.enable_evictions && k.size() <= 250) VH_CHECK(v.size() + k.size() + 128 > page, "item of %zu+%zu bytes refused ('%s') by a cache with pages of %zu that may evict", k.size(), v.size(), e.e.desription, page);
                vh::count("create_refused");
                check_get(k); continue;
            }
            e.clear("create_item");
            VH_CHECK(k.size() <= 250, "key of %zu bytes accepted", k.size());
            VH_CHECK(possible || malloc_mode, "item of %zu bytes accepted; page is %zu", v.size(), page);
            VH_CHECK(str(cachelot_item_get_key(i), cachelot_item_get_keylen(i)) == k && str(cachelot_item_get_value(i), cachelot_item_get_valuelen(i)) == v, "new item has other content than given");
            VH_CHECK(cachelot_item_get_ttl_seconds(i) == cachelot_infinite_TTL, "new item has a time to live of %u", cachelot_item_get_ttl_seconds(i));
            if (r.one_in(12)) { cachelot_destroy_item(c, i); vh::trace("create+destroy %s", vh::show(k, 20).c_str()); check_get(k); vh::count("destroyed"); continue; }
            int64_t exp = -1;
            if (r.chance(25)) { uint32_t ttl = r.chance(80) ? uint32_t(1 + r.below(50)) : uint32_t(1 + r.logn(1u << 31)); cachelot_item_set_ttl_seconds(i, ttl); exp = vh::vnow_s() + ttl; VH_CHECK(cachelot_item_get_ttl_seconds(i) == ttl, "time to live set to %u reads back as %u", ttl, cachelot_item_get_ttl_seconds(i)); }
            else if (r.chance(10)) { cachelot_item_set_ttl_seconds(i, 5); cachelot_item_set_ttl_seconds(i, cachelot_infinite_TTL); VH_CHECK(cachelot_item_get_ttl_seconds(i) == cachelot_infinite_TTL, "infinite time to live reads back as %u", cachelot_item_get_ttl_seconds(i)); }
            e.dirty(); bool was = live(k), ret, want;
            uint64_t ev1 = g_evicted;
            switch (kind) {
            case 2: ret = cachelot_add(c, i, &e.e); want = !was; break;
            case 3: ret = cachelot_replace(c, i, &e.e); want = was; break;
            case 4: ret = cachelot_append(c, i, &e.e); want = was; break;
            case 5: ret = cachelot_prepend(c, i, &e.e); want = was; break;
            default: ret = cachelot_set(c, i, &e.e); want = true; break;
            }
            vh::trace("%s %s %zuB exp=%lld -> %d err=%d (%llu evicted)", names[kind], vh::show(k, 20).c_str(), v.size(), (long long) exp, ret, e.e.code, (unsigned long long)(g_evicted - ev0));
            VH_CHECK(g_evicted == ev1, "storing a created item evicted others");
            if (kind >= 4 && want && !ret && e.e.category != nullptr) { // no memory for the joined value
                e.set(names[kind]); VH_CHECK(!malloc_mode || m[k].v.size() + v.size() + k.size() + 64 > page, "%s failed: %s", names[kind], e.e.desription); vh::count("join_refused"); check_get(k); continue; }
            e.clear(names[kind]);
            VH_CHECK(ret == want, "%s '%s' returned %d; key was %s", names[kind], vh::show(k).c_str(), int(ret), was ? "stored" : "absent");
            if (ret) {
                if (kind == 4) m[k].v += v; else if (kind == 5) m[k].v = v + m[k].v; else m[k] = E{v, exp};
            } else if (m.count(k) && !alive(m[k])) m.erase(k);
            vh::sig(2, kind, ret, was); vh::count("stores");
            check_get(k);
        } else if (d < 70) check_get(k);
        else if (d < 77) { e.dirty(); bool was = live(k); bool pass = r.chance(90); bool ret = cachelot_delete(c, K(k), pass ? &e.e : nullptr); if (pass) e.clear("delete"); VH_CHECK(ret == was, "delete '%s' returned %d", vh::show(k).c_str(), int(ret)); m.erase(k); vh::trace("delete %s %d", vh::show(k, 20).c_str(), ret); check_get(k); vh::sig(3, was); }
        else if (d < 82) { e.dirty(); bool was = live(k); uint32_t ttl = r.chance(70) ? uint32_t(1 + r.below(100)) : uint32_t(1 + r.logn(1u << 31)); bool inf = r.chance(30); bool ret = cachelot_touch(c, K(k), inf ? cachelot_infinite_TTL : ttl, &e.e); e.clear("touch"); VH_CHECK(ret == was, "touch '%s' returned %d", vh::show(k).c_str(), int(ret)); if (was) m[k].exp = inf ? -1 : vh::vnow_s() + ttl; vh::trace("touch %s %u", vh::show(k, 20).c_str(), ttl); check_get(k); vh::sig(4, was, inf); }
        else if (d < 94) {
            bool inc = r.chance(50); uint64_t delta = r.next() >> r.below(64), res = 424242, cur = 0; e.dirty(); bool was = live(k), num = was && numeric(m[k].v, cur);
            g_may_evict = o.enable_evictions; bool np = r.chance(10);
            E saved; if (m.count(k)) saved = m[k];
            bool ret = (inc ? cachelot_incr : cachelot_decr)(c, K(k), delta, np ? nullptr : &res, &e.e); g_may_evict = false;
            vh::trace("%s %s by %llu -> %d %llu err=%d", inc ? "incr" : "decr", vh::show(k, 20).c_str(), (unsigned long long) delta, ret, (unsigned long long) res, e.e.code);
            if (!was) { VH_CHECK(!ret, "arithmetic on the absent '%s'", vh::show(k).c_str()); e.clear("arithmetic on absent key"); vh::sig(5, inc); }
            else if (!num) { VH_CHECK(!ret, "arithmetic on non-numeric '%s'", vh::show(m[k].v).c_str()); e.set("arithmetic on non-number"); vh::sig(6, inc); check_get(k); }
            else if (!ret) { e.set("arithmetic"); check_get(k); VH_CHECK(!o.enable_evictions, "arithmetic failed: %s", e.e.desription); vh::count("arith_refused"); }
            else { uint64_t want = inc ? (~0ull - cur < delta ? ~0ull : cur + delta) : (cur > delta ? cur - delta : 0); e.clear("arithmetic"); if (!np) VH_CHECK(res == want, "%s %llu by %llu gave %llu", inc ? "incr" : "decr", (unsigned long long) cur, (unsigned long long) delta, (unsigned long long) res); 
if (!m.count(k)) { m[k] = saved; vh::count("arith_evicted_own_item"); }
                auto it = m.find(k); it->second.v = std::to_string(want); check_get(k); vh::sig(7, inc, std::to_string(want).size(), std::to_string(cur).size()); vh::count("arith"); }
        } else if (d < 96) { vh::vclock_ns += int64_t(r.chance(85) ? 1 + r.below(30) : 1 + r.logn(1u << 22)) * 1000000000ll; vh::trace("time +"); }
        else if (d < 98) { e.dirty(); cachelot_flush_all(c, &e.e); e.clear("flush_all"); vh::trace("flush_all"); for (auto it = m.begin(); it != m.end();) if (!alive(it->second)) it = m.erase(it); else ++it; vh::count("flushes"); }
        else if (d < 99) { bool reset = r.chance(50) && !o.enable_evictions; cachelot_on_eviction_callback(c, reset ? nullptr : on_evicted); g_cb = !reset; }
        if (op % 200 == 199) { std::vector<str> keys; for (auto & x : m) keys.push_back(x.first); for (auto & q : keys) check_get(q); vh::count("full_sweeps"); }
    }
    if (o.enable_evictions) { // after the callback is reset evictions go unreported, and nothing else changes
        cachelot_on_eviction_callback(c, nullptr); g_cb = false;
        for (int i = 0; i < 400; ++i) { str k = "z" + std::to_string(i), v(100, 'z'); Err q; CachelotItemPtr it = cachelot_create_item_raw(c, K(k), v.data(), v.size(), &q.e); VH_CHECK(it != nullptr, "create failed: %s", q.e.desription); VH_CHECK(cachelot_set(c, it, nullptr), "set failed"); CachelotConstItemPtr g = cachelot_get_unsafe(c, K(k), nullptr); VH_CHECK(g && str(cachelot_item_get_value(g), cachelot_item_get_valuelen(g)) == v, "item just stored is lost"); }
    }
    cachelot_destroy(c);
    if (n < 2) vh::sample("memory=%zu page=%zu evictions=%d: %ld operations, %llu evictions reported", o.memory_limit, page, int(o.enable_evictions), ops, (unsigned long long) g_evicted);
}
int main(int argc, char ** argv) { vh::parse(argc, argv); return vh::run_cases([](Rng & r, long n) { one_case(r, n); }); }
