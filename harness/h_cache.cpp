// Cache histories against a sequential reference model.
// The real cache executes randomly generated histories; after every operation an online checker
// compares each observable outcome (return values, item contents, flags, uniques, evictions
// reported, errors, statistics) with the model. Profiles focus the workload on one property.
#include "vh.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <functional>
#include <memory>
#if defined(ADDRESS_SANITIZER)
#include <sanitizer/allocator_interface.h>
#endif

using namespace cachelot;
using cache::Cache;
using cache::ItemPtr;
using cache::ConstItemPtr;
using vh::Rng;
typedef std::string str;

static const uint64_t INF = ~0ull;
#if defined(ADDRESS_SANITIZER)
static const bool malloc_mode = true;    // items live on the host heap: no arena limits, no evictions
#else
static const bool malloc_mode = false;
#endif

static str S(const slice s) { return str(s.begin(), s.length()); }

struct Entry {
    str value; uint16_t flags; uint64_t lo, hi; uint64_t cas; uint32_t hash; bool ttl_touched;
};

struct Cfg {
    size_t mem = 1 << 20, page = 1 << 14, dict = 16; bool evict = true;
    int hash_mode = 0;           // 0 fnv, 1 low entropy, 2 constant, 3 clustered, 4 zero for some, 5 same low bits
    uint64_t keyspace = 200; size_t key_max = 40; size_t val_max = 300; unsigned big_val_percent = 3, boundary_percent = 0;
    bool binary_keys = false;
    unsigned age_every = 0;
    unsigned w_get = 20, w_set = 20, w_add = 6, w_replace = 6, w_cas = 8, w_append = 5, w_prepend = 5, w_delete = 8,
             w_touch = 4, w_incr = 5, w_decr = 5, w_flush = 1, w_time = 4, w_abandon = 2, w_num = 6;
    unsigned ttl_percent = 20; uint64_t ttl_max = 30; bool huge_ttl = false; bool ticks = false;
    uint64_t nops = 2000; unsigned sweep_every = 200;
    bool own_stats = true, check_stats = false, check_lru = false, unique_growth = false, shrinking_values = false;
};

// the largest item of this page size, as the allocator states it (asked before the cache exists: arenas share statistics)
static size_t limit_of(size_t page) {
    static std::map<size_t, size_t> known; size_t & l = known[page];
    if (!l) { memalloc ma(page * 4, uint32_t(page)); l = ma.max_alloc_size(); VH_CHECK(l <= page && l + 64 >= page, "pages of %zu bytes take items of %zu bytes at most", page, l); }
    return l;
}

struct Host {
    Cfg cfg; Rng & r; size_t max_item; std::unique_ptr<Cache> cp; std::map<str, Entry> m; std::map<str, Entry> ghosts;
    uint64_t pages; size_t hdr_slack = 64;
    uint64_t opno = 0, next_unique = 0; str last_access; bool in_store = false; bool evict_allowed = false;
    size_t evicted_bytes = 0, evicted_count = 0; bool create_in_progress = false;
    std::map<str, std::set<uint64_t>> uniques_seen;
    // expected statistics
    std::map<str, uint64_t> st;
    uint64_t total_evictions = 0;

    std::vector<std::unique_ptr<Cache>> left;
    Host(const Cfg & k, Rng & rng) : cfg(k), r(rng), max_item(limit_of(k.page)), cp(new Cache(Cache::Create(k.mem, k.page, k.dict, k.evict))), pages(k.mem / k.page) {
        c().on_eviction = [this](ConstItemPtr i) { evicted(i); };
    }

    Cache & c() { return *cp; }
    // the cache continues its life in another object
    void relocate() { std::unique_ptr<Cache> other(new Cache(std::move(*cp))); cp.swap(other); vh::count("moves");
        // the object left behind dies at once or some time later
        if (r.chance(50)) left.push_back(std::move(other));
        if (!left.empty() && r.chance(40)) { std::swap(left.back(), left[r.below(left.size())]); left.pop_back(); }
    }
    uint32_t hash_of(const str & k) {
        uint32_t f = cache::HashFunction()(slice(k.data(), k.size()));
        switch (cfg.hash_mode) {
        case 1: return (f & 15) + 1;
        case 2: return 0x1234;
        case 3: return 0xfffffff0u + (f & 15);
        case 4: return (f & 3) == 0 ? 0 : (f & 31);
        case 5: return (f & 0xffff0000u) | 0x7;
        default: return f;
        }
    }
    str make_key() {
        uint64_t id;
        if (cfg.unique_growth && r.chance(60)) id = next_unique++;
        else if (cfg.unique_growth && next_unique) id = r.below(next_unique);
        else id = r.chance(50) ? r.below(cfg.keyspace) : r.below(1 + cfg.keyspace / 8);
        return key_of(id);
    }
    str key_of(uint64_t id) {
        str k = "k" + std::to_string(id);
        uint64_t x = id * 0x9e3779b97f4a7c15ull;
        if ((x >> 60) == 3 && cfg.key_max > 20) { // some keys are long
            size_t len = 20 + (x >> 20) % (cfg.key_max - 19);
            if ((x >> 57) % 3 == 0) len = cfg.key_max;
            while (k.size() < len) k += char('a' + (k.size() + id) % 26);
        }
        if (cfg.binary_keys && (x >> 50) % 4 == 1) { k += char(0); k += char(0xff); k += "\r\n "; }
        // families of keys which differ late, behind a zero byte, or in one bit only
        if (cfg.binary_keys && (x >> 50) % 4 == 2) { k = str("q\0r", 3) + char(id); k += char(0); k += char(id >> 8); }
        if (cfg.binary_keys && (x >> 50) % 4 == 3) { k = "common-prefix-of-some-length:" + std::to_string(id); k[id % 7] ^= char(0x80); }
        return k;
    }
    size_t size_required(const str & k, size_t vlen) {
        const size_t over = k.size() > 250 ? k.size() - 250 : 0;
        return cache::Item::CalcSizeRequired(slice(k.data(), k.size() - over), vlen) + over;
    }
    size_t limit() const { return max_item; }
    bool must_fit(size_t required) { return required <= limit(); }
    bool must_refuse(size_t required) { return required > limit(); }
    // a value that makes the item as big as the limit, give or take a few bytes
    str boundary_value(const str & k, size_t already) {
        const size_t over = size_required(k, 0) + already; const size_t want = limit() + r.below(7) - 3;
        vh::count("boundary_sizes"); return r.bytes(want > over ? want - over : 0);
    }

    str make_value() {
        size_t n;
        if (cfg.shrinking_values) { if (!full_at && (total_evictions || st["oom"])) full_at = opno;
            size_t top = full_at ? std::max<size_t>(4, cfg.val_max - cfg.val_max * std::min<uint64_t>(opno - full_at, cfg.nops / 2) / (cfg.nops / 2)) : cfg.val_max; n = growing ? cfg.val_max - r.below(20) : r.below(top + 1); }
        else if (r.chance(cfg.big_val_percent)) n = r.below(cfg.page + 40);
        else n = r.chance(40) ? r.logn(cfg.val_max) : r.below(cfg.val_max + 1);
        return r.bytes(n);
    }
    str make_number() {
        switch (r.below(8)) {
        case 0: return std::to_string(r.below(10));
        case 1: return std::to_string(r.next());
        case 2: return std::to_string(~0ull - r.below(12));
        case 3: { uint64_t p = 1; for (uint64_t i = r.below(20); i; --i) p *= 10; return std::to_string(p - r.below(3)); }
        case 4: return std::to_string(10000000000000000000ull + r.logn(8446744073709551615ull));
        case 5: return std::to_string(r.logn(~0ull >> 1));
        case 6: return std::to_string(18446744073709551600ull + r.below(16));
        default: return std::to_string(r.below(100000));
        }
    }
    uint64_t make_delta(const str & cur) {
        uint64_t v = strtoull(cur.c_str(), nullptr, 10);
        switch (r.below(8)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return r.next();
        case 3: return ~0ull - v;             // exactly to the maximum
        case 4: return ~0ull - v + 1;         // one beyond
        case 5: return v;                     // exactly to zero
        case 6: return v + 1;                 // one below zero
        default: return r.logn(~0ull >> 1);
        }
    }
    // ---- virtual time --------------------------------------------------------
    uint64_t t0 = 0, t1 = 0;
    void op_begin() {
        ++opno;
        t0 = vh::vnow_s();
        if (cfg.ticks && r.chance(50)) { vh::vclock_tick_call = r.below(5); vh::vclock_tick_ns = int64_t(1 + r.below(3)) * 1000000000ll; }
    }
    void op_end() { t1 = vh::vnow_s(); vh::vclock_tick_call = -1; }
    enum Live { ALIVE, DEAD, EITHER, ABSENT };
    Live live(const str & k) {
        auto it = m.find(k);
        if (it == m.end()) return ABSENT;
        if (it->second.lo > t1) return ALIVE;
        if (it->second.hi <= t0) return DEAD;
        return EITHER;
    }
    void forget(const str & k) { auto it = m.find(k); if (it != m.end()) { ghosts[k] = it->second; m.erase(it); } }
    const char * ls(Live l) { return l == ALIVE ? "live" : l == DEAD ? "expired" : l == EITHER ? "expiring" : "absent"; }
    // resolve "found" reported by the cache for key k against the model; returns found
    bool resolve(const char * op, const str & k, bool found) {
        Live l = live(k);
        vh::sig(vh::h64(op, strlen(op)), l, found, cfg.hash_mode * 8 + cfg.evict);
        VH_CHECK(!(found && l == ABSENT), "%s(%s) found a key that is not stored", op, vh::show(k).c_str());
        VH_CHECK(!(found && l == DEAD), "%s(%s) found an item that expired (expires at %llu, now %llu)", op, vh::show(k).c_str(),
                 (unsigned long long) m[k].hi, (unsigned long long) t0);
        VH_CHECK(!(!found && l == ALIVE), "%s(%s) lost a live item (expires at %lld, now %llu, stored hash %u)", op, vh::show(k).c_str(),
                 (long long) m[k].lo, (unsigned long long) t1, m[k].hash);
        if (!found && l != ABSENT) { forget(k); vh::count("expired_observed"); }
        if (found) {
            if (l == EITHER) vh::count("expiring_boundary_hits");
        }
        return found;
    }
    // ---- evictions -----------------------------------------------------------
    void evicted(ConstItemPtr i) {
        str k = S(i->key()), v = S(i->value());
        ++total_evictions; ++evicted_count; vh::count("evictions_observed");
        VH_CHECK(cfg.evict, "eviction of %s reported although evictions are disabled", vh::show(k).c_str());
        VH_CHECK(evict_allowed, "eviction of %s during an operation that stores nothing", vh::show(k).c_str());
        auto it = m.find(k);
        if (it == m.end()) {
            auto g = ghosts.find(k);
            VH_CHECK(g != ghosts.end() && g->second.value == v, "eviction reported for %s which is not stored", vh::show(k).c_str());
            ghosts.erase(g);
        } else {
            VH_CHECK(it->second.value == v, "evicted item %s: value differs from the stored one (%zu vs %zu bytes)", vh::show(k).c_str(), v.size(), it->second.value.size());
            VH_CHECK(it->second.flags == i->opaque_flags(), "evicted item %s: flags differ", vh::show(k).c_str());
            if (cfg.check_lru) VH_CHECK(k != last_access, "the most recently used item %s was evicted by the next store", vh::show(k).c_str());
            m.erase(it);
        }
        evicted_bytes += size_required(k, v.size());
    }
    void store_begin(size_t required) { evicted_bytes = evicted_count = 0; evict_allowed = true; stored_before = m.size() + ghosts.size(); req = required; }
    size_t stored_before = 0, req = 0;
    // some page holds nothing: a request that fits comfortably needs neither eviction nor an error
    bool room_certain(size_t extra) { return m_total() + extra < pages && req + cfg.page / 32 + 64 <= cfg.page; }
    size_t m_total() { return stored_before; }
    void store_end() {
        evict_allowed = false;
        VH_CHECK(evicted_bytes <= cfg.page, "one store evicted %zu bytes of items, more than a page (%zu)", evicted_bytes, cfg.page);
        VH_CHECK(!(evicted_count && room_certain(1)), "%zu items evicted although only %zu items are stored in %llu pages", evicted_count, m_total(), (unsigned long long) pages);
        if (evicted_count) { vh::sig(77, evicted_count > 63 ? 63 : evicted_count, cfg.page); vh::count("stores_with_eviction"); }
        ghosts_trim();
    }
    void ghosts_trim() {}

    // ---- item creation ---------------------------------------------------------
    ItemPtr create(const str & k, const str & v, uint16_t flags, uint64_t ttl) {
        size_t need = size_required(k, v.size());
        store_begin(need);
        str kcopy = k;
        ItemPtr i = nullptr;
        try {
            i = c().create_item(slice(kcopy.data(), kcopy.size()), hash_of(k), v.size(), flags, cache::seconds((uint32_t) ttl));
        } catch (const system_error & e) {
            store_end();
            err(e.code(), k, need, "create_item");
            return nullptr;
        }
        store_end();
        last_access.clear();
        VH_CHECK(k.size() <= 250, "create_item accepted a key of %zu bytes", k.size());
        VH_CHECK(!must_refuse(need), "create_item accepted an item of %zu bytes, page size is %zu", need, cfg.page);
        VH_CHECK(i != nullptr, "create_item returned null");
        VH_CHECK(uintptr_t(i) % sizeof(void *) == 0, "create_item returned unaligned memory");
        i->assign_value(slice(v.data(), v.size()));
        VH_CHECK(S(i->key()) == k && S(i->value()) == v && i->opaque_flags() == flags, "freshly created item %s does not read back", vh::show(k).c_str());
        vh::sig(5, need / 8, cfg.page);
        return i;
    }
    void err(const error_code & e, const str & k, size_t need, const char * what) {
        vh::count("errors_observed");
        vh::sig(6, e.value(), vh::h64(what, strlen(what)));
        if (k.size() > 250) { VH_CHECK(e == error::key_too_long, "%s: %zu-byte key refused with '%s'", what, k.size(), e.message().c_str()); return; }
        if (must_refuse(need)) { VH_CHECK(e == error::item_too_big || e == error::out_of_memory, "%s: oversized item refused with '%s'", what, e.message().c_str()); return; }
        if (must_fit(need)) {
            VH_CHECK(e == error::out_of_memory, "%s of %zu bytes (page %zu) refused with '%s'", what, need, cfg.page, e.message().c_str());
        }
        if (e == error::out_of_memory) {
            bool may_evict = cfg.evict && strcmp(what, "create_item") == 0;
            VH_CHECK(!may_evict, "%s of %zu bytes failed with out of memory although evictions are enabled", what, need);
            VH_CHECK(!room_certain(2), "%s of %zu bytes failed with out of memory with %zu items in %llu pages", what, need, m_total(), (unsigned long long) pages);
            vh::count("oom_observed"); st["oom"]++;
        }
    }
    void put(const str & k, const str & v, uint16_t flags, uint64_t ttl) {
        Entry & e = m[k];
        ghosts.erase(k);
        e.value = v; e.flags = flags; e.hash = hash_of(k);
        if (ttl == 0) e.lo = e.hi = INF;
        else { e.lo = t0 + ttl; e.hi = t1 + ttl; }
        e.cas = 0; // unknown until read
    }
    // read the key back and compare everything
    void verify_key(const str & k, bool record_cas = true) {
        t0 = vh::vnow_s(); vh::vclock_tick_call = -1; t1 = t0;
        str kc = k;
        auto i = c().do_get(slice(kc.data(), kc.size()), hash_of(k)); st["cmd_get"]++;
        resolve("get", k, i != nullptr);
        if (i) { st["get_hits"]++; verify_item("get", k, i, record_cas); last_access = k; } else { st["get_misses"]++; last_access.clear(); }
    }
    void verify_item(const char * op, const str & k, ConstItemPtr i, bool record_cas) {
        Entry & e = m[k];
        VH_CHECK(S(i->key()) == k, "%s(%s) returned the item of key %s", op, vh::show(k).c_str(), vh::show(S(i->key())).c_str());
        str v = S(i->value());
        VH_CHECK(v == e.value, "%s(%s): value is [%s] (%zu bytes), expected [%s] (%zu bytes)", op, vh::show(k).c_str(), vh::show(v).c_str(), v.size(), vh::show(e.value).c_str(), e.value.size());
        VH_CHECK(i->opaque_flags() == e.flags, "%s(%s): flags %u, expected %u", op, vh::show(k).c_str(), i->opaque_flags(), e.flags);
        uint64_t ts = i->timestamp();
        if (e.cas != 0) VH_CHECK(ts == e.cas, "%s(%s): unique changed from %llu to %llu without a modification", op, vh::show(k).c_str(), (unsigned long long) e.cas, (unsigned long long) ts);
        else if (record_cas) {
            auto & seen = uniques_seen[k];
            VH_CHECK(!seen.count(ts), "get(%s): unique %llu was already used by an earlier version of this item", vh::show(k).c_str(), (unsigned long long) ts);
            seen.insert(ts);
            e.cas = ts;
        }
        uint64_t ttl = i->ttl().count();
        if (e.lo == INF) VH_CHECK(ttl == 0, "item %s never expires but reports %llu seconds to live", vh::show(k).c_str(), (unsigned long long) ttl);
        else if (e.hi == INF) {}
        else if (e.hi < 4294967295ull) VH_CHECK(ttl + t1 >= e.lo && ttl + t0 <= e.hi, "item %s reports %llu seconds to live, expected %llu..%llu", vh::show(k).c_str(), (unsigned long long) ttl, (unsigned long long) (e.lo - t1), (unsigned long long) (e.hi - t0));
    }
    void modified(const str & k) { auto it = m.find(k); if (it != m.end()) it->second.cas = 0; }

    // ---- operations --------------------------------------------------------------
    uint64_t make_ttl() {
        if (!r.chance(cfg.ttl_percent)) return 0;
        if (cfg.huge_ttl && r.chance(25)) return 4294967295ull - r.logn(1u << 30);
        return 1 + r.logn(cfg.ttl_max);
    }
    void do_store(int kind) {
        static const char * names[] = {"set", "add", "replace", "cas", "append", "prepend"};
        str k = make_key();
        if (r.one_in(400)) k = str(r.range(248, 256), 'K') + std::to_string(r.below(3));
        str v = r.chance(cfg.w_num) ? make_number() : make_value();
        if (r.chance(cfg.boundary_percent)) { auto it = m.find(k); v = boundary_value(k, kind >= 4 && it != m.end() ? it->second.value.size() : 0); }
        uint16_t flags = r.chance(30) ? uint16_t(r.next()) : 0; uint64_t ttl = make_ttl();
        uint64_t unique = 0; bool stale = false;
        if (kind == 3) {
            auto it = m.find(k);
            if (it != m.end() && it->second.cas == 0) verify_key(k);
            it = m.find(k);
            if (it != m.end() && r.chance(60)) unique = it->second.cas;
            else if (it != m.end() && r.chance(70)) { auto & seen = uniques_seen[k]; auto s = seen.begin(); std::advance(s, r.below(seen.size())); unique = *s; stale = unique != it->second.cas; }
            else if (it != m.end() && r.chance(50)) { // differs from the current one in few bits
                unique = it->second.cas; for (uint64_t n = 1 + r.below(2); n; --n) unique ^= 1ull << r.below(64);
                if (r.chance(30)) unique = it->second.cas + (r.range(1, 1000) << 32);
            }
            else unique = r.chance(50) ? r.next() : (it != m.end() ? it->second.cas + (r.chance(50) ? 1 : -1) : r.below(100));
        }
        bool was_absent = !m.count(k) && !ghosts.count(k);
        op_begin();
        vh::trace("#%llu %s key=%s vlen=%zu flags=%u ttl=%llu unique=%llu t=%llu", (unsigned long long) opno, names[kind], vh::show(k).c_str(), v.size(), flags, (unsigned long long) ttl, (unsigned long long) unique, (unsigned long long) t0);
        ItemPtr i = create(k, v, flags, ttl);
        if (!i) { op_end(); if (k.size() <= 250 && r.chance(30)) verify_key(k); return; }
        bool found = false, stored = false;
        try {
            switch (kind) {
            case 0: c().do_set(i); op_end(); st["cmd_set"]++; {
                    Live l = live(k);
                    if (l == ABSENT || l == DEAD) st["set_new"]++; else if (l == ALIVE) st["set_existing"]++; else st["set_either"]++;
                    vh::sig(9, l, cfg.hash_mode);
                    put(k, v, flags, ttl);
                } break;
            case 1: stored = c().do_add(i); op_end(); st["cmd_add"]++; resolve("add", k, !stored); st[stored ? "add_stored" : "add_not_stored"]++;
                if (stored) { put(k, v, flags, ttl); } break;
            case 2: found = c().do_replace(i); op_end(); st["cmd_replace"]++; resolve("replace", k, found); st[found ? "replace_stored" : "replace_not_stored"]++;
                if (found) put(k, v, flags, ttl); break;
            case 3: {
                std::tie(found, stored) = c().do_cas(i, unique); op_end(); st["cmd_cas"]++; resolve("cas", k, found);
                VH_CHECK(!(stored && !found), "cas(%s) stored but not found", vh::show(k).c_str());
                if (found) {
                    bool match = m[k].cas == unique;
                    VH_CHECK(stored == match, "cas(%s) with %s unique %llu (current %llu) %s", vh::show(k).c_str(), match ? "the current" : "a different", (unsigned long long) unique, (unsigned long long) m[k].cas, stored ? "stored" : "did not store");
                    vh::count(stored ? "cas_stored" : stale ? "cas_stale_refused" : "cas_refused");
                    st[stored ? "cas_stored" : "cas_badval"]++;
                    if (stored) put(k, v, flags, ttl);
                } else st["cas_misses"]++;
                } break;
            default: {
                size_t before = m.count(k) ? m[k].value.size() : 0;
                req = size_required(k, before + v.size());
                str opn = names[kind];
                try {
                    found = kind == 4 ? c().do_append(i) : c().do_prepend(i);
                } catch (const system_error & e) {
                    op_end(); st["cmd_" + opn]++; st["extend_errors"]++;
                    vh::trace("   -> error %s", e.code().message().c_str());
                    VH_CHECK(live(k) != ABSENT && live(k) != DEAD, "%s(%s) of a missing key failed with '%s'", names[kind], vh::show(k).c_str(), e.code().message().c_str());
                    err(e.code(), k, req, names[kind]);
                    verify_key(k, false);
                    return;
                }
                op_end(); st["cmd_" + opn]++;
                resolve(names[kind], k, found); st[opn + (found ? "_stored" : "_misses")]++;
                if (found) {
                    VH_CHECK(!must_refuse(req), "%s(%s) produced an item of %zu bytes, page size is %zu", names[kind], vh::show(k).c_str(), req, cfg.page);
                    Entry & e = m[k];
                    e.value = kind == 4 ? e.value + v : v + e.value;
                    if (e.lo != INF) e.hi += t1 - t0;
                    e.cas = 0;
                    vh::count("extends_stored");
                }
                } break;
            }
        } catch (const std::bad_alloc &) {
            vh::violate("%s(%s) failed with bad_alloc without any allocation fault", names[kind], vh::show(k).c_str());
        }
        vh::count(names[kind]);
        // (a store over an existing item also uses the page of the old one, so only new items are certain to be the most recent)
        last_access = was_absent && m.count(k) ? k : str();
        if (r.chance(40)) verify_key(k);
    }
    void do_arith(bool incr) {
        str k = make_key();
        if (r.chance(70)) { // prefer numeric keys
            for (int n = 0; n < 12; ++n) { auto it = m.lower_bound(key_of(r.below(cfg.keyspace))); if (it != m.end() && !it->second.value.empty() && isdigit((unsigned char) it->second.value[0])) { k = it->first; break; } }
        }
        auto it = m.find(k);
        uint64_t d = make_delta(it != m.end() ? it->second.value : str("5"));
        size_t need = size_required(k, 20);
        const char * op = incr ? "incr" : "decr";
        op_begin();
        vh::trace("#%llu %s key=%s delta=%llu cur=[%s] t=%llu", (unsigned long long) opno, op, vh::show(k).c_str(), (unsigned long long) d, it != m.end() ? vh::show(it->second.value, 24).c_str() : "", (unsigned long long) t0);
        bool numeric = false, maybe = false; uint64_t cur = 0;
        if (it != m.end()) classify(it->second.value, numeric, maybe, cur);
        last_access.clear();
        store_begin(need);
        bool found = false; uint64_t nv = 0;
        str cmd = str("cmd_") + op;
        try {
            std::tie(found, nv) = incr ? c().do_incr(slice(k.data(), k.size()), hash_of(k), d) : c().do_decr(slice(k.data(), k.size()), hash_of(k), d);
        } catch (const system_error & e) {
            store_end(); op_end(); st[cmd]++; st["arith_errors"]++;
            vh::trace("   -> error %s", e.code().message().c_str());
            VH_CHECK(live(k) != ABSENT && live(k) != DEAD, "%s(%s) of a missing key failed with '%s'", op, vh::show(k).c_str(), e.code().message().c_str());
            if (e.code() == error::out_of_memory) { VH_CHECK(!cfg.evict, "%s(%s) failed with out of memory although evictions are enabled", op, vh::show(k).c_str()); vh::count("oom_observed");
                VH_CHECK(!room_certain(2), "%s failed with out of memory with %zu items in %llu pages", op, m_total(), (unsigned long long) pages); st["arith_oom"]++; }
            else if (e.code() == error::item_too_big && !must_fit(need)) {}
            else {
                VH_CHECK(e.code() == error::numeric_convert || e.code() == error::numeric_overflow, "%s(%s) failed with '%s'", op, vh::show(k).c_str(), e.code().message().c_str());
                VH_CHECK(!numeric || maybe, "%s(%s) refused the number [%s]", op, vh::show(k).c_str(), vh::show(m[k].value).c_str());
            }
            if (m.count(k)) verify_key(k, false);
            return;
        }
        store_end(); op_end(); st[cmd]++;
        resolve(op, k, found); st[str(op) + (found ? "_hits" : "_misses")]++;
        if (found) {
            Entry & e = m[k];
            VH_CHECK(numeric || maybe, "%s(%s) accepted the value [%s] as a number", op, vh::show(k).c_str(), vh::show(e.value).c_str());
            uint64_t want = incr ? (cur > ~0ull - d ? ~0ull : cur + d) : (cur < d ? 0 : cur - d);
            VH_CHECK(nv == want, "%s(%s, %llu) of %llu returned %llu, expected %llu", op, vh::show(k).c_str(), (unsigned long long) d, (unsigned long long) cur, (unsigned long long) nv, (unsigned long long) want);
            e.value = std::to_string(want); e.cas = 0;
            if (e.lo != INF) e.hi += t1 - t0;
            vh::count(incr ? "incr_hits" : "decr_hits");
            if (want == ~0ull || want == 0) vh::count("arith_saturated_or_bound");
            vh::sig(11, e.value.size(), std::to_string(cur).size(), incr);
            if (r.chance(70)) verify_key(k);
        }
    }
    static void classify(const str & v, bool & numeric, bool & maybe, uint64_t & cur) {
        numeric = maybe = false; cur = 0;
        if (v.empty() || v.size() > 40) return;
        for (char ch : v) if (!isdigit((unsigned char) ch)) { maybe = v[0] == '+' || v[0] == '-' || v[0] == ' '; if (maybe) return; return; }
        __uint128_t x = 0;
        for (char ch : v) { x = x * 10 + (ch - '0'); if (x > ~0ull) return; }
        cur = (uint64_t) x; numeric = true; maybe = v.size() > 1 && v[0] == '0';
    }
    void do_get() {
        str k = r.chance(85) ? make_key() : key_of(cfg.keyspace + r.below(50));
        ++opno; vh::trace("#%llu get key=%s t=%lld", (unsigned long long) opno, vh::show(k).c_str(), (long long) vh::vnow_s());
        op_begin();
        auto i = c().do_get(slice(k.data(), k.size()), hash_of(k));
        op_end(); st["cmd_get"]++;
        resolve("get", k, i != nullptr);
        if (i) { st["get_hits"]++; vh::count("get_hits"); verify_item("get", k, i, true); last_access = k; } else { st["get_misses"]++; vh::count("get_misses"); last_access.clear(); }
    }
    void do_delete() {
        str k = make_key(); op_begin(); vh::trace("#%llu delete key=%s", (unsigned long long) opno, vh::show(k).c_str());
        bool found = c().do_delete(slice(k.data(), k.size()), hash_of(k)); op_end(); st["cmd_delete"]++;
        resolve("delete", k, found); st[found ? "delete_hits" : "delete_misses"]++; last_access.clear();
        if (found) { m.erase(k); ghosts.erase(k); vh::count("deletes"); }
        if (r.chance(50)) verify_key(k);
    }
    void do_touch() {
        str k = make_key(); uint64_t ttl = r.chance(20) ? 0 : make_ttl(); op_begin(); vh::trace("#%llu touch key=%s ttl=%llu t=%llu", (unsigned long long) opno, vh::show(k).c_str(), (unsigned long long) ttl, (unsigned long long) t0);
        bool found = c().do_touch(slice(k.data(), k.size()), hash_of(k), cache::seconds((uint32_t) ttl)); op_end(); st["cmd_touch"]++;
        resolve("touch", k, found); st[found ? "touch_hits" : "touch_misses"]++; last_access.clear();
        if (found) { Entry & e = m[k]; if (ttl == 0) e.lo = e.hi = INF; else { e.lo = t0 + ttl; e.hi = t1 + ttl; } vh::count("touches"); last_access = k; }
        if (r.chance(30)) verify_key(k, false);
    }
    void do_flush() {
        op_begin(); vh::trace("#%llu flush_all t=%llu", (unsigned long long) opno, (unsigned long long) t0);
        c().do_flush_all(); op_end(); st["cmd_flush"]++; last_access.clear();
        for (auto it = m.begin(); it != m.end();) { if (it->second.hi <= t0) { it = m.erase(it); vh::count("flushed_expired"); } else ++it; }
        ghosts.clear();
        vh::count("flush_all");
    }
    void do_time() {
        int64_t step;
        switch (r.below(6)) { case 0: step = r.below(1000000000); break; case 1: step = 1000000000ll * r.range(1, 3); break; case 2: step = 999999999; break;
            case 3: step = 1000000000ll * r.range(1, cfg.ttl_max + 2); break; default: step = 1000000000ll; }
        // stop right at, before or after an expiration boundary sometimes
        if (!m.empty() && r.chance(40)) {
            auto it = m.begin(); std::advance(it, r.below(std::min<size_t>(m.size(), 50)));
            if (it->second.lo != INF && it->second.lo > (uint64_t) vh::vnow_s() && it->second.lo < (uint64_t) vh::vnow_s() + 1000) {
                int64_t target = (int64_t) it->second.lo * 1000000000ll + (r.chance(33) ? 0 : r.chance(50) ? -1 : (int64_t) r.below(999999999));
                if (target > vh::vclock_ns) step = target - vh::vclock_ns;
            }
        }
        vh::vclock_ns += step; vh::trace("#%llu time += %lld ns -> %lld", (unsigned long long) opno, (long long) step, (long long) vh::vnow_s());
        vh::count("clock_moves");
    }
    void do_abandon() { // create an item and give it back
        str k = make_key(), v = make_value(); op_begin(); vh::trace("#%llu create+destroy key=%s vlen=%zu", (unsigned long long) opno, vh::show(k).c_str(), v.size());
        ItemPtr i = create(k, v, 0, 0); op_end();
        if (i) { c().destroy_item(i); vh::count("abandoned"); }
        last_access.clear();
    }
    // As if billions of versions had been made: the counter of versions is recognised in the object by its value (its name
    // and place are none of our business) and moved on. Nothing happens when no such counter is found.
    void age() {
#if !__has_feature(address_sanitizer)
        return;       // memcheck rightly objects to looking at the padding of the object
#endif
        const size_t size = sizeof(Cache); std::vector<size_t> at[2]; uint64_t last = 0;
        for (int round = 0; round < 4; ++round) {
            str k = make_key(); op_begin(); ItemPtr i = create(k, "x", 0, 0); op_end(); last_access.clear();
            if (!i) return;
            last = i->timestamp(); c().destroy_item(i);
            const unsigned char * o = reinterpret_cast<const unsigned char *>(&c());
            for (int w = 0; w < 2; ++w) {
                size_t step = w ? 4 : 8; std::vector<size_t> now;
                for (size_t p = 0; p + step <= size; p += step) { uint64_t x = 0; memcpy(&x, o + p, step); if (x == last && (round == 0 || std::count(at[w].begin(), at[w].end(), p))) now.push_back(p); }
                at[w].swap(now);
            }
        }
        static const uint64_t targets[] = {(1ull << 31) - 3, (1ull << 32) - 3, (1ull << 32) + 1, (1ull << 40) - 3, (1ull << 48) - 2, (1ull << 53) - 2, (1ull << 56) - 2, (1ull << 63) - 4, (1ull << 63) - 20000};
        uint64_t t = targets[r.below(9)] - r.below(2); int w = at[0].size() == 1 ? 0 : 1;
        if (at[w].size() != 1 || t <= last) { vh::count("no_counter"); return; }
        if (w == 1) { if (t >> 32) t = (1ull << 32) - 3; if (t <= last) return; }
        memcpy(reinterpret_cast<unsigned char *>(&c()) + at[w][0], &t, w ? 4 : 8);
        vh::trace("#%llu version counter moved from %llu to %llu", (unsigned long long) opno, (unsigned long long) last, (unsigned long long) t); vh::count("aged"); vh::sig(41, t >> 20);
    }
    void sweep() {
        std::vector<str> keys; for (auto & e : m) keys.push_back(e.first);
        for (auto & k : keys) verify_key(k);
        for (int n = 0; n < 10; ++n) { str k = key_of(r.below(cfg.keyspace * 2)); verify_key(k); }
        vh::count("sweeps");
        vh::sig(13, keys.size());
        if (!malloc_mode && cfg.own_stats) VH_CHECK(STAT_GET(mem, evictions) == total_evictions, "evictions counter is %llu, the callback was called %llu times", (unsigned long long) STAT_GET(mem, evictions), (unsigned long long) total_evictions);
        if (cfg.check_stats) check_stats();
        last_access.clear();
    }
    // ---- statistics ----------------------------------------------------------------
    std::map<str, uint64_t> base;
    uint64_t stat(const char * n) {
        #define X(t, name, d) if (!strcmp(n, #name)) return STAT_GET(cache, name);
        CACHE_STATS(X)
        #undef X
        #define X(t, name, d) if (!strcmp(n, #name)) return STAT_GET(mem, name);
        MEMORY_STATS(X)
        #undef X
        vh::harness_error("no statistic %s", n);
    }
    void expect_stat(const char * n, uint64_t want) {
        uint64_t got = stat(n);
        VH_CHECK(got == want, "statistic %s is %llu, expected %llu", n, (unsigned long long) got, (unsigned long long) want);
    }
    void check_stats() {
        c().publish_stats();
        static const char * exact[] = {"cmd_get", "get_hits", "get_misses", "cmd_set", "cmd_add", "add_stored", "add_not_stored", "cmd_replace", "replace_stored",
            "replace_not_stored", "cmd_cas", "cas_misses", "cas_stored", "cas_badval", "cmd_delete", "delete_hits", "delete_misses", "cmd_touch", "touch_hits", "touch_misses",
            "cmd_incr", "incr_misses", "cmd_decr", "decr_misses", "cmd_append", "append_stored", "append_misses", "cmd_prepend", "prepend_stored",
            "prepend_misses", "cmd_flush"};
        for (auto n : exact) expect_stat(n, st[n]);
        expect_stat("set_new", st["set_new"]); expect_stat("set_existing", st["set_existing"]);
        // an arithmetic command that failed for lack of memory is not a miss; it may or may not count as a hit
        for (auto n : {"incr_hits", "decr_hits"}) { uint64_t g = stat(n); VH_CHECK(g >= st[n] && g <= st[n] + st["arith_errors"], "statistic %s is %llu, expected %llu", n, (unsigned long long) g, (unsigned long long) st[n]); }
        uint64_t items = m.size();
        uint64_t ci = stat("curr_items");
        VH_CHECK(ci >= items && ci <= items + ghosts.size(), "statistic curr_items is %llu, %llu items are stored", (unsigned long long) ci, (unsigned long long) items);
        VH_CHECK(stat("hash_capacity") >= ci, "hash_capacity %llu is less than curr_items %llu", (unsigned long long) stat("hash_capacity"), (unsigned long long) ci);
        if (!malloc_mode) {
            expect_stat("evictions", total_evictions);
            expect_stat("limit_maxbytes", cfg.mem); expect_stat("page_size", cfg.page);
            uint64_t need = 0; for (auto & e : m) need += size_required(e.first, e.second.value.size());
            uint64_t used = stat("used_memory");
            VH_CHECK(used >= need && used <= cfg.mem, "used_memory is %llu, items need %llu, limit %zu", (unsigned long long) used, (unsigned long long) need, cfg.mem);
            // per item overhead: header, rounding, and at most one unsplittable remainder
            VH_CHECK(used <= need + m.size() * 200ull + ghosts.size() * cfg.page, "used_memory is %llu although %zu items need only %llu", (unsigned long long) used, m.size(), (unsigned long long) need);
            VH_CHECK(stat("num_malloc") - stat("num_alloc_errors") == stat("num_free") + total_evictions + ci, "allocations (%llu) - failed (%llu) differ from frees (%llu) + evictions (%llu) + items (%llu)",
                (unsigned long long) stat("num_malloc"), (unsigned long long) stat("num_alloc_errors"), (unsigned long long) stat("num_free"), (unsigned long long) total_evictions, (unsigned long long) ci);
        }
        check_table();
        vh::count("stat_snapshots");
        vh::sig(21, stat("hash_is_expanding"), stat("hash_capacity"), cfg.evict);
    }
    // capacity of the table: what was asked for, and from there on it only grows by doubling; it grows when it is expanding
    uint64_t last_cap = 0;
    void check_table() {
        const uint64_t cap = stat("hash_capacity"), was = last_cap ? last_cap : cfg.dict;
        VH_CHECK((cap & (cap - 1)) == 0 && cap >= was, "hash_capacity is %llu after %llu", (unsigned long long) cap, (unsigned long long) was);
        if (!last_cap && opno == 0) VH_CHECK(cap == cfg.dict, "hash_capacity of a new cache is %llu, %zu asked for", (unsigned long long) cap, cfg.dict);
        if (cap == cfg.dict) VH_CHECK(!stat("hash_is_expanding"), "hash_is_expanding, but hash_capacity is still the initial %llu", (unsigned long long) cap);
        else if (cap == last_cap && !last_exp) VH_CHECK(!stat("hash_is_expanding"), "hash_is_expanding, but hash_capacity remains %llu", (unsigned long long) cap);
        if (cap != was) vh::count("growths_in_stats");
        last_cap = cap; last_exp = stat("hash_is_expanding") != 0;
    }
    bool last_exp = false;
    // number of items, at any moment of the growth of the table
    void check_size() {
        c().publish_stats();
        check_table();
        uint64_t ci = stat("curr_items");
        VH_CHECK(ci >= m.size() && ci <= m.size() + ghosts.size(), "statistic curr_items is %llu, %zu items are stored (table %s)", (unsigned long long) ci, m.size(), stat("hash_is_expanding") ? "growing" : "not growing");
        VH_CHECK(stat("hash_capacity") >= ci, "hash_capacity %llu is less than curr_items %llu", (unsigned long long) stat("hash_capacity"), (unsigned long long) ci);
        growing = stat("hash_is_expanding") != 0;
        if (growing) { vh::count("ops_while_growing"); if (last_ev != total_evictions) vh::count("evictions_while_growing"); vh::sig(23, stat("hash_capacity"), ci * 16 / stat("hash_capacity")); }
        last_ev = total_evictions;
    }
    uint64_t last_ev = 0, full_at = 0; bool growing = false;
    // ---- end of case -----------------------------------------------------------------
    void finish_case() {
        sweep();
        c().publish_stats();
        if (stat("hash_is_expanding")) vh::count("ended_while_expanding");
        vh::counters["max_hash_capacity"] = std::max<uint64_t>(vh::counters["max_hash_capacity"], stat("hash_capacity"));
        vh::counters["max_items"] = std::max<uint64_t>(vh::counters["max_items"], m.size());
    }
    void delete_everything() {
        std::vector<str> keys; for (auto & e : m) keys.push_back(e.first);
        for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[r.below(i)]);
        for (auto & k : keys) {
            op_begin(); bool f = c().do_delete(slice(k.data(), k.size()), hash_of(k)); op_end();
            resolve("delete", k, f); m.erase(k);
        }
        vh::vclock_ns += 4000000ll; c().do_flush_all(); ghosts.clear();
    }
    void step(uint64_t i) {
        unsigned w[] = {cfg.w_get, cfg.w_set, cfg.w_add, cfg.w_replace, cfg.w_cas, cfg.w_append, cfg.w_prepend, cfg.w_delete, cfg.w_touch, cfg.w_incr, cfg.w_decr, cfg.w_flush, cfg.w_time, cfg.w_abandon};
        unsigned total = 0; for (auto x : w) total += x;
            unsigned x = r.below(total), k = 0; while (x >= w[k]) x -= w[k++];
            vh::count("operations");
            switch (k) {
            case 0: do_get(); break; case 1: do_store(0); break; case 2: do_store(1); break; case 3: do_store(2); break; case 4: do_store(3); break;
            case 5: do_store(4); break; case 6: do_store(5); break; case 7: do_delete(); break; case 8: do_touch(); break; case 9: do_arith(true); break;
            case 10: do_arith(false); break; case 11: do_flush(); break; case 12: do_time(); break; case 13: do_abandon(); break;
            }
            if (cfg.shrinking_values || (cfg.check_stats && r.one_in(8))) check_size();
            if (cfg.sweep_every && i % cfg.sweep_every == cfg.sweep_every - 1) sweep();
    }
    void run() {
        uint64_t n = uint64_t(cfg.nops * vh::opt.scale);
        for (uint64_t i = 0; i < n; ++i) { if (cfg.age_every && i % cfg.age_every == cfg.age_every - 1) age(); step(i); }
        finish_case();
    }
};

static void randomize_geometry(Cfg & k, Rng & r, bool small) {
    unsigned pshift = small ? r.range(8, 13) : r.range(10, 16);
    k.page = size_t(1) << pshift;
    k.mem = k.page << r.range(2, small ? 5 : 6);
    k.dict = size_t(1) << r.below(9);
    k.val_max = std::min<size_t>(k.page / 2, 20 + r.logn(2000));
}
// nothing may be lost for want of memory in this geometry
static void roomy(Cfg & k, Rng & r) {
    k.page = size_t(1) << r.range(12, 15); k.mem = 16u << 20; k.val_max = 20 + r.logn(400); k.big_val_percent = 1; k.dict = size_t(1) << r.below(9);
}

static void one_case(const str & p, Rng & r, long n) {
    ResetStats();
    vh::vclock_ns = int64_t(r.range(1, 100000)) * 1000000000ll + r.below(1000000000);
    Cfg k;
    k.evict = r.chance(50);
    if (p == "store") { // C01
        if (n % 3 == 0) { roomy(k, r); k.keyspace = r.range(50, 6000); k.nops = 6000; k.unique_growth = n % 2; k.sweep_every = 1500; }
        else { randomize_geometry(k, r, n % 3 == 1); k.keyspace = r.range(5, 400); }
        k.binary_keys = r.chance(50); k.key_max = 250; k.boundary_percent = r.chance(20) ? 3 : 0;
        if (n % 3 != 0 && r.chance(20)) k.hash_mode = r.range(1, 5);
        if (n % 12 == 7) { k.page = size_t(1) << r.range(17, 20); k.mem = k.page * 16; k.val_max = r.chance(50) ? 66000 : 200; k.big_val_percent = 10; k.nops = 400; k.keyspace = r.range(5, 60); }
    } else if (p == "evict") { // C02
        randomize_geometry(k, r, r.chance(60)); k.evict = n % 4 != 3; k.keyspace = r.range(30, 3000); k.key_max = 250; k.ttl_percent = r.chance(30) ? 20 : 0;
        k.val_max = r.chance(50) ? k.page / 4 : k.page - 40; k.w_set = 40; k.w_incr = k.w_decr = 10; k.big_val_percent = 10; k.nops = 3000;
        k.hash_mode = r.chance(30) ? r.range(1, 5) : 0;
    } else if (p == "cas") { // C05
        randomize_geometry(k, r, true); k.keyspace = r.range(2, 30); k.w_cas = 40; k.w_time = 2; k.w_flush = 1; k.ttl_percent = 10; if (r.chance(60)) roomy(k, r);
        if (r.chance(40)) k.age_every = unsigned(r.range(100, k.nops));
    } else if (p == "expire") { // C06
        if (r.chance(70)) roomy(k, r); else randomize_geometry(k, r, true);
        k.keyspace = r.range(5, 200); k.ttl_percent = 80; k.ttl_max = r.chance(30) ? 100000 : 30; k.huge_ttl = true; k.ticks = n % 2; k.w_time = 20; k.w_touch = 12; k.w_flush = 3; k.w_incr = k.w_decr = 8; k.w_num = 40;
        if (r.chance(50)) k.dict = 1;
    } else if (p == "arith") { // C07
        if (r.chance(50)) roomy(k, r); else randomize_geometry(k, r, true);
        k.keyspace = r.range(3, 300); k.w_num = 85; k.w_incr = k.w_decr = 40; k.w_get = 10; k.w_cas = k.w_append = k.w_prepend = k.w_replace = k.w_add = 3; k.w_flush = 0; k.val_max = 30; k.key_max = 250;
    } else if (p == "limits") { // C08
        randomize_geometry(k, r, r.chance(70)); k.keyspace = r.range(4, 60); k.key_max = 250; k.val_max = k.page; k.big_val_percent = 60; k.w_append = k.w_prepend = 20; k.ttl_percent = 5; k.nops = 1500; k.boundary_percent = r.chance(50) ? 30 : 5;
        if (n % 8 == 5) { k.page = size_t(1) << r.range(17, 20); k.mem = k.page * 8; k.val_max = 70000; k.big_val_percent = 10; k.nops = 200; k.keyspace = r.range(4, 20); }
    } else if (p == "hash") { // C09
        if (r.chance(60)) roomy(k, r); else randomize_geometry(k, r, true);
        k.hash_mode = 1 + n % 5; k.keyspace = r.range(20, 700); k.unique_growth = r.chance(30); k.dict = size_t(1) << r.below(7); k.nops = 1500; k.binary_keys = true; k.sweep_every = 300;
    } else if (p == "stats") { // C14
        if (r.chance(40)) { roomy(k, r); k.keyspace = 3000; k.nops = 5000; } else randomize_geometry(k, r, r.chance(50));
        k.check_stats = true; k.sweep_every = 100; k.hash_mode = r.chance(20) ? r.range(1, 3) : 0;
    } else if (p == "lru") { // C15
        randomize_geometry(k, r, r.chance(60)); k.evict = true; k.check_lru = true; k.keyspace = r.range(100, 5000); k.ttl_percent = 0; k.w_delete = r.below(6); k.w_time = 0; k.w_set = 60; k.sweep_every = 0; k.nops = 4000;
        k.w_get = 30; k.w_incr = k.w_decr = 2;
    } else if (p == "grow") { // evictions, overwrites and deletes all along the growth of the table
        k.page = size_t(1) << r.range(9, 11); k.mem = size_t(1) << r.range(20, 21); k.evict = r.chance(85); k.dict = size_t(1) << r.below(5); k.shrinking_values = true; k.val_max = std::min<size_t>(k.page / 2, r.range(200, 300));
        k.unique_growth = true; k.nops = k.mem >> 5; k.key_max = 20; k.w_set = 70; k.w_add = 15; k.w_delete = r.below(8); k.w_get = 5; k.sweep_every = unsigned(k.nops / 4); k.check_stats = true; k.ttl_percent = r.chance(30) ? 10 : 0; k.w_flush = 0;
    } else vh::harness_error("unknown profile %s", p.c_str());
    vh::trace("config: memory=%zu page=%zu dict=%zu evictions=%d hash_mode=%d keyspace=%llu", k.mem, k.page, k.dict, k.evict, k.hash_mode, (unsigned long long) k.keyspace);
    if (malloc_mode) { k.big_val_percent = std::min(k.big_val_percent, 20u); }
#if defined(ADDRESS_SANITIZER)
    size_t before = __sanitizer_get_current_allocated_bytes();
    size_t balance = 0;
#endif
    {
        std::unique_ptr<Host> h(new Host(k, r));
        if (n < 3) vh::sample("case %ld: memory=%zu page=%zu dict=%zu evictions=%d hash_mode=%d keyspace=%llu ops=%llu", n, k.mem, k.page, k.dict, (int) k.evict, k.hash_mode, (unsigned long long) k.keyspace, (unsigned long long) k.nops);
        h->run();
        if (p == "stats" || p == "store" || p == "evict") {
            h->delete_everything();
            h->c().publish_stats();
            uint64_t ci = h->stat("curr_items"); 
            if (p == "stats") VH_CHECK(ci == 0, "curr_items is %llu after everything was deleted", (unsigned long long) ci);
            if (p == "stats" && !malloc_mode) VH_CHECK(h->stat("used_memory") == 0, "used_memory is %llu after everything was deleted", (unsigned long long) h->stat("used_memory"));
        }
    }
#if defined(ADDRESS_SANITIZER)
    (void) before; (void) balance;
#endif
}

// C25: several caches, used in turns, moved, destroyed and created again while the others are in use
static void multi_case(Rng & r, long n) {
    ResetStats();
    vh::vclock_ns = int64_t(r.range(1, 100000)) * 1000000000ll + r.below(1000000000);
    std::vector<std::unique_ptr<Host>> hs; std::vector<uint64_t> at;
    auto fresh = [&]() {
        Cfg k; k.evict = r.chance(60);
        switch (r.below(4)) {
        case 0: roomy(k, r); k.keyspace = r.range(50, 1500); k.unique_growth = r.chance(50); break;
        case 1: randomize_geometry(k, r, true); k.keyspace = r.range(5, 400); k.w_set = 40; k.big_val_percent = 8; break;
        case 2: randomize_geometry(k, r, false); k.keyspace = r.range(30, 3000); k.w_set = 50; k.val_max = k.page / 4; break;
        default: randomize_geometry(k, r, true); k.hash_mode = r.range(1, 5); k.keyspace = r.range(5, 100); k.dict = 1; break;
        }
        k.own_stats = false; k.binary_keys = r.chance(30); k.key_max = 250; k.sweep_every = 0; if (malloc_mode) k.big_val_percent = std::min(k.big_val_percent, 20u);
        vh::trace("cache: memory=%zu page=%zu dict=%zu evictions=%d hash_mode=%d", k.mem, k.page, k.dict, k.evict, k.hash_mode);
        return new Host(k, r);
    };
    for (size_t i = r.range(2, 4); i; --i) { hs.emplace_back(fresh()); at.push_back(0); }
    if (n < 3) vh::sample("case %ld: %zu caches at once", n, hs.size());
    const uint64_t turns = uint64_t(600 * vh::opt.scale);
    for (uint64_t t = 0; t < turns; ++t) {
        size_t i = r.below(hs.size());
        for (uint64_t k = r.chance(50) ? 1 : r.below(40); k; --k) hs[i]->step(at[i]++);
        const uint64_t x = r.below(100);
        if (x < 4) hs[r.below(hs.size())]->relocate();
        else if (x < 6) { hs[i]->sweep(); hs[i].reset(fresh()); at[i] = 0; vh::count("replaced"); }      // destroyed with items inside
        else if (x < 8) { hs[i]->delete_everything(); vh::count("emptied"); }
        else if (x < 14) hs[r.below(hs.size())]->sweep();
        vh::sig(35, hs.size(), x < 14 ? x : 14, std::min<size_t>(hs[i]->m.size(), 64) / 8);
    }
    for (auto & h : hs) h->sweep();
    while (!hs.empty()) { hs.erase(hs.begin() + r.below(hs.size())); for (auto & h : hs) h->sweep(); }
}

// C15: one hot item, read (or touched) before every store, among any number of other stores
static void hot_case(Rng & r, long n) {
    ResetStats();
    Cfg k; randomize_geometry(k, r, r.chance(60)); k.evict = true; k.keyspace = 1u << 30;
    Cache c = Cache::Create(k.mem, k.page, k.dict, true);
    str hot = "hot-" + std::to_string(n); uint32_t hh = cache::HashFunction()(slice(hot.data(), hot.size()));
    str hv = r.bytes(r.below(k.page / 2)); bool hot_evicted = false; uint64_t ev = 0;
    c.on_eviction = [&](ConstItemPtr i) { ++ev; if (S(i->key()) == hot) hot_evicted = true; };
    auto set = [&](const str & key, const str & v) {
        auto i = c.create_item(slice(key.data(), key.size()), cache::HashFunction()(slice(key.data(), key.size())), v.size(), 0, cache::seconds(0));
        i->assign_value(slice(v.data(), v.size())); c.do_set(i);
    };
    // warm up: other items first, so that the hot item's page is anywhere in the order
    for (uint64_t i = r.below(2000); i; --i) set("w" + std::to_string(r.next()), r.bytes(r.below(k.val_max + 1)));
    set(hot, hv);
    uint64_t stores = 500 + r.below(3000) * vh::opt.scale; bool rewrite = r.chance(30);
    for (uint64_t s = 0; s < stores; ++s) {
        if (r.chance(70)) { auto i = c.do_get(slice(hot.data(), hot.size()), hh); VH_CHECK(i && S(i->value()) == hv, "hot item missing or changed after %llu stores (%llu evictions)", (unsigned long long) s, (unsigned long long) ev); }
        else VH_CHECK(c.do_touch(slice(hot.data(), hot.size()), hh, cache::seconds(0)), "hot item missing on touch after %llu stores", (unsigned long long) s);
        str v = r.bytes(r.chance(5) ? r.below(k.page - 250) : r.below(k.val_max + 1));
        set("o" + std::to_string(r.next()), v);
        VH_CHECK(!hot_evicted, "item read immediately before every store was evicted by store %llu (page=%zu memory=%zu)", (unsigned long long) s, k.page, k.mem);
        if (rewrite && r.one_in(50)) { hv = r.bytes(r.below(k.page / 2)); set(hot, hv); VH_CHECK(!hot_evicted || true, "x"); hot_evicted = false; }
        vh::count("hot_rounds");
    }
    vh::count("evictions_observed", ev); vh::sig(31, k.page, k.mem, ev ? 1 : 0);
}

// C04: capacity is conserved: a cache emptied by deletes, expiry, overwrites and refusals stores
// as much again as it did when new.
// C05: a very long life of one key: no unique ever comes back
static void long_case(Rng & r, long n) {
    ResetStats();
    Cache c = Cache::Create(1 << 20, 1 << 14, 16, true);
    const str k = "counter"; const slice key(k.data(), k.size()); const uint32_t h = cache::HashFunction()(key);
    const uint64_t total = uint64_t((1u << 24) * 1.1 * vh::opt.scale);
    std::vector<uint64_t> seen; seen.reserve(total);
    uint64_t v = 0; uint64_t old = 0;
    auto make = [&](const str & val) { auto i = c.create_item(key, h, val.size(), 0, cache::seconds(0)); i->assign_value(slice(val.data(), val.size())); return i; };
    c.do_set(make("0"));
    for (uint64_t i = 0; i < total; ++i) {
        switch (r.below(16)) {
        case 0: c.do_set(make(std::to_string(v = r.below(1000)))); break;
        case 1: { auto cur = c.do_get(key, h)->timestamp(); bool f, st; std::tie(f, st) = c.do_cas(make(std::to_string(v = i)), cur); VH_CHECK(f && st, "cas with the current unique was refused at step %llu", (unsigned long long) i); break; }
        case 2: if (v > 0 && v < 100000000) { c.do_append(make("7")); v = v * 10 + 7; } else { c.do_decr(key, h, 1); v -= v > 0; } break;
        default: c.do_incr(key, h, 1); ++v; break;
        }
        auto it = c.do_get(key, h);
        VH_CHECK(it && S(it->value()) == std::to_string(v), "the counter is %s at step %llu, expected %llu", it ? vh::show(S(it->value())).c_str() : "lost", (unsigned long long) i, (unsigned long long) v);
        seen.push_back(it->timestamp());
        if (i % 64 == 0 && old) { bool f, st; std::tie(f, st) = c.do_cas(make("stale"), old); VH_CHECK(f && !st, "cas with the unique %llu of an older version stored at step %llu", (unsigned long long) old, (unsigned long long) i); vh::count("cas_stale_refused"); }
        if (i % 4096 == 0 && i) old = seen[r.below(i)];        // of an earlier version
    }
    vh::count("versions_of_one_key", total); vh::sig(33, n);
    std::sort(seen.begin(), seen.end());
    auto dup = std::adjacent_find(seen.begin(), seen.end());
    VH_CHECK(dup == seen.end(), "two versions of one item had the same unique %llu", (unsigned long long) *dup);
    for (uint64_t i = 0; i < total; i += 4096) vh::sig(34, seen[i]);
}

static uint64_t fill(Cache & c, const str & prefix, size_t vlen, size_t page, uint64_t limit) {
    (void) page;
    uint64_t n = 0;
    str v(vlen, 'f');
    while (n < limit) {
        str key = prefix + std::to_string(1000000 + n);
        try {
            auto i = c.create_item(slice(key.data(), key.size()), cache::HashFunction()(slice(key.data(), key.size())), v.size(), 0, cache::seconds(0));
            i->assign_value(slice(v.data(), v.size())); c.do_set(i);
        } catch (const system_error & e) { VH_CHECK(e.code() == error::out_of_memory, "fill stopped with '%s'", e.code().message().c_str()); break; }
        ++n;
    }
    return n;
}
static void unfill(Cache & c, const str & prefix, uint64_t n, Rng & r) {
    std::vector<uint64_t> ids(n); for (uint64_t i = 0; i < n; ++i) ids[i] = i;
    for (size_t i = n; i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]);
    for (auto id : ids) { str key = prefix + std::to_string(1000000 + id); VH_CHECK(c.do_delete(slice(key.data(), key.size()), cache::HashFunction()(slice(key.data(), key.size()))), "filled item %s vanished", key.c_str()); }
}
static void capacity_case(Rng & r, long n) {
    ResetStats();
    vh::vclock_ns = 5000ll * 1000000000ll;
    Cfg k; randomize_geometry(k, r, r.chance(70)); k.evict = false; k.keyspace = r.range(10, 2000); k.ttl_percent = 20; k.nops = 1500; k.big_val_percent = 10; k.sweep_every = 500;
    k.val_max = r.chance(50) ? k.page - 60 : k.page / 4;
    if (n % 4 == 0) { k.w_add = 25; k.w_replace = 25; k.w_cas = 25; }          // many refused stores
    if (n % 4 == 1) { k.w_append = k.w_prepend = 30; k.w_set = 10; }
    if (n % 4 == 2) { k.w_incr = k.w_decr = 30; k.w_num = 60; }
    vh::trace("config: memory=%zu page=%zu", k.mem, k.page);
    Host h(k, r);
    // three item sizes: large (one per page), medium, small
    size_t sizes[3] = {k.page - k.page / 8 - 60, k.page / 4 > 60 ? k.page / 4 - 50 : 30, 20 + r.below(60)};
    uint64_t before[3];
    for (int s = 0; s < 3; ++s) { before[s] = fill(h.c(), "f", sizes[s], k.page, 1u << 20); unfill(h.c(), "f", before[s], r); }
    VH_CHECK(before[0] >= k.mem / k.page, "a new cache of %zu pages held only %llu items of %zu bytes", k.mem / k.page, (unsigned long long) before[0], sizes[0]);
    // what the store can hold: README promises high utilization; small items must use most of the memory
    uint64_t payload = before[2] * (size_t) h.size_required("f1000000", sizes[2]);
    vh::counters["utilization_percent_min"] = std::min<uint64_t>(vh::counters.count("utilization_percent_min") ? vh::counters["utilization_percent_min"] : 100, payload * 100 / k.mem);
    h.run();
    // empty the cache through different doors
    switch (n % 3) {
    case 0: h.delete_everything(); break;
    case 1: // everything expires, then is flushed
        for (auto & e : h.m) h.c().do_touch(slice(e.first.data(), e.first.size()), h.hash_of(e.first), cache::seconds(1));
        vh::vclock_ns += 100000ll * 1000000000ll; h.c().do_flush_all(); h.m.clear(); h.ghosts.clear(); break;
    case 2: // everything expires, then each key is looked up
        { std::vector<str> keys; for (auto & e : h.m) keys.push_back(e.first);
          for (auto & q : keys) h.c().do_touch(slice(q.data(), q.size()), h.hash_of(q), cache::seconds(1));
          vh::vclock_ns += 100000ll * 1000000000ll;
          for (auto & q : keys) VH_CHECK(h.c().do_get(slice(q.data(), q.size()), h.hash_of(q)) == nullptr, "expired item %s returned", vh::show(q).c_str()); }
        h.m.clear(); h.ghosts.clear(); break;
    }
    if (!malloc_mode) {
        VH_CHECK(STAT_GET(mem, used_memory) == 0, "%llu bytes still accounted as used by an empty cache", (unsigned long long) STAT_GET(mem, used_memory));
        for (int s = 0; s < 3; ++s) {
            uint64_t again = fill(h.c(), "g", sizes[s], k.page, 1u << 20);
            VH_CHECK(again >= before[s], "cache that was emptied holds %llu items of %zu bytes; when new it held %llu", (unsigned long long) again, sizes[s], (unsigned long long) before[s]);
            unfill(h.c(), "g", again, r);
            vh::sig(41, sizes[s], again, k.page);
        }
    }
    vh::count("capacity_cycles");
}

int main(int argc, char ** argv) {
    vh::parse(argc, argv);
    str p = vh::opt.profile;
    if (p == "long") return vh::run_cases([](Rng & r, long n) { long_case(r, n); });
    if (p == "multi") return vh::run_cases([](Rng & r, long n) { multi_case(r, n); });
    if (p == "hot") return vh::run_cases([](Rng & r, long n) { hot_case(r, n); });
    if (p == "capacity" && malloc_mode) vh::harness_error("no capacity in malloc mode");
    if (p == "capacity") return vh::run_cases([](Rng & r, long n) { capacity_case(r, n); });
    return vh::run_cases([&](Rng & r, long n) { one_case(p, r, n); });
}
