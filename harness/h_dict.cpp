// The incremental-growth dictionary and the hash table below it, against std::map.
#include "vh.h"
#include <cachelot/common.h>
#include <cachelot/dict.h>
#include <memory>
#include <new>

using namespace cachelot;
using vh::Rng;
typedef unsigned long long ull;

struct Opt32 { typedef uint32 size_type; typedef uint32 hash_type; static constexpr size_type max_load_factor_percent = 93; };
struct Opt50 { typedef uint32 size_type; typedef uint32 hash_type; static constexpr size_type max_load_factor_percent = 50; };
struct Opt99 { typedef uint64 size_type; typedef uint64 hash_type; static constexpr size_type max_load_factor_percent = 99; };

template <class Options> struct DictHost {
    typedef dict<uint64, uint64, std::equal_to<uint64>, internal::hash_table_entry<uint64, uint64>, Options> D;
    typedef typename D::iterator It;
    typedef typename D::hash_type H;
    Rng & r; std::unique_ptr<D> d; std::map<uint64, uint64> m; int hash_mode; uint64 keyspace, nextv = 1, fast_growth = 0; std::vector<uint64> known;
    DictHost(Rng & rng, uint64 init, int hm, uint64 ks) : r(rng), d(new D(init)), hash_mode(hm), keyspace(ks) {}
    H hash(uint64 k) {
        uint64 x = k * 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
        H h;
        switch (hash_mode) {
        case 1: h = H(k); break;                        // sequential
        case 2: h = H(x & 63); break;                   // few distinct
        case 3: h = ~H(0) - H(x & 7); break;            // clustered at the end of the table: probes wrap around
        case 4: h = H((x & 0xff) << 8) | H(k & 1); break;
        case 5: h = 7; break;
        case 6: {                                       // neighbourhoods: adjacent keys probe adjacent slots
            uint64 g = (k >> 3) * 0x9e3779b97f4a7c15ull; g ^= g >> 31; g *= 0xbf58476d1ce4e5b9ull;
            h = H(g >> 20) + H((k & 7) / 2); } break;
        default: h = H(x);
        }
        return h ? h : 1;
    }
    uint64 any_key() {
        if (!known.empty() && hash_mode == 6 && r.chance(50)) return known[r.below(known.size())] ^ r.below(8);
        if (!known.empty() && r.chance(60)) return known[r.below(known.size())];
        return 1 + r.below(keyspace);
    }
    void check_get(uint64 k) {
        bool f; uint64 v; std::tie(f, v) = d->get(k, hash(k));
        auto it = m.find(k);
        VH_CHECK(f == (it != m.end()), "get(%llu): found=%d, expected %d (expanding=%d size=%zu)", (ull) k, f, it != m.end(), d->is_expanding(), m.size());
        if (f) VH_CHECK(v == it->second, "get(%llu): value %llu, expected %llu", (ull) k, (ull) v, (ull) it->second);
        VH_CHECK(d->contains(k, hash(k)) == f, "contains(%llu) disagrees with get", (ull) k);
    }
    // locate and compare; returns iterator
    std::pair<bool, It> locate(uint64 k, bool readonly) {
        bool f; It at; const bool was = d->is_expanding();
        std::tie(f, at) = d->entry_for(k, hash(k), readonly);
        auto it = m.find(k);
        VH_CHECK(f == (it != m.end()), "entry_for(%llu, readonly=%d): found=%d, expected %d (expanding before=%d after=%d)", (ull) k, readonly, f, it != m.end(), was, d->is_expanding());
        if (f) {
            VH_CHECK(at.key() == k, "entry_for(%llu) refers to the entry of key %llu (expanding before=%d)", (ull) k, (ull) at.key(), was);
            VH_CHECK(at.value() == it->second, "entry_for(%llu) refers to value %llu, expected %llu", (ull) k, (ull) at.value(), (ull) it->second);
        }
        if (was) vh::count("lookups_while_growing");
        return std::make_pair(f, at);
    }
    void put(uint64 k) {
        auto p = locate(k, false);
        uint64 v = nextv++;
        if (p.first) { p.second.unsafe_replace_kv(k, hash(k), v); vh::count("replaced"); }
        else {
            It w = d->insert(p.second, k, hash(k), v); vh::count("inserted");
            VH_CHECK(bool(w), "insert(%llu) returned an invalid position", (ull) k);
            VH_CHECK(w.key() == k && w.value() == v, "insert(%llu) returned the position of key %llu", (ull) k, (ull) w.key());
            known.push_back(k);
        }
        m[k] = v;
        check_get(k);
    }
    void sizes() {
        VH_CHECK(d->size() == m.size(), "size() is %llu, expected %zu", (ull) d->size(), m.size());
        VH_CHECK(d->empty() == m.empty(), "empty() disagrees with size");
        VH_CHECK(d->capacity() >= d->size(), "capacity %llu below size %llu", (ull) d->capacity(), (ull) d->size());
    }
    void sweep() {
        for (auto & e : m) check_get(e.first);
        std::map<uint64, int> seen;                // every value is visited exactly once, nothing removed
        d->remove_if([&](uint64 v) -> bool { seen[v]++; return false; });
        // an element may be visited again only if a removal moved it, and nothing was removed here
        VH_CHECK(seen.size() == m.size(), "iteration visited %zu distinct values, expected %zu", seen.size(), m.size());
        for (auto & e : m) VH_CHECK(seen[e.second] == 1, "iteration visited the value of key %llu %d times", (ull) e.first, seen[e.second]);
        sizes(); vh::count("sweeps");
    }
    void remove_some() {
        uint64 mod = 1 + r.below(6), rem = r.below(mod);
        uint64 removed = 0;
        d->remove_if([&](uint64 v) -> bool { if (v % mod == rem) { ++removed; return true; } return false; });
        uint64 want = 0;
        for (auto it = m.begin(); it != m.end();) { if (it->second % mod == rem) { it = m.erase(it); ++want; } else ++it; }
        VH_CHECK(removed == want, "remove_if removed %llu entries, expected %llu", (ull) removed, (ull) want);
        vh::count("remove_if"); sweep();
    }
    void run(uint64 nops, unsigned grow) {
        bool was_expanding = false;
        for (uint64 i = 0; i < nops; ++i) {
            unsigned x = r.below(100); uint64 k = any_key();
            if (fast_growth) {
                if (!d->is_expanding() && m.size() < fast_growth) x = 0;         // fill quickly up to the next growth
                else if (d->is_expanding() && x < grow / 2) x += grow;           // and then mix all operations
            }
            if (x < grow) { put(1 + r.below(keyspace)); }
            else if (x < grow + 15) { put(k); }
            else if (x < grow + 30) { bool had = m.erase(k); bool was = d->is_expanding(); VH_CHECK(d->del(k, hash(k)) == had, "del(%llu) returned %d (expanding=%d)", (ull) k, !had, was); check_get(k); vh::count("deleted"); }
            else if (x < grow + 38) { auto p = locate(k, r.chance(50)); if (p.first) { d->remove(p.second); m.erase(k); check_get(k); vh::count("removed_at"); } }
            else if (x < grow + 45) locate(k, r.chance(50));
            else check_get(k);
            // growth in progress: look hard at entries that were not moved yet
            if (d->is_expanding()) {
                vh::count("steps_while_growing");
                if (!was_expanding) vh::count("growths_observed");
                for (int n = 0; n < 4; ++n) check_get(any_key());
                if (hash_mode == 6 && !m.empty()) {      // new entries around an old one that may not be moved yet, then the old one
                    uint64 u = known[r.below(known.size())];
                    if (m.count(u)) {
                        for (unsigned j = 0, n = r.range(1, 4); j < n; ++j) put((u & ~7ull) | r.below(8));
                        locate(u, r.chance(50)); vh::count("neighbourhood_bursts");
                    }
                }
                else if (r.chance(60) && !m.empty()) locate(any_key(), true);
                vh::sig(1, hash_mode, d->capacity(), x / 8);
            } else if (was_expanding) { sizes(); vh::sig(2, hash_mode, d->capacity()); if (m.size() < 3000 || r.one_in(4)) sweep(); }
            was_expanding = d->is_expanding();
            if (i % 512 == 0) sizes();
            const bool filling = fast_growth && m.size() < fast_growth && !d->is_expanding();
            if (!filling && r.one_in(fast_growth ? 400 : 3000)) remove_some();
            if (!fast_growth && r.one_in(20000)) { d->clear(); m.clear(); sizes(); }
            if (known.size() > 2 * m.size() + 1000) { known.clear(); for (auto & e : m) known.push_back(e.first); }
        }
        sweep();
        vh::counters["max_size"] = std::max<uint64_t>(vh::counters["max_size"], m.size());
        std::vector<uint64> keys; for (auto & e : m) keys.push_back(e.first);
        for (auto k : keys) { VH_CHECK(d->del(k, hash(k)), "del(%llu) lost the key", (ull) k); m.erase(k); }
        sizes();
        VH_CHECK(d->empty(), "dict is not empty after all keys were deleted");
    }
};

// hash_table directly, up to its declared maximal load
template <class Options> static void table_case(Rng & r, int hash_mode) {
    typedef hash_table<uint64, uint64, std::equal_to<uint64>, internal::hash_table_entry<uint64, uint64>, Options> T;
    const uint64 cap = 1ull << r.range(2, 11);
    T t(cap); std::map<uint64, uint64> m;
    VH_CHECK(t.ok(), "hash_table failed to allocate");
    VH_CHECK(t.max_size() < cap || cap == 1, "max_size %llu leaves no empty slot in %llu", (ull) t.max_size(), (ull) cap);
    DictHost<Options> hs(r, 1, hash_mode, 1); uint64 nextv = 1, keyspace = cap + cap / 2;
    for (int i = 0; i < 4000; ++i) {
        uint64 k = 1 + r.below(keyspace); auto h = hs.hash(k); auto it = m.find(k);
        switch (r.below(5)) {
        case 0: case 1: if (it == m.end() && t.threshold_reached()) { bool d = t.del(k, h); VH_CHECK(!d, "del of an absent key succeeded"); if (m.size()) { auto v = m.begin(); std::advance(v, r.below(m.size())); VH_CHECK(t.del(v->first, hs.hash(v->first)), "del lost key"); m.erase(v); } break; }
            { bool fresh = t.put(k, h, nextv); VH_CHECK(fresh == (it == m.end()), "put(%llu) returned %d", (ull) k, fresh); m[k] = nextv++; vh::count("table_put"); } break;
        case 2: { bool d = t.del(k, h); VH_CHECK(d == (it != m.end()), "del(%llu) returned %d", (ull) k, d); if (d) m.erase(it); } break;
        case 3: { bool f; uint64 v; std::tie(f, v) = t.get(k, h); VH_CHECK(f == (it != m.end()) && (!f || v == it->second), "get(%llu) is wrong", (ull) k); } break;
        case 4: { bool f; typename T::size_type pos; std::tie(f, pos) = t.entry_for(k, h); VH_CHECK(f == (it != m.end()), "entry_for(%llu) is wrong", (ull) k);
                if (f) { VH_CHECK(t.entry_at(pos).key() == k, "entry_for(%llu) found key %llu", (ull) k, (ull) t.entry_at(pos).key()); t.remove(pos); m.erase(it); } } break;
        }
        VH_CHECK(t.size() == m.size(), "hash_table size is %llu, expected %zu", (ull) t.size(), m.size());
        if (i % 500 == 499) for (auto & e : m) { bool f; uint64 v; std::tie(f, v) = t.get(e.first, hs.hash(e.first)); VH_CHECK(f && v == e.second, "hash_table lost key %llu at load %zu/%llu", (ull) e.first, m.size(), (ull) cap); }
    }
    vh::sig(3, hash_mode, cap, Options::max_load_factor_percent); vh::count("table_cases");
}

// the declared maximal load grows with the capacity up to the biggest tables that fit into this machine
static void big_tables() {
    struct E { E() = default; explicit E(const uint64 &, const unsigned char & v) : x(v) {} unsigned char key() const noexcept { return x; } const unsigned char & value() const noexcept { return x; } void swap(E & o) { std::swap(x, o.x); } unsigned char x; };
    uint64 last = 0;
    for (unsigned p = 4; p <= 28; ++p) {
        typedef hash_table<uint64, unsigned char, std::equal_to<uint64>, E, Opt32> T;
        std::unique_ptr<T> t(new T(uint32(1) << p));
        if (!t->ok()) { vh::count("big_table_not_allocated"); break; }
        uint64 want = (uint64(1) << p) * 93 / 100;
        VH_CHECK(t->max_size() == want, "table of %llu slots declares itself full at %llu entries, expected %llu", 1ull << p, (ull) t->max_size(), (ull) want);
        VH_CHECK(t->max_size() > last, "bigger table holds fewer entries");
        last = t->max_size(); vh::count("table_sizes_checked"); vh::sig(9, p);
    }
}

static void one(Rng & r, long n) {
    int hm = n % 3 == 0 ? (n % 2 ? 6 : 0) : r.below(7);
    uint64 ks, ops, fast = 0; unsigned grow = r.range(5, 45);
    if (hm == 2 || hm == 5 || hm == 3) { ks = 300; ops = 3000; }         // long probe sequences are quadratic
    else if (hm == 4) { ks = 1500; ops = 5000; }
    else { ks = 1ull << r.range(6, 15); ops = 12000; if (n % 3 == 0) { ks = 1ull << 40; grow = 50; fast = 4000 + r.below(n % 4 == 0 ? 90000 : 20000); ops = fast + fast / 2 + 3000; } }
    ops = uint64(ops * vh::opt.scale);
    uint64 init = r.chance(50) ? 1 + r.below(40) : 1ull << r.below(8);
    vh::trace("dict: hash_mode=%d keyspace=%llu ops=%llu init=%llu", hm, (ull) ks, (ull) ops, (ull) init);
    switch (n % 4) {
    case 0: case 1: { DictHost<Opt32> h(r, init, hm, ks); h.fast_growth = fast; h.run(ops, grow); table_case<Opt32>(r, hm); } break;
    case 2: { DictHost<Opt50> h(r, init, hm, ks); h.fast_growth = fast; h.run(ops, grow); table_case<Opt50>(r, hm); } break;
    case 3: { DictHost<internal::DefaultOptions> h(r, init, hm, ks); h.fast_growth = fast; h.run(ops, grow); table_case<Opt99>(r, hm); } break;
    }
    vh::sample("hash_mode=%d keyspace=%llu ops=%llu initial=%llu", hm, (ull) ks, (ull) ops, (ull) init);
}
int main(int argc, char ** argv) {
    vh::parse(argc, argv);
    if (vh::opt.profile == "big") return vh::run_cases([](Rng &, long) { big_tables(); });
    return vh::run_cases([](Rng & r, long n) { one(r, n); });
}
