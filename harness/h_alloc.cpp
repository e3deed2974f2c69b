// The arena allocator against a shadow map of live allocations.
// Every byte handed out is owned by the shadow: alignment, containment in the arena, disjointness,
// content preservation, eviction callbacks and conservation of memory are checked online.
#include "vh.h"
#include <cachelot/common.h>
#include <cachelot/memalloc.h>
#include <memory>
using namespace cachelot;
using vh::Rng;
namespace vh { extern uintptr_t arena_lo, arena_hi; }

struct Blk { size_t size; uint64_t pat; };
static inline unsigned char pat_byte(uint64_t pat, size_t i) { return (unsigned char)((pat >> ((i & 7) * 8)) ^ (i * 131) ^ (i >> 8)); }

struct Shadow {
    Rng & r; size_t mem, page; bool sparse;
    memalloc ma;
    uintptr_t lo, hi;
    std::map<uintptr_t, Blk> live;
    std::vector<uintptr_t> order;
    uint64_t evicted = 0; bool may_evict = false;
    // the largest block header in any build is 16 bytes; in-place resizes may leave neighbouring
    // stretches separate, so the free space oracle is for histories without them
    static const size_t hdr = 16; bool resized = false;
    size_t overhead = size_t(-1); // accounted per block, measured on the first allocation
    uint64_t n_alloc = 0, n_free = 0, n_resize = 0, n_resize_bad = 0, n_refused = 0, requested = 0, unserved = 0;

    Shadow(Rng & rng, size_t m, size_t p, bool sp) : r(rng), mem(m), page(p), sparse(sp), ma((vh::arena_lo = vh::arena_hi = 0, m), uint32(p)), lo(vh::arena_lo), hi(vh::arena_hi) {}

    // offsets of a block to be written / verified
    template <class Fn> void each(const Blk & b, Fn fn) {
        if (!sparse) { for (size_t i = 0; i < b.size; ++i) fn(i); return; }
        for (size_t i = 0; i < b.size && i < 96; ++i) fn(i);
        for (size_t i = b.size > 96 ? std::max<size_t>(96, b.size - 96) : b.size; i < b.size; ++i) fn(i);
    }
    void fill(uintptr_t p, const Blk & b) { auto c = reinterpret_cast<unsigned char *>(p); each(b, [&](size_t i) { c[i] = pat_byte(b.pat, i); }); }
    void verify(uintptr_t p, const Blk & b, const char * when) {
        auto c = reinterpret_cast<unsigned char *>(p);
        size_t bad = size_t(-1);
        each(b, [&](size_t i) { if (bad == size_t(-1) && c[i] != pat_byte(b.pat, i)) bad = i; });
        VH_CHECK(bad == size_t(-1), "content of a live allocation (arena+%zu, %zu bytes) changed at byte %zu; noticed %s", size_t(p - lo), b.size, bad, when);
    }
    void verify_prefix(uintptr_t p, size_t oldsize, uint64_t pat, size_t n) {
        Blk b{oldsize, pat}; auto c = reinterpret_cast<unsigned char *>(p); size_t bad = size_t(-1);
        each(b, [&](size_t i) { if (i < n && bad == size_t(-1) && c[i] != pat_byte(pat, i)) bad = i; });
        VH_CHECK(bad == size_t(-1), "in-place resize changed byte %zu of the content kept", bad);
    }
    void verify_all(const char * when) { for (auto & e : live) verify(e.first, e.second, when); vh::count("full_sweeps"); }
    void placed(uintptr_t p, size_t size) {
        VH_CHECK(p % sizeof(void *) == 0, "allocation at arena+%zu is not pointer-aligned", size_t(p - lo));
        if (lo) VH_CHECK(p >= lo && p + size <= hi, "allocation [arena+%zd, +%zu) is outside of the arena of %zu bytes", ptrdiff_t(p - lo), size, mem);
        auto nx = live.lower_bound(p);
        if (nx != live.end() && nx->first != p) VH_CHECK(p + size <= nx->first, "allocation arena+%zu of %zu bytes overlaps a live one at arena+%zu", size_t(p - lo), size, size_t(nx->first - lo));
        if (nx != live.end() && nx->first == p) VH_CHECK(false, "address arena+%zu handed out twice", size_t(p - lo));
        if (nx != live.begin()) { auto pv = std::prev(nx); VH_CHECK(pv->first + pv->second.size <= p, "allocation arena+%zu overlaps a live one at arena+%zu of %zu bytes", size_t(p - lo), size_t(pv->first - lo), pv->second.size); }
    }
    // the longest stretch of the arena (within a page) in which no live block lies, headers taken off
    size_t longest_free(std::map<uintptr_t, size_t> & blocks) {
        size_t best = 0; auto it = blocks.begin();
        for (uintptr_t b = lo; b < hi; b += page) {
            uintptr_t at = b, e = b + page;
            while (it != blocks.end() && it->first < e) {
                const uintptr_t start = it->first - hdr;
                if (start > at + hdr) best = std::max<size_t>(best, start - at - hdr);
                at = it->first + it->second; ++it;
            }
            if (e > at + hdr) best = std::max<size_t>(best, e - at - hdr);
        }
        return best;
    }
    // judged after the fact: what was live before an allocation that had to evict or was refused
    void was_needed(size_t size, uintptr_t got) {
        if (resized || !lo) return;
        std::map<uintptr_t, size_t> blocks;
        for (auto & e : live) if (e.first != got) blocks[e.first] = ma.reveal_actual_size(reinterpret_cast<void *>(e.first));
        for (auto & e : gone) blocks[e.first] = e.second;
        const size_t room = longest_free(blocks);
        // a block is found if a free stretch is larger than asked for by more than a size class
        VH_CHECK(room < size + size / 16 + 64, "allocation of %zu bytes %s although %zu contiguous bytes of a page were free", size, gone.empty() ? "was refused" : "evicted blocks", room);
        vh::count("refusals_and_evictions_judged");
    }
    std::vector<std::pair<uintptr_t, size_t>> gone;
    void accounting(const char * after) {
        uint64_t held = 0;
        for (auto & e : live) held += ma.reveal_actual_size(reinterpret_cast<void *>(e.first)) + overhead;
        VH_CHECK(STAT_GET(mem, used_memory) == held, "after %s %llu bytes are accounted as used; the %zu live blocks hold %llu", after, (unsigned long long) STAT_GET(mem, used_memory), live.size(), (unsigned long long) held);
        #define EQ(stat, want) VH_CHECK(uint64_t(STAT_GET(mem, stat)) == uint64_t(want), "after %s statistic " #stat " is %llu, expected %llu", after, (unsigned long long) STAT_GET(mem, stat), (unsigned long long) (want))
        EQ(num_malloc, n_alloc); EQ(num_free, n_free); EQ(num_realloc, n_resize); EQ(num_realloc_errors, n_resize_bad); EQ(num_alloc_errors, n_refused);
        EQ(evictions, evicted); EQ(total_requested, requested); EQ(total_unserved, unserved); EQ(limit_maxbytes, mem); EQ(page_size, page);
        #undef EQ
        vh::count("accounting_checks");
    }
    void * alloc(size_t size, bool evict) {
        may_evict = evict; uint64_t ev0 = evicted;
        size_t live0 = live.size();
        gone.clear(); ++n_alloc; requested += size;
        void * m = ma.alloc_or_evict(size, evict, [this](void * q) { on_evict(q); });
        may_evict = false;
        vh::trace("alloc(%zu, evict=%d) = %s%zu, %llu evicted", size, int(evict), m ? "arena+" : "null ", m ? size_t(uintptr_t(m) - lo) : 0, (unsigned long long)(evicted - ev0));
        if (evict) VH_CHECK(m != nullptr, "allocation of %zu bytes failed although eviction is allowed (%zu live)", size, live.size());
        if (live0 == 0) VH_CHECK(m != nullptr, "allocation of %zu bytes failed in the empty arena of %zu", size, mem);
        if (m == nullptr || evicted != ev0) was_needed(size, uintptr_t(m));
        if (m == nullptr) { ++n_refused; unserved += size; vh::count("alloc_refused_full"); return nullptr; }
        if (overhead == size_t(-1)) { overhead = STAT_GET(mem, used_memory) - ma.reveal_actual_size(m); VH_CHECK(overhead <= 64, "an allocation of %zu bytes accounts for %llu bytes", size, (unsigned long long) STAT_GET(mem, used_memory)); }
        uintptr_t p = uintptr_t(m);
        placed(p, size);
        VH_CHECK(ma.reveal_actual_size(m) >= size, "actual size %zu of an allocation of %zu bytes", size_t(ma.reveal_actual_size(m)), size);
        Blk b{size, r.next()};
        live[p] = b; order.push_back(p);
        fill(p, b);
        vh::count("allocs"); if (evicted != ev0) { vh::count("allocs_by_eviction"); vh::sig(1, size, evicted - ev0, page); }
        vh::sig(2, size >> 3, page, live0 > 0);
        return m;
    }
    void on_evict(void * q) {
        uintptr_t p = uintptr_t(q);
        VH_CHECK(may_evict, "block arena+%zu was evicted by an allocation that must not evict", size_t(p - lo));
        auto it = live.find(p);
        VH_CHECK(it != live.end(), "eviction of arena+%zu which is not a live allocation", size_t(p - lo));
        verify(p, it->second, "in the eviction callback");
        gone.push_back(std::make_pair(p, size_t(ma.reveal_actual_size(q)))); live.erase(it); ++evicted; vh::count("evictions");
    }
    uintptr_t pick() {
        while (!order.empty()) {
            size_t i = r.below(order.size());
            if (live.count(order[i])) return order[i];
            order[i] = order.back(); order.pop_back();
        }
        return 0;
    }
    void release(uintptr_t p, const char * how) {
        auto it = live.find(p); verify(p, it->second, how); live.erase(it);
        vh::trace("free(arena+%zu)", size_t(p - lo));
        ma.free(reinterpret_cast<void *>(p)); ++n_free; vh::count("frees");
    }
    void resize(uintptr_t p, size_t n) {
        Blk old = live[p];
        verify(p, old, "before in-place resize");
        const size_t actual = ma.reveal_actual_size(reinterpret_cast<void *>(p)); const uint64_t used = STAT_GET(mem, used_memory);
        resized = true; ++n_resize;
        void * m = ma.realloc_inplace(reinterpret_cast<void *>(p), n);
        vh::trace("realloc_inplace(arena+%zu, %zu -> %zu) = %d", size_t(p - lo), old.size, n, m != nullptr);
        if (m == nullptr) { verify(p, live[p], "after refused in-place resize"); ++n_resize_bad;
            // (what is too small to be a block of its own may stay with this one)
            const size_t now = ma.reveal_actual_size(reinterpret_cast<void *>(p));
            VH_CHECK(now >= actual && now < actual + 96, "refused in-place resize from %zu to %zu bytes changed the block from %zu to %zu bytes", old.size, n, actual, now);
            VH_CHECK(STAT_GET(mem, used_memory) - used == now - actual, "refused in-place resize changed the accounted memory by %lld", (long long) (STAT_GET(mem, used_memory) - used));
            VH_CHECK(n + hdr > actual, "in-place resize to %zu bytes refused for a block of %zu", n, actual); vh::count("resize_refused"); return; }
        VH_CHECK(uintptr_t(m) == p, "in-place resize moved the block");
        VH_CHECK(ma.reveal_actual_size(m) >= n, "actual size %zu after in-place resize to %zu", size_t(ma.reveal_actual_size(m)), n);
        live.erase(p); placed(p, n);
        verify_prefix(p, old.size, old.pat, std::min(old.size, n));
        Blk b{n, r.next()}; live[p] = b; fill(p, b);
        vh::count(n > old.size ? "resize_grow" : "resize_shrink"); vh::sig(3, n > old.size, n >> 3, page);
    }
};

static size_t pick_size(Rng & r, size_t page, size_t maxa, int mode) {
    switch (mode) {
    case 0: return 1 + r.below(64);
    case 1: return 1 + r.logn(maxa - 1);
    case 2: return 1 + r.below(maxa);
    case 3: { size_t s = size_t(1) << r.range(3, 31); s += r.below(17); s -= std::min<size_t>(s - 1, 8); return std::max<size_t>(1, std::min(s, maxa)); }
    case 4: return maxa - r.below(std::min<size_t>(maxa, 80));
    case 5: return std::min(maxa, std::max<size_t>(1, page / (1 + r.below(9)) - r.below(40) % (page / 9)));
    default: return r.chance(80) ? 1 + r.below(200) : 1 + r.below(maxa);
    }
}

static uint64_t count_fit(Shadow & s, size_t size, bool keep) {
    uint64_t n = 0; std::vector<uintptr_t> got;
    while (void * p = s.alloc(size, false)) { got.push_back(uintptr_t(p)); ++n; }
    if (!keep) {
        for (size_t i = got.size(); i > 1; --i) std::swap(got[i - 1], got[s.r.below(i)]);
        for (auto p : got) s.release(p, "freeing the fill");
    }
    return n;
}

static void one_case(Rng & r, long n, bool big) {
    ResetStats();
    size_t page, mem; bool sparse = false;
    if (big) {
        page = size_t(1) << r.range(25, 30); mem = std::max<size_t>(page * 4, size_t(1) << r.range(32, 34)); sparse = true;
    } else {
        page = size_t(1) << r.range(8, 15); mem = page * (size_t(4) << r.below(4));
        if (r.one_in(6)) mem = page * 64;
        while (mem > (1u << 20)) { mem >>= 1; if (mem < page * 4) { page >>= 1; } }
    }
    vh::trace("arena %zu, page %zu", mem, page);
    Shadow s(r, mem, page, sparse);
    const size_t maxa = s.ma.max_alloc_size();
    VH_CHECK(maxa < page && maxa >= page - 64, "allocation limit %zu for pages of %zu", maxa, page);
    // conservation reference on the new arena
    size_t ref_sizes[3] = {maxa, page / 3, big ? page / 16 : 1 + r.below(100)};
    uint64_t ref[3];
    for (int i = 0; i < 3; ++i) { ref[i] = count_fit(s, ref_sizes[i], false); }
    VH_CHECK(ref[0] == mem / page, "new arena of %zu pages holds %llu maximal allocations", mem / page, (unsigned long long) ref[0]);
    auto any_mode = [&]() { static const int bigm[] = {2, 4, 5, 2, 1}; return big && r.chance(85) ? bigm[r.below(5)] : int(r.below(7)); };
    int mode = any_mode(); unsigned free_pct = unsigned(r.range(5, 45)), evict_pct = r.chance(30) ? 0 : unsigned(r.range(10, 100)), resize_pct = n % 2 ? unsigned(1 + r.below(30)) : 0, touch_pct = unsigned(r.below(30));
    long ops = long((big ? 1500 : 3000) * vh::opt.scale);
    size_t sweep = big ? 500 : 250;
    for (long i = 0; i < ops; ++i) {
        if (r.one_in(150)) { mode = any_mode(); free_pct = unsigned(r.range(5, 60)); }
        unsigned d = unsigned(r.below(100));
        uintptr_t p = s.pick();
        if (p && d < free_pct) s.release(p, "at free");
        else if (p && r.chance(resize_pct)) {
            size_t cur = s.live[p].size, nn;
            switch (r.below(4)) {
            case 0: nn = cur + 1 + r.below(64); break;
            case 1: nn = 1 + r.below(cur); break;
            case 2: nn = 1 + r.below(maxa); break;
            default: nn = std::min(maxa, cur * 2); break;
            }
            s.resize(p, std::min(nn, maxa));
        } else if (p && r.chance(touch_pct)) { s.ma.touch(reinterpret_cast<void *>(p)); vh::count("touches"); }
        else s.alloc(pick_size(r, page, maxa, mode), r.chance(evict_pct));
        if (i % sweep == 0) s.verify_all("in a periodic sweep");
        if (!big && i % 64 == 0) s.accounting("an operation");
        if (r.one_in(700)) while (uintptr_t q = s.pick()) s.release(q, "at free of everything");
    }
    s.verify_all("at the end"); s.accounting("the history");
    uint64_t accounted = STAT_GET(mem, used_memory), need = 0;
    for (auto & e : s.live) need += e.second.size;
    VH_CHECK(accounted >= need && accounted <= mem, "%llu bytes accounted as used; live allocations need %llu, arena is %zu", (unsigned long long) accounted, (unsigned long long) need, mem);
    while (uintptr_t q = s.pick()) s.release(q, "at the final free");
    VH_CHECK(STAT_GET(mem, used_memory) == 0, "%llu bytes accounted as used in the empty arena", (unsigned long long) STAT_GET(mem, used_memory));
    for (int i = 0; i < 3; ++i) {
        uint64_t again = count_fit(s, ref_sizes[i], false);
        VH_CHECK(again == ref[i], "arena emptied by free holds %llu allocations of %zu bytes; when new it held %llu", (unsigned long long) again, ref_sizes[i], (unsigned long long) ref[i]);
    }
    if (n < 3) vh::sample("arena %zu page %zu: %llu evictions, refill %llu/%llu/%llu", mem, page, (unsigned long long) s.evicted, (unsigned long long) ref[0], (unsigned long long) ref[1], (unsigned long long) ref[2]);
    vh::count("conservation_checks", 3);
    if (big) vh::counters["arena_gb_max"] = std::max<uint64_t>(vh::counters["arena_gb_max"], mem >> 30);
}

int main(int argc, char ** argv) {
    vh::parse(argc, argv);
    bool big = vh::opt.profile == "big";
    return vh::run_cases([&](Rng & r, long n) { one_case(r, n, big); });
}
