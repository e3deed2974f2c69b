// Building blocks: integer <-> text, IO buffer, byte ranges, bit helpers, intrusive list.
#include "vh.h"
#include <cmath>
#include <cstdlib>
#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cachelot/bits.h>
#include <cachelot/string_conv.h>
#include <cachelot/intrusive_list.h>
#include <cachelot/hash_fnv1a.h>
#include <server/io_buffer.h>
#include <list>
#include <memory>
using namespace cachelot;
using vh::Rng;
typedef std::string str;
typedef unsigned __int128 u128;

// ------------------------------------------------------------------ integers and text
static str dec(u128 v) { if (v == 0) return "0"; str s; while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } return s; }

// exact-size heap copy: ASan sees any read outside of it
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const str & s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); if (!n) { p.reset(static_cast<char *>(malloc(1))); ::free(p.release()); p.reset(new char[1]); } } };

template <class T> struct Lim { static constexpr bool sgn = std::is_signed<T>::value; };

template <class T> static typename std::enable_if<std::is_signed<T>::value, size_t>::type ascii_length(T v) { return int_ascii_length(v); }
template <class T> static typename std::enable_if<!std::is_signed<T>::value, size_t>::type ascii_length(T v) { return uint_ascii_length(v); }

template <class T> static void check_number(T v, const char * tn) {
    bool neg = v < T(0) && Lim<T>::sgn;
    u128 mag = neg ? u128(0) - u128(__int128(v)) : u128(v);
    str want = (neg ? "-" : "") + dec(mag);
    // the documented buffer is AsciiIntegerBuffer; give exactly the space of the text: a longer write is caught by ASan
    std::unique_ptr<char[]> b(new char[want.size()]);
    size_t n = int_to_str(v, b.get());
    VH_CHECK(n == want.size() && memcmp(b.get(), want.data(), n) == 0, "%s %s was written as '%s'", tn, want.c_str(), str(b.get(), std::min(n, want.size())).c_str());
    VH_CHECK(ascii_length(v) == want.size(), "length of %s %s was computed as %zu", tn, want.c_str(), ascii_length(v));
    Exact e(want);
    error_code ec;
    T back = str_to_int<T>(static_cast<const char *>(e.p.get()), static_cast<const char *>(e.p.get() + e.n), ec);
    VH_CHECK(!ec && back == v, "%s text '%s' was read as %s%s", tn, want.c_str(), ec ? ec.message().c_str() : "another number ", ec ? "" : std::to_string(back).c_str());
    vh::sig(1, want.size(), sizeof(T) + 100 * Lim<T>::sgn, neg); vh::count("round_trips");
}
template <class T> static void check_text(const str & t, const char * tn) {
    // reference: optional '-' for the signed types, then 1..20 decimal digits whose value is representable.
    bool neg = false; size_t i = 0; str s = t;
    if (Lim<T>::sgn && !s.empty() && s[0] == '-') { neg = true; i = 1; }
    bool digits = i < s.size(); u128 v = 0; bool huge = false;
    for (size_t j = i; j < s.size(); ++j) { if (s[j] < '0' || s[j] > '9') { digits = false; break; } v = v * 10 + u128(s[j] - '0'); if (v > (u128(1) << 70)) { huge = true; v = u128(1) << 71; } }
    bool fits = digits && !huge;
    if (fits) {
        u128 lim = neg ? (u128(std::numeric_limits<T>::max()) + 1) : u128(std::numeric_limits<T>::max());
        if (neg && !Lim<T>::sgn) fits = false; else fits = v <= lim;
    }
    if (digits && s.size() - i > 20) { vh::count("over_20_digits"); if (fits) return; }   // leading zeroes beyond 20 characters: refusing and accepting are both sensible
    Exact e(s);
    error_code ec;
    T got = str_to_int<T>(static_cast<const char *>(e.p.get()), static_cast<const char *>(e.p.get() + e.n), ec);
    if (fits) {
        T want = neg ? T(__int128(0) - __int128(v)) : T(v);
        VH_CHECK(!ec && got == want, "%s text '%s' was read as %s", tn, vh::show(s).c_str(), ec ? ec.message().c_str() : std::to_string(got).c_str());
        vh::count("texts_accepted");
    } else {
        VH_CHECK(bool(ec), "%s text '%s' is not a number of this type but was read as %s", tn, vh::show(s).c_str(), std::to_string(got).c_str());
        bool thrown = false;
        try { (void) str_to_int<T>(static_cast<const char *>(e.p.get()), static_cast<const char *>(e.p.get() + e.n)); } catch (const system_error &) { thrown = true; }
        VH_CHECK(thrown, "throwing conversion of '%s' did not throw", vh::show(s).c_str());
        vh::count("texts_refused");
    }
    vh::sig(2, fits, s.size(), sizeof(T) + 100 * Lim<T>::sgn);
}
template <class T> static void conv_type(Rng & r, const char * tn, bool exhaustive) {
    typedef std::numeric_limits<T> L;
    if (exhaustive) for (long long v = (long long) L::min(); v <= (long long) L::max(); ++v) check_number<T>(T(v), tn);
    check_number<T>(L::max(), tn); check_number<T>(L::min(), tn); check_number<T>(0, tn);
    u128 p = 1;
    for (int d = 0; d < 20; ++d, p *= 10)
        for (int o = -2; o <= 2; ++o) {
            __int128 x = __int128(p) + o; 
            for (int sg = 0; sg < 2; ++sg) { __int128 y = sg ? -x : x; if (y >= __int128(L::min()) && y <= __int128(L::max())) check_number<T>(T(y), tn); }
        }
    for (int b = 0; b < int(sizeof(T) * 8); ++b) for (int o = -2; o <= 2; ++o) { check_number<T>(T((uint64_t(1) << b) + uint64_t(int64_t(o))), tn); }
    for (int i = 0; i < 1500; ++i) check_number<T>(T(r.next() >> r.below(64)), tn);
    // boundary texts
    for (int o = -25; o <= 25; ++o) {
        __int128 y = __int128(L::max()) + o; if (y >= 0) check_text<T>(dec(u128(y)), tn);
        if (Lim<T>::sgn) { __int128 z = __int128(L::max()) + 1 + o; if (z >= 0) check_text<T>("-" + dec(u128(z)), tn); }
    }
    for (int i = 0; i < 1500; ++i) {
        str s;
        switch (r.below(9)) {
        case 0: { size_t n = r.below(24); for (size_t j = 0; j < n; ++j) s += char('0' + r.below(10)); break; }
        case 1: s = dec(u128(L::max())); s[r.below(s.size())] = char('0' + r.below(10)); break;
        case 2: s = dec(u128(L::max()) + (u128(1) << r.below(64))); break;
        case 3: s = std::to_string(r.next() >> r.below(64)); s.insert(r.below(s.size() + 1), 1, char(r.next())); break;
        case 4: s = r.bytes(r.below(12)); break;
        case 5: s = "-" + std::to_string(r.next() >> r.below(64)); break;
        case 6: s = str(r.below(18), '0') + std::to_string(r.below(1000)); break;
        case 7: s = std::to_string(r.below(1000)); s = (r.chance(50) ? " " : "+") + s; break;
        default: s = r.chance(50) ? "-" : (r.chance(50) ? "--1" : "1-"); break;
        }
        check_text<T>(s, tn);
    }
    check_text<T>("", tn); check_text<T>("-", tn); check_text<T>("+1", tn); check_text<T>("0x10", tn); check_text<T>("1e3", tn); check_text<T>("18446744073709551616", tn); check_text<T>("99999999999999999999", tn); check_text<T>("-0", tn);
}
static void conv_case(Rng & r, long n) {
    bool ex = n % 4 == 0;
    conv_type<int8>(r, "int8", ex); conv_type<uint8>(r, "uint8", ex);
    conv_type<int16>(r, "int16", ex); conv_type<uint16>(r, "uint16", ex);
    conv_type<int32>(r, "int32", false); conv_type<uint32>(r, "uint32", false);
    conv_type<int64>(r, "int64", false); conv_type<uint64>(r, "uint64", false);
    if (n == 0) vh::sample("int8..uint16 exhaustively; int32..uint64 powers of 10 and 2 +-2, limits, %llu round trips", (unsigned long long) vh::counters["round_trips"]);
}

// ------------------------------------------------------------------ IO buffer: a byte queue with marks
// a terminator far from the beginning, arriving in pieces
static void iobuf_far(Rng & r) {
    size_t maxs = size_t(9) << 20; io_buffer b(r.chance(50) ? 0 : r.below(5000), maxs);
    size_t L = (size_t(1) << r.range(4, 22)) + r.below(8) - std::min<size_t>(r.below(8), 4); if (r.chance(30)) L = r.below(size_t(4) << 20); if (r.chance(60)) L = L % 70000;
    str t = r.chance(70) ? "\r\n" : (r.chance(50) ? "\n" : "\r\n\r\n"); char fill = r.chance(50) ? 'a' : (t.size() > 1 ? '\r' : ' ');
    str data = str(L, fill); if (fill == '\r' && L) data.back() = 'z'; data += t; size_t tail = r.below(30); data += str(tail, 'T');
    size_t done = 0, most = 2 + r.below(12);
    while (done < data.size()) {
        size_t left = data.size() - done, k = r.chance(40) && left <= tail + 6 ? 1 : most ? std::min(left, 1 + r.below(left)) : left; if (most) --most;
        memcpy(b.begin_write(k), data.data() + done, k); b.confirm_write(k); done += k;
        slice s = b.try_read_until(slice(t.data(), t.size()));
        bool there = done >= L + t.size();
        VH_CHECK(!there == s.empty(), "terminator after %zu bytes is %s when %zu have arrived", L, there ? "not found" : "found", done);
        if (there) { VH_CHECK(s.length() == L + t.size() && memcmp(s.begin(), data.data(), s.length()) == 0, "line of %zu bytes read as %zu bytes", L + t.size(), s.length()); break; }
        VH_CHECK(b.non_read() == done && memcmp(b.begin_read(), data.data(), done) == 0, "failed search consumed or changed bytes");
    }
    vh::count("far_terminators"); vh::sig(40, L > 4096, L > 65536, L > 1048576);
}
static void iobuf_case(Rng & r, long n) {
    if (n % 8 == 3) { iobuf_far(r); return; }
    size_t maxs = r.chance(50) ? size_t(600 + r.below(4000)) : size_t(1) << r.range(13, 18);
    size_t init = r.chance(30) ? 0 : 1 + r.below(std::min<size_t>(maxs, 3000));
    io_buffer b(init, maxs);
    vh::trace("io_buffer(%zu, %zu)", init, maxs);
    str data; size_t rd = 0;      // model: all written bytes since the last reset/compact, read position
    VH_CHECK(b.non_read() == 0 && b.size() == 0 && b.capacity() >= init && b.capacity() <= maxs, "new buffer: capacity %zu", b.capacity());
    uint64_t seq = 1;
    long ops = long(1500 * vh::opt.scale);
    for (long i = 0; i < ops; ++i) {
        switch (r.below(12)) {
        case 0: case 1: case 2: case 3: { // two-phase write
            size_t want = 1 + (r.chance(80) ? r.below(200) : r.below(maxs + maxs / 8));
            size_t fits = maxs - data.size();
            bool threw = false; char * w = nullptr;
            try { w = b.begin_write(want); } catch (const std::length_error &) { threw = true; }
            vh::trace("begin_write(%zu) size=%zu cap=%zu%s", want, b.size(), b.capacity(), threw ? " refused" : "");
            VH_CHECK(threw == (want > fits), "begin_write(%zu) %s with %zu of %zu bytes used", want, threw ? "was refused" : "succeeded", data.size(), maxs);
            VH_CHECK(b.capacity() <= maxs, "capacity %zu exceeds the limit %zu", b.capacity(), maxs);
            if (threw) { vh::count("limit_refusals"); break; }
            VH_CHECK(b.available() >= want, "%zu bytes available after begin_write(%zu)", b.available(), want);
            size_t put = r.chance(60) ? want : r.below(want + 1);
            for (size_t k = 0; k < want; ++k) w[k] = char(0xEE);      // the whole announced space is writable
            for (size_t k = 0; k < put; ++k) { w[k] = r.chance(6) ? '\r' : (r.chance(6) ? '\n' : char((seq * 1103515245u + k) >> 5)); }
            ++seq;
            b.confirm_write(put); data.append(w, put); vh::count("bytes_written", put);
            break; }
        case 4: case 5: { // two-phase read
            size_t have = data.size() - rd; size_t k = r.chance(50) ? r.below(have + 1) : r.below(std::min<size_t>(have, 40) + 1);
            VH_CHECK(b.non_read() == have, "%zu bytes to read, expected %zu", b.non_read(), have);
            VH_CHECK(have == 0 || memcmp(b.begin_read(), data.data() + rd, have) == 0, "unread bytes differ from those written");
            slice s = b.confirm_read(k);
            VH_CHECK(s.length() == k && (k == 0 || memcmp(s.begin(), data.data() + rd, k) == 0), "confirm_read(%zu) returned other bytes", k);
            rd += k; vh::count("bytes_read", k); vh::trace("read %zu", k);
            break; }
        case 6: { // read until
            static const str terms[] = {"\r\n", "\n", " ", "\r\n\r\n", "\r"};
            str t = terms[r.below(5)];
            size_t pos = data.find(t, rd);
            slice s = b.try_read_until(slice(t.data(), t.size()));
            vh::trace("try_read_until(%s) -> %zu", vh::show(t).c_str(), s.length());
            if (pos == str::npos) { VH_CHECK(s.empty(), "found a terminator that is not there"); VH_CHECK(b.non_read() == data.size() - rd, "failed search consumed bytes"); }
            else { size_t len = pos + t.size() - rd; VH_CHECK(s.length() == len && memcmp(s.begin(), data.data() + rd, len) == 0, "terminator at %zu, %zu bytes returned", pos - rd, s.length()); rd += len; vh::count("lines_found"); }
            break; }
        case 7: { // read transaction rolled back
            auto sp = b.read_savepoint(); size_t have = data.size() - rd;
            size_t k1 = r.below(have + 1); b.confirm_read(k1); size_t k2 = r.below(have - k1 + 1);
            if (r.chance(40)) { // more arrives in between, the buffer may have to grow
                size_t want = 1 + r.below(r.chance(50) ? 100 : 3000);
                if (want <= maxs - data.size()) { str more = r.bytes(want); memcpy(b.begin_write(want), more.data(), want); b.confirm_write(want); data += more; vh::count("writes_inside_read_transactions"); }
            }
            b.confirm_read(k2);
            if (r.chance(70)) { b.rollback_read_transaction(sp); vh::count("read_rollbacks"); } else rd += k1 + k2;
            break; }
        case 8: { // write transaction rolled back
            auto sp = b.write_savepoint(); size_t total = 0; bool refused = false; str wrote;
            for (int q = 0; q < 3; ++q) {
                size_t want = 1 + r.below(300);
                try { char * w = b.begin_write(want); str piece = r.bytes(want); memcpy(w, piece.data(), want); b.confirm_write(want); wrote += piece; total += want; } catch (const std::length_error &) { refused = true; break; }
            }
            (void) refused;
            if (r.chance(70)) { b.rollback_write_transaction(sp); vh::count("write_rollbacks"); } else data += wrote;
            break; }
        case 9: b.compact(); data.erase(0, rd); rd = 0; vh::trace("compact"); vh::count("compactions"); break;
        case 10: if (r.one_in(6)) { b.reset(); data.clear(); rd = 0; vh::trace("reset"); } break;
        case 11: { slice s = b.read_all(); VH_CHECK(s.length() == data.size() - rd && (s.empty() || memcmp(s.begin(), data.data() + rd, s.length()) == 0), "read_all returned %zu bytes, %zu expected", s.length(), data.size() - rd); rd = data.size(); break; }
        }
        VH_CHECK(b.size() == data.size(), "size %zu, expected %zu", b.size(), data.size());
        VH_CHECK(b.non_read() == data.size() - rd, "%zu bytes unread, expected %zu", b.non_read(), data.size() - rd);
        if (i % 16 == 0 && b.non_read()) VH_CHECK(memcmp(b.begin_read(), data.data() + rd, b.non_read()) == 0, "unread bytes changed");
        vh::sig(10, maxs - data.size() < 200, rd == data.size(), b.capacity() >> 6);
    }
    if (n < 2) vh::sample("io_buffer(%zu,%zu): %ld operations", init, maxs, ops);
}

// ------------------------------------------------------------------ byte ranges
static str S(slice s) { return s.empty() ? str() : str(s.begin(), s.length()); }
static void slice_case(Rng & r, long) {
    for (int i = 0; i < 400; ++i) {
        str a; size_t n = 1 + (r.chance(70) ? r.below(12) : r.below(80)); for (size_t k = 0; k < n; ++k) a += char(r.chance(95) ? 'a' + r.below(3) : r.below(256));
        str w; size_t m = 1 + r.below(5); 
        if (r.chance(50) && n >= m) w = a.substr(r.below(n - m + 1), m); else for (size_t k = 0; k < m; ++k) w += char('a' + r.below(3));
        Exact ea(a), ew(w);
        slice s(ea.p.get(), a.size()), q(ew.p.get(), w.size());
        // what is looked for may be a part of the same memory
        if (r.chance(25)) { size_t at = r.below(n), len = std::min<size_t>(n - at, 1 + r.below(4)); w = a.substr(at, len); q = slice(s.begin() + at, len); vh::count("slice_aliased"); }
        auto pos = a.find(w);
        slice f = s.search(q);
        VH_CHECK((pos == str::npos) == f.empty(), "search('%s' in '%s')", vh::show(w).c_str(), vh::show(a).c_str());
        if (f) VH_CHECK(f.begin() == s.begin() + pos && f.length() == w.size(), "search('%s' in '%s') found offset %zd of length %zu instead of %zu", vh::show(w).c_str(), vh::show(a).c_str(), f.begin() - s.begin(), f.length(), pos);
        VH_CHECK(s.contains(q) == (pos != str::npos), "contains");
        VH_CHECK(s.startswith(q) == (a.compare(0, w.size(), w) == 0), "startswith('%s' , '%s') is wrong", vh::show(a).c_str(), vh::show(w).c_str());
        VH_CHECK(s.endswith(q) == (a.size() >= w.size() && a.compare(a.size() - w.size(), w.size(), w) == 0), "endswith('%s' , '%s') is wrong", vh::show(a).c_str(), vh::show(w).c_str());
        VH_CHECK((s == q) == (a == w) && (s != q) == (a != w), "equality of '%s' and '%s'", vh::show(a).c_str(), vh::show(w).c_str());
        str a2 = a; if (r.chance(60)) a2[r.below(a2.size())] ^= char(r.below(3)); Exact e2(a2); slice s2(e2.p.get(), a2.size());
        VH_CHECK((s == s2) == (a == a2), "equality of '%s' and '%s'", vh::show(a).c_str(), vh::show(a2).c_str());
        slice l, t; tie(l, t) = s.split(q);
        if (pos == str::npos) VH_CHECK(S(l) == a && t.empty(), "split without the separator");
        else VH_CHECK(S(l) == a.substr(0, pos) && S(t) == a.substr(pos + w.size()), "split('%s' by '%s') gave '%s' + '%s'", vh::show(a).c_str(), vh::show(w).c_str(), vh::show(S(l)).c_str(), vh::show(S(t)).c_str());
        tie(l, t) = s.split('b'); auto pb = a.find('b');
        if (pb == str::npos) VH_CHECK(S(l) == a && t.empty(), "split by char without it"); else VH_CHECK(S(l) == a.substr(0, pb) && S(t) == a.substr(pb + 1), "split by char");
        size_t at = r.below(a.size()); tie(l, t) = s.split_at(at);
        VH_CHECK(S(l) == a.substr(0, at) && S(t) == a.substr(at), "split_at(%zu)", at);
        size_t sb = r.below(a.size()), sl = r.below(a.size() - sb + 1);
        VH_CHECK(S(s.subslice(sb, sl)) == a.substr(sb, sl), "subslice(%zu,%zu)", sb, sl);
        size_t tr = r.below(a.size()); VH_CHECK(S(s.rtrim_n(tr)) == a.substr(0, a.size() - tr), "rtrim_n(%zu)", tr);
        VH_CHECK(s.str() == a && s[at] == a[at] && s.length() == a.size(), "accessors");
        vh::sig(20, pos == str::npos ? 99 : pos, a.size(), w.size()); vh::count("slice_samples");
    }
    for (int i = 0; i < 40; ++i) { // empty ranges, with and without an address
        str a, w; for (size_t k = r.below(3); k; --k) a += char('a' + r.below(2));
        for (size_t k = r.below(3); k; --k) w += char('a' + r.below(2));
        Exact ea(a), ew(w);
        const slice s = a.empty() && r.chance(50) ? slice() : slice(ea.p.get(), a.size()), q = w.empty() && r.chance(50) ? slice() : slice(ew.p.get(), w.size());
        VH_CHECK(s.startswith(q) == (a.compare(0, w.size(), w) == 0), "startswith('%s' , '%s') is wrong (address %p)", vh::show(a).c_str(), vh::show(w).c_str(), (const void *) s.begin());
        VH_CHECK(s.endswith(q) == (a.size() >= w.size() && a.compare(a.size() - w.size(), w.size(), w) == 0), "endswith('%s' , '%s') is wrong", vh::show(a).c_str(), vh::show(w).c_str());
        VH_CHECK((s == q) == (a == w) && (s != q) == (a != w), "equality of '%s' and '%s'", vh::show(a).c_str(), vh::show(w).c_str());
        if (!w.empty()) {
            VH_CHECK(s.contains(q) == (a.find(w) != str::npos), "contains('%s' , '%s') is wrong", vh::show(a).c_str(), vh::show(w).c_str());
            slice l, t; tie(l, t) = s.split(q); auto pos = a.find(w);
            if (pos == str::npos) VH_CHECK(S(l) == a && t.empty(), "split without the separator"); else VH_CHECK(S(l) == a.substr(0, pos) && S(t) == a.substr(pos + w.size()), "split of a short range");
        }
        VH_CHECK(s.str() == a, "str() of a short range");
    }
    slice z; VH_CHECK(z.empty() && z.length() == 0 && !z && z == slice(), "empty range");
}
template <class T> static void bits_type(Rng & r) {
    for (int i = 0; i < 300; ++i) {
        T v = T(r.next() >> r.below(sizeof(T) * 8)); if (r.chance(20)) v = T(1) << r.below(sizeof(T) * 8); unsigned b = unsigned(r.below(sizeof(T) * 8));
        T m = T(T(1) << b);
        VH_CHECK(bit::is_set(v, b) == ((v & m) != 0) && bit::is_unset(v, b) == ((v & m) == 0), "is_set(%llx, %u)", (unsigned long long) v, b);
        VH_CHECK(bit::set(v, b) == T(v | m) && bit::unset(v, b) == T(v & T(~m)) && bit::flip(v, b) == T(v ^ m), "set/unset/flip(%llx, %u)", (unsigned long long) v, b);
        if (v) {
            unsigned ms = 0, ls = 0; for (unsigned k = 0; k < sizeof(T) * 8; ++k) if (v & (T(1) << k)) ms = k; for (unsigned k = sizeof(T) * 8; k-- > 0;) if (v & (T(1) << k)) ls = k;
            VH_CHECK(bit::most_significant(v) == ms, "most_significant(%llx)", (unsigned long long) v); VH_CHECK(bit::least_significant(v) == ls, "least_significant(%llx)", (unsigned long long) v);
            VH_CHECK(log2u(v) == T(ms), "log2u(%llx)", (unsigned long long) v);
            VH_CHECK(ispow2(v) == (ms == ls), "ispow2(%llx)", (unsigned long long) v);
            if (v <= (T(1) << (sizeof(T) * 8 - 1))) { T p = 1; while (p < v) p = T(p << 1); VH_CHECK(roundup_pow2(v) == p, "roundup_pow2(%llx) = %llx", (unsigned long long) v, (unsigned long long) roundup_pow2(v)); }
        }
        vh::sig(30, sizeof(T), v ? bit::most_significant(v) : 64, b); vh::count("bit_samples");
    }
    for (unsigned k = 0; k < sizeof(T) * 8; ++k) VH_CHECK(pow2(T(k)) == T(T(1) << k), "pow2(%u)", k);
}
static void bits_case(Rng & r) {
    bits_type<uint32>(r); bits_type<uint64>(r);
    for (int i = 0; i < 300; ++i) { size_t al = size_t(1) << r.below(16), sz = r.next() >> (8 + r.below(56)); size_t u = unaligned_bytes(sz, al); VH_CHECK(u < al && (sz + u) % al == 0, "unaligned_bytes(%zu, %zu) = %zu", sz, al, u); }
    // hash: FNV-1a 32, same bytes -> same hash, published reference values
    for (int i = 0; i < 100; ++i) { str k = r.bytes(r.below(60)); uint32 h = 2166136261u; for (unsigned char c : k) { h ^= c; h *= 16777619u; } Exact e(k); VH_CHECK(fnv1a<uint32>::hasher()(slice(e.p.get(), k.size())) == h, "hash of %s", vh::show(k).c_str()); }
}
struct Node { int id; intrusive_list_node a; char pad[5]; intrusive_list_node link; };
template <class L> static void list_run(Rng & r) {
    std::vector<Node> nodes(12); for (size_t i = 0; i < nodes.size(); ++i) { nodes[i].id = int(i); memset(&nodes[i].a, 0, sizeof nodes[i].a); memset(&nodes[i].link, 0, sizeof nodes[i].link); }
    L l; std::list<int> m; std::vector<bool> in(nodes.size());
    for (int i = 0; i < 250; ++i) {
        int id = int(r.below(nodes.size())); Node * x = &nodes[id];
        switch (r.below(6)) {
        case 0: if (!in[id]) { l.push_front(x); m.push_front(id); in[id] = true; } break;
        case 1: if (!in[id]) { l.push_back(x); m.push_back(id); in[id] = true; } break;
        case 2: if (!m.empty()) { Node * p = l.pop_front(); VH_CHECK(p->id == m.front(), "pop_front gave %d, expected %d", p->id, m.front()); in[m.front()] = false; m.pop_front(); } break;
        case 3: if (!m.empty()) { Node * p = l.pop_back(); VH_CHECK(p->id == m.back(), "pop_back gave %d, expected %d", p->id, m.back()); in[m.back()] = false; m.pop_back(); } break;
        case 4: if (in[id]) { if (r.chance(50)) l.remove(x); else L::unlink(x); m.remove(id); in[id] = false; } break;
        case 5: if (in[id]) { // move_front moves the item one position towards the head; whatever the distance, nothing may be lost
            l.move_front(x); auto it = std::find(m.begin(), m.end(), id); if (it != m.begin()) { auto pv = std::prev(it); std::swap(*it, *pv); } } break;
        }
        VH_CHECK(l.empty() == m.empty(), "empty()");
        if (!m.empty()) { VH_CHECK(l.front()->id == m.front() && l.back()->id == m.back(), "front/back");
            VH_CHECK(l.is_head(&nodes[m.front()]) && l.is_tail(&nodes[m.back()]), "is_head / is_tail");
            if (m.size() > 1) VH_CHECK(!l.is_head(&nodes[m.back()]) && !l.is_tail(&nodes[m.front()]), "is_head / is_tail of other items"); }
        for (auto v : m) VH_CHECK(l.has(&nodes[v]), "item %d lost", v);
        vh::sig(40, m.size(), in[id], 0);
    }
    // drain: the whole order
    while (!m.empty()) { VH_CHECK(l.pop_front()->id == m.front(), "order of the list changed"); m.pop_front(); }
    VH_CHECK(l.empty(), "list is not empty"); vh::count("list_histories");
}
static void misc_case(Rng & r, long n) {
    slice_case(r, n); bits_case(r);
    list_run<intrusive_list<Node, &Node::link>>(r); list_run<intrusive_list<Node, &Node::a>>(r);
    if (n < 2) vh::sample("400 random range pairs, 600 bit patterns, one 250-operation list history");
}
int main(int argc, char ** argv) {
    vh::parse(argc, argv);
    str p = vh::opt.profile;
    if (p == "conv") return vh::run_cases([](Rng & r, long n) { conv_case(r, n); });
    if (p == "iobuf") return vh::run_cases([](Rng & r, long n) { iobuf_case(r, n); });
    if (p == "misc") return vh::run_cases([](Rng & r, long n) { misc_case(r, n); });
    vh::harness_error("profile?");
}
