// Monitor for large ranges: the same operations on ranges around and beyond 2^24, 2^31 and 2^32 bits,
// compared completely, 64 bits at a time, with values computed from the original data.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <memory>
using namespace vh;
using W = WORD;
static constexpr std::size_t D = digits_v<W>;
using B = bit::bit_iterator<typename std::vector<W>::iterator>;
using BV = bit::bit_vector<W>;
static std::string KEY, DESC;
static void K(const char* op) { KEY = std::string("large-") + op + "/" + wname<W>(); enter(KEY.c_str()); }
static void want(bool ok, const std::string& what, const char* k = ":result") { ++G().checks; if (!ok) violation(KEY + k, what + "; " + DESC); }

// 64 bits starting at bit p (little endian memory: bit p of the sequence is bit p%8 of byte p/8)
struct Mem {
    const unsigned char* b; u64 bits;
    u64 at(u64 p) const { u64 v = 0; u64 by = p >> 3, have = (bits + 7) / 8; if (by + 9 <= have) { std::memcpy(&v, b + by, 8); unsigned s = p & 7; return s ? (v >> s) | (u64(b[by + 8]) << (64 - s)) : v; }
        for (unsigned k = 0; k < 64 && p + k < bits; ++k) v |= u64((b[(p + k) >> 3] >> ((p + k) & 7)) & 1) << k; return v; }
    bool bit(u64 p) const { return (b[p >> 3] >> (p & 7)) & 1; }
};
static u64 rev64(u64 x) { x = __builtin_bswap64(x); x = ((x >> 4) & 0x0f0f0f0f0f0f0f0full) | ((x & 0x0f0f0f0f0f0f0f0full) << 4); x = ((x >> 2) & 0x3333333333333333ull) | ((x & 0x3333333333333333ull) << 2); return ((x >> 1) & 0x5555555555555555ull) | ((x & 0x5555555555555555ull) << 1); }
static std::vector<W> data(Rng& r, u64 bits) { std::vector<W> v((bits + D - 1) / D); u64 s = r.next() | 1, n = v.size() * sizeof(W); unsigned char* p = reinterpret_cast<unsigned char*>(v.data()); u64 k = 0; for (; k + 8 <= n; k += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; std::memcpy(p + k, &s, 8); } for (; k < n; ++k) p[k] = (unsigned char)r.next(); return v; }
static Mem mem(const std::vector<W>& v) { return {reinterpret_cast<const unsigned char*>(v.data()), v.size() * D}; }
static B at(std::vector<W>& v, u64 k) { return B(v.begin() + (std::ptrdiff_t)(k / D), k % D); }
static u64 idx(std::vector<W>& v, const B& i) { return (u64)(i.base() - v.begin()) * D + i.position(); }
// Bits [p, p+len) of `got` must be f(k) for the chunk starting at offset k (f gives 64 bits)
template <class F> static bool seg(const Mem& got, u64 p, u64 len, F f, const char* what) {
    for (u64 k = 0; k < len; k += 64) { u64 g = got.at(p + k), e = f(k); if (len - k < 64) { u64 m = (u64(1) << (len - k)) - 1; g &= m; e &= m; }
        if (g != e) { u64 b = k + (u64)__builtin_ctzll(g ^ e); want(false, fmt("%s: bit %llu (offset %llu) is wrong", what, (unsigned long long)(p + b), (unsigned long long)b)); return false; } }
    ++G().checks; return true;
}
#ifndef SIZECLASS
#define SIZECLASS 0
#endif
static u64 size_of(Rng& r) {
#if SIZECLASS == 0
    switch (r.below(4)) { case 0: return (u64(1) << 24) + r.below(4 * D); case 1: return (u64(1) << 25) - r.below(3 * D); case 2: return (u64(1) << 24) + D * r.in(1, 999); default: return (u64(1) << 24) + r.below(u64(1) << 24); }
#elif SIZECLASS == 1
    return r.chance(50) ? (u64(1) << 31) + r.below(8 * D) : (u64(1) << 31) + r.below(1 << 20);
#elif SIZECLASS == 3     // rotations that leave more than 2^32 bits behind after the whole block swaps
    return (u64(3) << 32) + r.in(900, 1200);
#else
    return r.chance(50) ? (u64(1) << 32) + r.below(8 * D) : (u64(1) << 32) + r.below(1 << 26);
#endif
}
#ifdef TEXT
// Bits computed from their position: nothing to store, whatever the number
static inline unsigned bit_at(u64 k, u64 s) { return (unsigned)(((k * 0x9e3779b97f4a7c15ull + s) ^ (k >> 7)) >> 61) & 1; }
struct Bools { using iterator_category = std::random_access_iterator_tag; using value_type = bool; using difference_type = std::ptrdiff_t; using pointer = const bool*; using reference = bool;
    u64 k = 0, s = 0; bool operator*() const { return bit_at(k, s); } bool operator[](difference_type n) const { return bit_at(k + (u64)n, s); } Bools& operator++() { ++k; return *this; } Bools operator++(int) { Bools t = *this; ++k; return t; } Bools& operator--() { --k; return *this; } Bools operator--(int) { Bools t = *this; --k; return t; }
    Bools& operator+=(difference_type n) { k += (u64)n; return *this; } Bools& operator-=(difference_type n) { k -= (u64)n; return *this; } friend Bools operator+(Bools a, difference_type n) { return a += n; } friend Bools operator+(difference_type n, Bools a) { return a += n; } friend Bools operator-(Bools a, difference_type n) { return a -= n; } friend difference_type operator-(const Bools& a, const Bools& b) { return (difference_type)(a.k - b.k); }
    friend bool operator==(const Bools& a, const Bools& b) { return a.k == b.k; } friend bool operator!=(const Bools& a, const Bools& b) { return a.k != b.k; } friend bool operator<(const Bools& a, const Bools& b) { return a.k < b.k; } friend bool operator>(const Bools& a, const Bools& b) { return a.k > b.k; } friend bool operator<=(const Bools& a, const Bools& b) { return a.k <= b.k; } friend bool operator>=(const Bools& a, const Bools& b) { return a.k >= b.k; } };
static u64 bits_at(u64 k, u64 s) { u64 v = 0; for (unsigned j = 0; j < 64; ++j) v |= u64(bit_at(k + j, s)) << j; return v; }
int main(int argc, char** argv) {
    return run(argc, argv, 0x1a97e + SIZECLASS, [](Rng& r, u64 i) {
        u64 n = size_of(r), s = r.next(); unsigned op = (unsigned)(i % 4);
        DESC = fmt("operation %u on %llu bits, words %s", op, (unsigned long long)n, wname<W>()); describe([&] { return DESC; });
        auto view = [](BV& v) { return Mem{reinterpret_cast<const unsigned char*>(v.data()), v.size()}; };
        switch (op) {
            case 0: { K("vector-text"); std::string t; t.reserve(n + n / 1000 + 2); u64 sep = 0; for (u64 k = 0; k < n; ++k) { if (k % 1021 == 1020) { t += ' '; ++sep; } t += (char)('0' + bit_at(k, s)); } BV v{std::string_view(t)}; want(v.size() == n, fmt("%llu bits from a text of %llu digits and %llu spaces", (unsigned long long)v.size(), (unsigned long long)n, (unsigned long long)sep)); if (v.size() == n) seg(view(v), 0, n, [&](u64 k) { return bits_at(k, s); }, "construction from a text"); break; }
            case 1: { K("vector-debug_string"); BV v(n); { unsigned char* p = reinterpret_cast<unsigned char*>(v.data()); for (u64 k = 0; k < n; k += 64) { u64 x = bits_at(k, s); std::memcpy(p + k / 8, &x, std::min<u64>(8, v.capacity() / 8 - k / 8)); } }
                      std::string t = v.debug_string(); u64 q = 0, bad = ~u64(0); for (u64 k = 0; k < n && bad == ~u64(0); ++k) { if (k && k % D == 0) { if (q >= t.size() || t[q] != ' ') bad = k; ++q; } else if (k && k % 8 == 0) { if (q >= t.size() || t[q] != '.') bad = k; ++q; } if (q >= t.size() || t[q] != (char)('0' + bit_at(k, s))) bad = k; ++q; }
                      want(bad == ~u64(0) && q == t.size(), fmt("text of length %llu is wrong at bit %llu", (unsigned long long)t.size(), (unsigned long long)bad)); break; }
            case 2: { K("vector-bools"); BV v(Bools{0, s}, Bools{n, s}); want(v.size() == n, "size after construction from bools"); if (v.size() == n) seg(view(v), 0, n, [&](u64 k) { return bits_at(k, s); }, "construction from bools"); break; }
            default: { K("vector-insert-erase-one"); BV v(Bools{0, s}, Bools{n, s}); u64 p = r.chance(50) ? n - r.below(100) : r.below(n); v.shrink_to_fit(); v.insert(v.cbegin() + (std::ptrdiff_t)p, bit::bit1); want(v.size() == n + 1, "size after insert"); seg(view(v), 0, p, [&](u64 k) { return bits_at(k, s); }, "before the insertion"); want(static_cast<bool>(v[p]), "inserted bit"); seg(view(v), p + 1, n - p, [&](u64 k) { return bits_at(p + k, s); }, "behind the insertion");
                       u64 e = r.below(p + 1); v.erase(v.begin() + (std::ptrdiff_t)p); want(v.size() == n, "size after erase"); seg(view(v), 0, n, [&](u64 k) { return bits_at(k, s); }, "after erasing the inserted bit"); v.erase(v.begin() + (std::ptrdiff_t)e); seg(view(v), e, n - 1 - e, [&](u64 k) { return bits_at(e + 1 + k, s); }, "after erasing one bit"); v.pop_back(); want(v.size() == n - 2 && static_cast<bool>(v.back()) == (bit_at(n - 2, s) != 0), "pop_back"); BV u(3); std::swap(u, v); want(u.size() == n - 2 && v.size() == 3, "swap"); v = u; want(v.size() == n - 2 && bit::equal(v.begin(), v.end(), u.begin()), "assignment"); break; }
        }
        count_class(KEY.substr(0, KEY.find('/'))); nontrivial(mix(n) ^ mix(op * 64 + 7));
    });
}
#else
int main(int argc, char** argv) {
    return run(argc, argv, 0x1a96e + SIZECLASS, [](Rng& r, u64 i) {
        // OPMASK selects operations
#ifndef OPMASK
#define OPMASK 0x3ffffu
#endif
        static const std::vector<unsigned> ops = [] { std::vector<unsigned> o; for (unsigned k = 0; k < 18; ++k) if (OPMASK >> k & 1) o.push_back(k); return o; }();
        unsigned op = ops[i % ops.size()];
        u64 n = size_of(r), f = r.chance(50) ? 0 : r.below(2 * D), d = r.chance(50) ? f % D : r.below(2 * D); bool val = r.chance(50); auto V = val ? bit::bit1 : bit::bit0;
        DESC = fmt("operation %u on %llu bits at offset %llu/%llu, words %s", op, (unsigned long long)n, (unsigned long long)f, (unsigned long long)d, wname<W>());
        describe([&] { return DESC; });
        auto outside = [&](const Mem& got, const Mem& old, u64 lo, u64 hi) { bool ok = true; for (u64 k = lo > 256 ? lo - 256 : 0; k < lo; ++k) ok = ok && got.bit(k) == old.bit(k); for (u64 k = hi; k < std::min(got.bits, hi + 256); ++k) ok = ok && got.bit(k) == old.bit(k); want(ok, "bits next to the range changed", ":frame"); };
        if (op < 12) {
            std::vector<W> a = data(r, f + n); const std::vector<W> a0 = a; Mem A = mem(a), A0 = mem(a0);
            u64 k = r.chance(40) ? n / 2 + r.below(100) : r.chance(50) ? r.below(4 * D) : n - r.below(4 * D); if (SIZECLASS && r.chance(30)) k = std::min(n, (u64(1) << 31) + r.below(10));
            if (SIZECLASS == 3) { k = (u64(1) << 32) + r.in(400, 440); if (i % 2) k = n - k; }
            switch (op) {
                case 0: { bool mv = i / ops.size() % 2; K(mv ? "move" : "copy"); std::vector<W> b = data(r, d + n); auto e = mv ? bit::move(at(a, f), at(a, f + n), at(b, d)) : bit::copy(at(a, f), at(a, f + n), at(b, d)); want(idx(b, e) == d + n, "returned position"); seg(mem(b), d, n, [&](u64 q) { return A0.at(f + q); }, mv ? "move" : "copy"); break; }
                case 1: { K("copy_backward"); std::vector<W> b = data(r, d + n); auto e = bit::copy_backward(at(a, f), at(a, f + n), at(b, d + n)); want(idx(b, e) == d, "returned position"); seg(mem(b), d, n, [&](u64 q) { return A0.at(f + q); }, "copy_backward"); break; }
                case 2: { K("fill"); bit::fill(at(a, f), at(a, f + n), V); seg(A, f, n, [&](u64) { return val ? ~u64(0) : 0; }, "fill"); outside(A, A0, f, f + n); break; }
                case 3: { K("count"); u64 ones = 0; for (u64 q = 0; q < n; q += 64) { u64 v = A0.at(f + q); if (n - q < 64) v &= (u64(1) << (n - q)) - 1; ones += (u64)__builtin_popcountll(v); } auto g = bit::count(at(a, f), at(a, f + n), V); want((u64)g == (val ? ones : n - ones), fmt("counted %lld, expected %llu", (long long)g, (unsigned long long)(val ? ones : n - ones)));
                          std::fill(a.begin(), a.end(), static_cast<W>(~W(0))); auto g2 = bit::count(at(a, f), at(a, f + n), bit::bit1); want((u64)g2 == n, fmt("counted %lld of %llu ones", (long long)g2, (unsigned long long)n)); break; }
                case 4: { K("find"); std::fill(a.begin(), a.end(), static_cast<W>(val ? 0 : ~W(0))); want(idx(a, bit::find(at(a, f), at(a, f + n), V)) == f + n, "absent value"); u64 q = std::min(k, n - 1); *at(a, f + q) = V; want(idx(a, bit::find(at(a, f), at(a, f + n), V)) == f + q, "position of the only occurrence"); break; }
                case 5: { K("equal"); std::vector<W> b(d / D + a.size() + 2); { std::vector<W> t = a; bit::copy(at(t, f), at(t, f + n), at(b, d)); } Mem Bm = mem(b); if (!seg(Bm, d, n, [&](u64 q) { return A0.at(f + q); }, "copy for equal")) break; want(bit::equal(at(a, f), at(a, f + n), at(b, d)), "equal ranges"); u64 q = std::min(k, n - 1); at(b, d + q)->flip(); want(!bit::equal(at(a, f), at(a, f + n), at(b, d)), "ranges differing in one bit"); break; }
                case 6: { K("reverse"); bit::reverse(at(a, f), at(a, f + n)); seg(A, f, n, [&](u64 q) { u64 c = std::min<u64>(64, n - q); return rev64(A0.at(f + n - q - c)) >> (64 - c); }, "reverse"); outside(A, A0, f, f + n); break; }
                case 7: { K("rotate"); k = std::min(k, n); auto e = bit::rotate(at(a, f), at(a, f + k), at(a, f + n)); want(idx(a, e) == f + n - k, "returned position"); seg(A, f, n - k, [&](u64 q) { return A0.at(f + k + q); }, "rotate, first part"); seg(A, f + n - k, k, [&](u64 q) { return A0.at(f + q); }, "rotate, second part"); outside(A, A0, f, f + n); break; }
                case 8: { K("shift_left"); k = std::min(k, n - 1); auto e = bit::shift_left(at(a, f), at(a, f + n), (std::ptrdiff_t)k); want(k == 0 || idx(a, e) == f + n - k, "returned position"); seg(A, f, n - k, [&](u64 q) { return A0.at(f + k + q); }, "shift_left"); outside(A, A0, f, f + n); break; }
                case 9: { K("shift_right"); k = std::min(k, n - 1); auto e = bit::shift_right(at(a, f), at(a, f + n), (std::ptrdiff_t)k); want(k == 0 || idx(a, e) == f + k, "returned position"); seg(A, f + k, n - k, [&](u64 q) { return A0.at(f + q); }, "shift_right"); outside(A, A0, f, f + n); break; }
                case 10: { K("swap_ranges"); std::vector<W> b = data(r, d + n); const std::vector<W> b0 = b; auto e = bit::swap_ranges(at(a, f), at(a, f + n), at(b, d)); want(idx(b, e) == d + n, "returned position"); seg(A, f, n, [&](u64 q) { return mem(b0).at(d + q); }, "swap_ranges"); seg(mem(b), d, n, [&](u64 q) { return A0.at(f + q); }, "swap_ranges"); outside(A, A0, f, f + n); break; }
                default: { bool un = i / ops.size() % 2; K(un ? "transform1" : "transform"); std::vector<W> b = data(r, d + n); const std::vector<W> b0 = b; auto e = un ? bit::transform(at(a, f), at(a, f + n), at(b, d), std::bit_not<W>()) : bit::transform(at(a, f), at(a, f + n), at(b, d), at(b, d), std::bit_xor<W>()); want(idx(b, e) == d + n, "returned position"); seg(mem(b), d, n, [&](u64 q) { return un ? ~A0.at(f + q) : A0.at(f + q) ^ mem(b0).at(d + q); }, "transform"); break; }
            }
        } else {
            auto view = [](BV& v) { return Mem{reinterpret_cast<const unsigned char*>(v.data()), v.size()}; };
            auto words = [](u64 b) { return (b + D - 1) / D; };
            switch (op) {
                case 12: { K("vector-construct"); BV v(n, V); want(v.size() == n && v.capacity() >= n && v.end() - v.begin() == (std::ptrdiff_t)n, "size"); seg(view(v), 0, n, [&](u64) { return val ? ~u64(0) : 0; }, "fill constructor"); v[n - 1] = val ? bit::bit0 : bit::bit1; want(static_cast<bool>(v.back()) != val && static_cast<bool>(v.at(n - 1)) != val, "last bit"); bool t = false; try { v.at(n); } catch (const std::out_of_range&) { t = true; } want(t, "at(size()) must throw"); break; }
                case 13: { K("vector-insertN"); u64 c = r.in(1, 5 * D), p = r.chance(50) ? n : n - r.below(1000); BV v(n, V); v.shrink_to_fit(); v.insert(v.begin() + (std::ptrdiff_t)p, c, val ? bit::bit0 : bit::bit1); want(v.size() == n + c && v.capacity() >= n + c, "size after insert"); seg(view(v), 0, p, [&](u64) { return val ? ~u64(0) : 0; }, "before the insertion"); seg(view(v), p, c, [&](u64) { return val ? 0 : ~u64(0); }, "inserted bits"); seg(view(v), p + c, n - p, [&](u64) { return val ? ~u64(0) : 0; }, "behind the insertion"); break; }
                case 14: { K("vector-insertR"); u64 c = r.in(1, 5 * D), p = r.chance(50) ? n : n - r.below(1000); BV v(n, V), s(c, val ? bit::bit0 : bit::bit1); v.shrink_to_fit(); v.insert(v.begin() + (std::ptrdiff_t)p, s.begin(), s.end()); want(v.size() == n + c && v.capacity() >= n + c, "size after insert"); seg(view(v), p, c, [&](u64) { return val ? 0 : ~u64(0); }, "inserted bits"); seg(view(v), p + c, n - p, [&](u64) { return val ? ~u64(0) : 0; }, "behind the insertion"); break; }
                case 15: { K("vector-resize"); BV v(n / 2, V); v.resize(n, val ? bit::bit0 : bit::bit1); want(v.size() == n && v.capacity() >= n, "size after resize"); seg(view(v), 0, n / 2, [&](u64) { return val ? ~u64(0) : 0; }, "kept bits"); seg(view(v), n / 2, n - n / 2, [&](u64) { return val ? 0 : ~u64(0); }, "new bits"); v.resize(n - 7); want(v.size() == n - 7, "size after shrinking"); v.reserve(n + 3 * D); want(v.capacity() >= n + 3 * D, "reserve"); break; }
                case 16: { K("vector-erase"); BV v(n, V); std::vector<W> src = data(r, n); std::copy(src.begin(), src.begin() + (std::ptrdiff_t)words(n), v.data()); Mem S = mem(src); u64 p = r.chance(50) ? r.below(1000) : n / 2, c = r.chance(50) ? r.in(1, 3 * D) : n / 3; v.erase(v.begin() + (std::ptrdiff_t)p, v.begin() + (std::ptrdiff_t)(p + c)); want(v.size() == n - c, "size after erase"); seg(view(v), 0, p, [&](u64 q) { return S.at(q); }, "before the erased bits"); seg(view(v), p, n - c - p, [&](u64 q) { return S.at(p + c + q); }, "behind the erased bits"); break; }
                default: { K("vector-push_back"); BV v(n - 5, V); for (unsigned q = 0; q < 3 * D + 10; ++q) v.push_back(q % 3 ? bit::bit1 : bit::bit0); want(v.size() == n + 5 + 3 * D, "size after push_back"); bool ok = true; for (unsigned q = 0; q < 3 * D + 10; ++q) ok = ok && static_cast<bool>(v[n - 5 + q]) == (q % 3 != 0); want(ok, "appended bits"); BV w(static_cast<const BV&>(v)); want(w.size() == v.size() && bit::equal(v.begin(), v.end(), w.begin()), "copy"); BV u(v.begin() + 3, v.end()); want(u.size() == v.size() - 3 && bit::equal(u.begin(), u.end(), v.begin() + 3), "range constructor"); break; }
            }
        }
        count_class(KEY.substr(0, KEY.find('/'))); nontrivial(mix(n) ^ mix(op * 64 + f % D));
    });
}
#endif
