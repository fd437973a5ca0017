// Differential monitor for the range algorithms: every call is mirrored on a plain
// one-byte-per-bit sequence with the std:: algorithm, and all words are compared afterwards.
// Buffers hold exactly the words of the range (plus optional padding), so that under
// AddressSanitizer any access beyond the words that hold the range is reported.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include <numeric>

using namespace vh;
using W = WORD;
static constexpr std::size_t D = digits_v<W>;

#ifndef OPMASK
#define OPMASK 0xffffffffu
#endif
enum { OP_COPY, OP_MOVE, OP_COPYB, OP_FILL, OP_COUNT, OP_FIND, OP_EQUAL, OP_REVERSE, OP_ROTATE,
       OP_SHL, OP_SHR, OP_SWAP, OP_TRANS1, OP_TRANS2, OP_N };
#define HAS(op) constexpr ((OPMASK >> (op)) & 1u)

static std::string OPKEY;   // "<op>/<word>"
// The words under the bits are in a std::vector, reached through its iterators, through pointers, a mix of
// both or spies (checked, counting iterators), or in a std::deque.
#ifdef ITER_DEQUE
using Seq = std::deque<W>;
#else
using Seq = std::vector<W>;
#endif
#if defined(ITER_SPY)
static u64 DEREFS;
// A random access iterator that knows its sequence, reports any position or access outside it, and counts accesses
struct Spy {
    using difference_type = std::ptrdiff_t; using value_type = W; using pointer = W*; using reference = W&;
    using iterator_category = std::random_access_iterator_tag;
    W* b = nullptr; std::ptrdiff_t n = 0, k = 0;
    static void bad(const char* kind, const char* what, std::ptrdiff_t k, std::ptrdiff_t n) { violation(OPKEY + kind, fmt("%s: word %td of %td; %s", what, k, n, G().desc.c_str())); }
    W& operator*() const { return at(k); }
    W* operator->() const { return &at(k); }
    W& operator[](std::ptrdiff_t d) const { return at(k + d); }
    W& at(std::ptrdiff_t q) const { static W sink; ++DEREFS; if (q < 0 || q >= n) { bad(":access", "access outside the sequence", q, n); sink = W(0x5555555555555555ull); return sink; } return b[q]; }
    Spy& operator+=(std::ptrdiff_t d) { if (d > n - k || d < -k) bad(":range", "iterator formed outside the sequence", k + d, n); k += d; return *this; }
    Spy& operator-=(std::ptrdiff_t d) { return *this += -d; }
    Spy& operator++() { return *this += 1; }
    Spy& operator--() { return *this += -1; }
    Spy operator++(int) { Spy t = *this; *this += 1; return t; }
    Spy operator--(int) { Spy t = *this; *this += -1; return t; }
    friend Spy operator+(Spy a, std::ptrdiff_t d) { return a += d; }
    friend Spy operator+(std::ptrdiff_t d, Spy a) { return a += d; }
    friend Spy operator-(Spy a, std::ptrdiff_t d) { return a -= d; }
    friend std::ptrdiff_t operator-(const Spy& a, const Spy& c) { same(a, c); return a.k - c.k; }
    static void same(const Spy& a, const Spy& c) { if (a.b != c.b) bad(":foreign", "iterators of different sequences subtracted or ordered", a.k, a.n); }
    friend bool operator==(const Spy& a, const Spy& c) { return a.b == c.b && a.k == c.k; }
    friend bool operator!=(const Spy& a, const Spy& c) { return !(a == c); }
    friend bool operator<(const Spy& a, const Spy& c) { same(a, c); return a.k < c.k; }
    friend bool operator>(const Spy& a, const Spy& c) { return c < a; }
    friend bool operator<=(const Spy& a, const Spy& c) { return !(c < a); }
    friend bool operator>=(const Spy& a, const Spy& c) { return !(a < c); }
};
using ItA = Spy; using ItB = Spy;
#define ITN "spy"
template <class It> It base_of(Seq& v, std::size_t w) { Spy s; s.b = v.data(); s.n = (std::ptrdiff_t)v.size(); s.k = (std::ptrdiff_t)w; return s; }
#else
#if defined(ITER_DEQUE)
using ItA = Seq::iterator; using ItB = Seq::iterator;
#define ITN "deque"
#elif defined(ITER_PTR)
using ItA = W*; using ItB = W*;
#define ITN "ptr"
#elif defined(ITER_MIXED)
using ItA = std::vector<W>::iterator; using ItB = W*;
#define ITN "mixed"
#else
using ItA = std::vector<W>::iterator; using ItB = std::vector<W>::iterator;
#define ITN "vec"
#endif
template <class It, class S> It base_of(S& v, std::size_t w) {
    if constexpr (std::is_pointer<It>::value) return v.data() + w; else return v.begin() + w;
}
#endif

#ifndef COST_PER_WORD
#define COST_PER_WORD 14
#endif
#ifndef MAXBYTES
#define MAXBYTES 3000
#endif

template <class It> bit::bit_iterator<It> bit_at(Seq& v, std::size_t b) {
    return bit::bit_iterator<It>(base_of<It>(v, b / D), b % D);
}
template <class It> std::ptrdiff_t index_of(Seq& v, const bit::bit_iterator<It>& i) {
    // Computed from the documented base()/position(), not from the library's own arithmetic
    if (i.position() >= D) return std::numeric_limits<std::ptrdiff_t>::min();
    return (i.base() - base_of<It>(v, 0)) * (std::ptrdiff_t)D + (std::ptrdiff_t)i.position();
}

// Some calls read their source through iterators to const words (not through spies).
#if defined(ITER_SPY)
using CIt = ItA;
static CIt cbase(Seq& v, std::size_t w) { return base_of<ItA>(v, w); }
#elif defined(ITER_PTR) || defined(ITER_MIXED)
using CIt = const W*;
static CIt cbase(const Seq& v, std::size_t w) { return v.data() + w; }
#else
using CIt = Seq::const_iterator;
static CIt cbase(const Seq& v, std::size_t w) { return v.begin() + w; }
#endif
// The second range of a swap may have another type of iterator.
#if defined(ITER_SPY) || defined(ITER_DEQUE)
using ItS = ItA;
#elif defined(ITER_PTR)
using ItS = Seq::iterator;
#else
using ItS = W*;
#endif
static bit::bit_iterator<CIt> cbit_at(Seq& v, std::size_t b) { return bit::bit_iterator<CIt>(cbase(v, b / D), b % D); }
// Calls f(first, last) with iterators to const words or not
template <class F> static auto with_source(bool constant, Seq& v, std::size_t b, std::size_t e, F&& f) {
    if (constant) { count_class("const-source"); return f(cbit_at(v, b), cbit_at(v, e)); }
    return f(bit_at<ItA>(v, b), bit_at<ItA>(v, e));
}

struct Buf {
    Seq v;
    Bits m, before;
    void init(Rng& r, std::size_t words) {
        std::vector<W> x(words);
        fill_pattern(r, x.data(), words);
        v = Seq(x.begin(), x.end());
#ifdef ITER_DEQUE
        for (u64 k = r.below(700 / sizeof(W)); k > 0 && words; --k) { v.push_back(v.front()); v.pop_front(); }   // begin anywhere in a block
#endif
        sync();
    }
    void sync() { std::vector<W> x(v.begin(), v.end()); unpack(x.data(), x.size(), m); before = m; }
};

static u64 RESULT_HASH;

static void hash_in(u64 x) { RESULT_HASH = mix(RESULT_HASH ^ x); }

// Compares a buffer with its model. [lo,hi) is where the operation may write; [ulo,uhi) is left
// unspecified by the operation's contract.
static void compare(Buf& b, std::size_t lo, std::size_t hi, std::size_t ulo = 0, std::size_t uhi = 0, bool frame_only = false) {
    ++G().checks;
    for (std::size_t w = 0; w < b.v.size(); ++w) {
        W got = b.v[w], want = pack_word<W>(b.m, w);
        if (got != want) {
            for (std::size_t k = 0; k < D; ++k) {
                std::size_t i = w * D + k;
                bool g = (got >> k) & 1, x = b.m[i];
                if (g == x) continue;
                if (i >= ulo && i < uhi) continue;
                bool inside = i >= lo && i < hi;
                if (inside && frame_only) continue;
                violation(OPKEY + (inside ? ":result" : ":frame"),
                          fmt("bit %zu of buffer (%zu words) is %d, expected %d; writable range [%zu,%zu); %s", i, b.v.size(), g, x, lo, hi, G().desc.c_str()));
                return;
            }
        }
        // The unspecified part must not enter the hash
        if (uhi > ulo) { for (std::size_t k = 0; k < D; ++k) { std::size_t i = w * D + k; if (i >= ulo && i < uhi) got = static_cast<W>(got & ~(W(1) << k)); } }
        hash_in(got);
    }
}
static void check_ret(std::ptrdiff_t got, std::ptrdiff_t want) {
    ++G().checks;
    hash_in(static_cast<u64>(got));
    if (got != want)
        violation(OPKEY + ":return", fmt("returned bit index %td, expected %td; %s", got, want, G().desc.c_str()));
}

// ------------------------------------------------------------------------------------------
static const std::vector<unsigned>& grid_pos() {
    static std::vector<unsigned> p;
    if (p.empty()) { if (D == 8) for (unsigned i = 0; i < 8; ++i) p.push_back(i); else p = {0, 1, 2, D / 2 - 1, D / 2, D / 2 + 1, D - 2, D - 1}; }
    return p;
}
static const std::vector<unsigned>& grid_len() {
    static std::vector<unsigned> p;
    if (p.empty()) {
        if (D == 8) for (unsigned i = 0; i < 42; ++i) p.push_back(i);
        else for (unsigned k = 0; k < 6; ++k) for (int d : {-2, -1, 0, 1, 2, (int)D / 2, (int)D / 2 + 1}) { long v = (long)(k * D) + d; if (v >= 0) p.push_back((unsigned)v); }
    }
    return p;
}
struct Shape { std::size_t pos, len, pos2; bool grid; };
static Shape pick_shape(Rng& r, u64 sub) {
    const u64 np = grid_pos().size(), nl = grid_len().size();
    if (sub % 2 == 0) {   // even cases sweep the grid, odd cases are random
        u64 k = (sub / 2) % (np * nl * np);
        return {grid_pos()[k % np], grid_len()[(k / np) % nl], grid_pos()[k / (np * nl)], true};
    }
    if (r.below(900) == 0) return {pick_pos<W>(r), (std::size_t)r.below(70000 * D), pick_pos<W>(r), false};
    return {pick_pos<W>(r), pick_len<W>(r, MAXBYTES), pick_pos<W>(r), false};
}
static std::size_t pad(Rng& r) { return r.chance(55) ? 0 : r.in(1, 9); }
static std::size_t words_for(std::size_t bits) { return (bits + D - 1) / D; }

// Places a range in a fresh buffer; returns the first bit index.
static std::size_t place(Rng& r, Buf& b, std::size_t pos, std::size_t len) {
    std::size_t l = pad(r), x = pad(r), w = words_for(pos + len);
    if (pos + len == 0 && r.chance(30)) { l = x = 0; }
    if (pos && !len) w = 1;
    b.init(r, l + w + x);
    return l * D + pos;
}
// Places a source at (pos,len) and a second range of the same length starting at pos2, in the same
// buffer, the second one before (how<0) or after (how>0) the first, overlapping or not.
// Returns {first, second}.
static std::pair<std::size_t, std::size_t> place_two(Rng& r, Buf& b, std::size_t pos, std::size_t len, std::size_t pos2, bool second_before, bool overlap) {
    std::size_t gapw;   // distance in words between the two starts
    const std::size_t lw = words_for(len + D);
    if (overlap) gapw = r.chance(60) ? r.below(3) : r.below(lw + 1);
    else gapw = lw + r.below(4);
    std::size_t a = pos, c = pos2;
    if (second_before) { a += gapw * D; if (!(c < a)) { a += D; } }
    else { c += gapw * D; if (!(c > a)) { c += D; } }
    std::size_t l = pad(r) * D;
    a += l; c += l;
    std::size_t end = std::max(a, c) + len;
    std::size_t w = words_for(end);
    if (!len && end % D == 0 && r.chance(50)) {} // end-of-buffer empty ranges stay exact
    b.init(r, w + pad(r));
    return {a, c};
}
static const char* K(const char* op) {
    OPKEY = std::string(op) + "/" + wname<W>();
    enter(OPKEY.c_str());
#ifdef ITER_SPY
    DEREFS = 0;
#endif
    return OPKEY.c_str();
}
#ifdef ITER_SPY
static void cost(std::size_t len) {
    // Word-parallel work: a bounded number of word accesses per word of the range
    ++G().checks;
    const u64 words = len / D + 2;
    if (std::getenv("VH_COST")) { static std::map<std::string, double> m; double q = (double)DEREFS / (double)(words); if (len > 8 * D && q > m[OPKEY]) { m[OPKEY] = q; fprintf(stderr, "COST %s %.2f len=%zu derefs=%llu; %s\n", OPKEY.c_str(), q, len, (unsigned long long)DEREFS, G().desc.c_str()); } }
    if (DEREFS > COST_PER_WORD * words + 40) violation(OPKEY + ":cost", fmt("%llu word accesses for a range of %zu bits (%llu words); %s", (unsigned long long)DEREFS, len, (unsigned long long)words, G().desc.c_str()));
}
#endif
static void note(const char* op, std::size_t len, std::size_t p1, std::size_t p2, u64 extra, bool trivial) {
#ifdef ITER_SPY
    cost(len);
#endif
    if (trivial) { count_class(std::string(op) + ":empty"); return; }
    const char* bucket = len < D ? "<1w" : len < 2 * D ? "1-2w" : len < 8 * D ? "2-8w" : len < 64 * D ? "8-64w" : ">=64w";
    count_class(std::string(op) + ":" + bucket + (p1 % D ? "" : "/aligned"));
    nontrivial(mix(len * 1315423911u + (p1 % D) * 131 + (p2 % D)) ^ (u64)op[0] * 7919 ^ (u64)op[1] * 104729 ^ mix(extra));
}

// ------------------------------------------------------------------------------------------
template <bool MOVE> static void op_copy(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K(MOVE ? "move" : "copy");
    Buf a, b;
    int mode = (int)r.below(3);
    if (mode == 0) {
        std::size_t f = place(r, a, s.pos, s.len), d = place(r, b, s.pos2, s.len);
        describe([&] { return fmt("%s %s " ITN " separate buffers: [%zu,%zu) of %zu words -> %zu of %zu words", MOVE ? "move" : "copy", wname<W>(), f, f + s.len, a.v.size(), d, b.v.size()); });
        std::copy(a.m.begin() + f, a.m.begin() + f + s.len, b.m.begin() + d);
        auto d1 = bit_at<ItB>(b.v, d);
        auto ret = with_source(r.chance(30), a.v, f, f + s.len, [&](auto f1, auto l1) { if constexpr (MOVE) return bit::move(f1, l1, d1); else return bit::copy(f1, l1, d1); });
        check_ret(index_of<ItB>(b.v, ret), d + s.len);
        compare(a, 0, 0); compare(b, d, d + s.len);
        note(MOVE ? "mv" : "cp", s.len, f, d, 0, s.len == 0);
    } else {
        bool overlap = mode == 1;
        auto pr = place_two(r, a, s.pos, s.len, s.pos2, overlap ? true : r.chance(50), overlap);
        std::size_t f = pr.first, d = pr.second;
        if (d > f && d < f + s.len) return;   // outside the contract
        describe([&] { return fmt("%s %s " ITN " same buffer of %zu words: [%zu,%zu) -> %zu", MOVE ? "move" : "copy", wname<W>(), a.v.size(), f, f + s.len, d); });
        Bits src(a.m.begin() + f, a.m.begin() + f + s.len);
        std::copy(src.begin(), src.end(), a.m.begin() + d);
        auto d1 = bit_at<ItB>(a.v, d);
        auto ret = with_source(r.chance(30), a.v, f, f + s.len, [&](auto f1, auto l1) { if constexpr (MOVE) return bit::move(f1, l1, d1); else return bit::copy(f1, l1, d1); });
        check_ret(index_of<ItB>(a.v, ret), d + s.len);
        compare(a, d, d + s.len);
        if (overlap) count_class("cp:same-buffer-before");
        note(MOVE ? "mv" : "cp", s.len, f, d, 1 + mode + ((f - d) << 8), s.len == 0);
    }
}
static void op_copyb(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("copy_backward");
    Buf a, b;
    int mode = (int)r.below(3);
    if (mode == 0) {
        std::size_t f = place(r, a, s.pos, s.len), d = place(r, b, s.pos2, s.len);
        describe([&] { return fmt("copy_backward %s " ITN " separate buffers: [%zu,%zu) of %zu words -> ending at %zu of %zu words", wname<W>(), f, f + s.len, a.v.size(), d + s.len, b.v.size()); });
        std::copy(a.m.begin() + f, a.m.begin() + f + s.len, b.m.begin() + d);
        auto ret = with_source(r.chance(30), a.v, f, f + s.len, [&](auto f1, auto l1) { return bit::copy_backward(f1, l1, bit_at<ItB>(b.v, d + s.len)); });
        check_ret(index_of<ItB>(b.v, ret), d);
        compare(a, 0, 0); compare(b, d, d + s.len);
        note("cb", s.len, f, d, 0, s.len == 0);
    } else {
        bool overlap = mode == 1;
        auto pr = place_two(r, a, s.pos, s.len, s.pos2, overlap ? false : r.chance(50), overlap);
        std::size_t f = pr.first, d = pr.second;
        if (d + s.len > f && d < f) return;
        describe([&] { return fmt("copy_backward %s " ITN " same buffer of %zu words: [%zu,%zu) -> ending at %zu", wname<W>(), a.v.size(), f, f + s.len, d + s.len); });
        Bits src(a.m.begin() + f, a.m.begin() + f + s.len);
        std::copy(src.begin(), src.end(), a.m.begin() + d);
        auto ret = with_source(r.chance(30), a.v, f, f + s.len, [&](auto f1, auto l1) { return bit::copy_backward(f1, l1, bit_at<ItB>(a.v, d + s.len)); });
        check_ret(index_of<ItB>(a.v, ret), d);
        compare(a, d, d + s.len);
        if (overlap) count_class("cb:same-buffer-after");
        note("cb", s.len, f, d, 1 + mode + ((d - f) << 8), s.len == 0);
    }
}
static void op_fill(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("fill");
    Buf a; std::size_t f = place(r, a, s.pos, s.len);
    bool v = r.chance(50);
    describe([&] { return fmt("fill %s " ITN " [%zu,%zu) of %zu words with %d", wname<W>(), f, f + s.len, a.v.size(), v); });
    std::fill(a.m.begin() + f, a.m.begin() + f + s.len, v);
    bit::fill(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + s.len), v ? bit::bit1 : bit::bit0);
    compare(a, f, f + s.len);
    note("fi", s.len, f, 0, v, s.len == 0);
}
static void op_count(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("count");
    Buf a; std::size_t f = place(r, a, s.pos, s.len);
    bool v = r.chance(50);
    describe([&] { return fmt("count %s " ITN " [%zu,%zu) of %zu words, value %d", wname<W>(), f, f + s.len, a.v.size(), v); });
    auto want = std::count(a.m.begin() + f, a.m.begin() + f + s.len, (std::uint8_t)v);
    auto got = with_source(r.chance(30), a.v, f, f + s.len, [&](auto f1, auto l1) { return bit::count(f1, l1, v ? bit::bit1 : bit::bit0); });
    check_ret((std::ptrdiff_t)got, want);
    compare(a, 0, 0);
    note("co", s.len, f, 0, v + 2 * (u64)want, s.len == 0);
}
static void op_find(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("find");
    Buf a; std::size_t f = place(r, a, s.pos, s.len);
    bool v = r.chance(50);
    int how = (int)r.below(4);
    if (how != 0) {   // plant: no occurrence inside, occurrences outside; or one at a chosen place
        for (std::size_t i = f; i < f + s.len; ++i) a.m[i] = !v;
        if (how == 2 && s.len) a.m[f + r.below(s.len)] = v;
        if (how == 3 && s.len) { std::size_t k = s.len > 2 * D && r.chance(50) ? s.len - 1 - r.below(2 * D) : r.below(s.len); a.m[f + k] = v; for (std::size_t i = f + k + 1; i < f + s.len; ++i) a.m[i] = r.chance(50); }
        if (r.chance(60)) for (std::size_t i = 0; i < a.m.size(); ++i) if (i < f || i >= f + s.len) a.m[i] = v;
        for (std::size_t w = 0; w < a.v.size(); ++w) a.v[w] = pack_word<W>(a.m, w);
    }
    describe([&] { return fmt("find %s " ITN " [%zu,%zu) of %zu words, value %d, data %s", wname<W>(), f, f + s.len, a.v.size(), v, bits_str(a.m, f, f + s.len).c_str()); });
    auto want = std::find(a.m.begin() + f, a.m.begin() + f + s.len, (std::uint8_t)v) - a.m.begin();
    auto got = with_source(r.chance(30), a.v, f, f + s.len, [&](auto f1, auto l1) {
        auto g = bit::find(f1, l1, v ? bit::bit1 : bit::bit0);
        return g.position() >= D ? std::numeric_limits<std::ptrdiff_t>::min() : (g.base() - f1.base()) * (std::ptrdiff_t)D + (std::ptrdiff_t)(f / D * D + g.position()); });
    check_ret(got, want);
    compare(a, 0, 0);
    count_class((std::size_t)want == f + s.len ? "fd:absent" : "fd:present");
    note("fd", s.len, f, want, v + 2 * how, s.len == 0);
}
static void op_equal(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("equal");
    Buf a, b; std::size_t f = place(r, a, s.pos, s.len), d = place(r, b, s.pos2, s.len);
    bool same_buf = r.chance(20);
    int how = (int)r.below(4);
    if (same_buf) {
        bool before = r.chance(50), overlap = r.chance(50);   // in this order whatever the compiler
        auto pr = place_two(r, a, s.pos, s.len, s.pos2, before, overlap);
        f = pr.first; d = r.chance(15) ? f : pr.second;
        if (r.chance(40)) { a.v.assign(a.v.size(), r.chance(50) ? W(0) : static_cast<W>(~W(0))); a.sync(); }
    } else {
        if (how != 0) for (std::size_t i = 0; i < s.len; ++i) b.m[d + i] = a.m[f + i];
        if (how == 2 && s.len) b.m[d + r.below(s.len)] ^= 1;
        if (how == 3 && s.len) b.m[d + (r.chance(50) ? s.len - 1 : s.len > D ? s.len - 1 - r.below(D) : 0)] ^= 1;
        for (std::size_t w = 0; w < b.v.size(); ++w) b.v[w] = pack_word<W>(b.m, w);
        b.before = b.m;
    }
    Buf& t = same_buf ? a : b;
    describe([&] { return fmt("equal %s " ITN " %s [%zu,%zu) of %zu words vs %zu of %zu words", wname<W>(), same_buf ? "same buffer" : "separate buffers", f, f + s.len, a.v.size(), d, t.v.size()); });
    bool want = std::equal(a.m.begin() + f, a.m.begin() + f + s.len, t.m.begin() + d);
    const bool cd = r.chance(30);
    bool got = with_source(r.chance(30), a.v, f, f + s.len, [&](auto f1, auto l1) { return cd ? bit::equal(f1, l1, cbit_at(t.v, d)) : bit::equal(f1, l1, bit_at<ItB>(t.v, d)); });
    check_ret(got, want);
    compare(a, 0, 0); compare(b, 0, 0);
    count_class(want ? "eq:equal" : "eq:different");
    note("eq", s.len, f, d, how * 2 + same_buf, s.len == 0);
}
static void op_reverse(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("reverse");
    Buf a; std::size_t f = place(r, a, s.pos, s.len);
    describe([&] { return fmt("reverse %s " ITN " [%zu,%zu) of %zu words", wname<W>(), f, f + s.len, a.v.size()); });
    std::reverse(a.m.begin() + f, a.m.begin() + f + s.len);
    bit::reverse(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + s.len));
    compare(a, f, f + s.len);
    note("rv", s.len, f, 0, 0, s.len < 2);
}
static std::size_t pick_cut(Rng& r, std::size_t len) {
    if (!len) return 0;
    std::size_t k;
    switch (r.below(9)) {
        case 0: k = 0; break;
        case 1: k = len; break;
        case 2: k = r.below(2 * D + 2); break;
        case 3: { std::size_t x = r.below(2 * D + 2); k = x > len ? 0 : len - x; break; }
        case 4: k = len / 2; break;
        case 5: k = (len / D ? r.below(len / D + 1) : 0) * D; break;
        case 6: { std::size_t x = len / 2 + r.below(5); k = x < 2 ? 0 : x - 2; break; }
        case 7: k = len / r.in(2, 9); break;
        default: k = r.below(len + 1); break;
    }
    return std::min(k, len);
}
static void op_rotate(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("rotate");
    Buf a; std::size_t f = place(r, a, s.pos, s.len);
    std::size_t k = pick_cut(r, s.len);
    describe([&] { return fmt("rotate %s " ITN " first=%zu middle=%zu last=%zu of %zu words", wname<W>(), f, f + k, f + s.len, a.v.size()); });
    auto want = std::rotate(a.m.begin() + f, a.m.begin() + f + k, a.m.begin() + f + s.len) - a.m.begin();
    auto got = bit::rotate(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + k), bit_at<ItA>(a.v, f + s.len));
    check_ret(index_of<ItA>(a.v, got), want);
    compare(a, f, f + s.len);
    count_class(k == 0 || k == s.len ? "ro:identity" : k <= D ? "ro:short-head" : s.len - k <= D ? "ro:short-tail" : 2 * k == s.len ? "ro:half" : "ro:general");
    note("ro", s.len, f, f + k, k, s.len < 2 || k == 0 || k == s.len);
}
template <bool LEFT> static void op_shift(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K(LEFT ? "shift_left" : "shift_right");
    Buf a; std::size_t f = place(r, a, s.pos, s.len);
    std::ptrdiff_t n;
    switch (r.below(12)) {
        case 0: n = 0; break;
        case 1: n = -(std::ptrdiff_t)r.below(3 * D); break;
        case 2: n = (std::ptrdiff_t)(s.len + r.below(2 * D)); break;
        case 3: { static const std::ptrdiff_t big[] = {std::numeric_limits<std::ptrdiff_t>::max(), std::numeric_limits<std::ptrdiff_t>::min(), std::numeric_limits<std::ptrdiff_t>::max() / 8, (std::ptrdiff_t)1 << 31, -((std::ptrdiff_t)1 << 31), (std::ptrdiff_t)1 << 40};
            n = r.chance(25) ? big[r.below(6)] : (std::ptrdiff_t)D; break; }
        default: n = (std::ptrdiff_t)pick_cut(r, s.len); break;
    }
    describe([&] { return fmt("%s %s " ITN " [%zu,%zu) of %zu words by %td", LEFT ? "shift_left" : "shift_right", wname<W>(), f, f + s.len, a.v.size(), n); });
    std::ptrdiff_t len = (std::ptrdiff_t)s.len;
    std::size_t want, ulo = 0, uhi = 0;
    if (n <= 0) want = LEFT ? f + len : f;
    else if (n >= len) want = LEFT ? f : f + len;
    else if (LEFT) { std::move(a.m.begin() + f + n, a.m.begin() + f + len, a.m.begin() + f); want = f + len - n; ulo = want; uhi = f + len; }
    else { std::move_backward(a.m.begin() + f, a.m.begin() + f + len - n, a.m.begin() + f + len); want = f + n; ulo = f; uhi = want; }
    auto f1 = bit_at<ItA>(a.v, f), l1 = bit_at<ItA>(a.v, f + s.len);
    auto got = LEFT ? bit::shift_left(f1, l1, n) : bit::shift_right(f1, l1, n);
    check_ret(index_of<ItA>(a.v, got), (std::ptrdiff_t)want);
    compare(a, f, f + s.len, ulo, uhi);
    count_class(std::string(LEFT ? "sl:" : "sr:") + (n <= 0 ? "none" : n >= len ? "all" : n % (std::ptrdiff_t)D ? "bits" : "words"));
    note(LEFT ? "sl" : "sr", s.len, f, 0, (u64)n, n <= 0 || n >= len);
}
static void op_swap(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("swap_ranges");
    Buf a, b;
    if (r.chance(65)) {
        std::size_t f = place(r, a, s.pos, s.len), d = place(r, b, s.pos2, s.len);
        describe([&] { return fmt("swap_ranges %s " ITN " separate buffers: [%zu,%zu) of %zu words with %zu of %zu words", wname<W>(), f, f + s.len, a.v.size(), d, b.v.size()); });
        std::swap_ranges(a.m.begin() + f, a.m.begin() + f + s.len, b.m.begin() + d);
        if (r.chance(30)) {
            count_class("sw:two-iterator-types");
            auto ret = bit::swap_ranges(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + s.len), bit_at<ItS>(b.v, d));
            check_ret(index_of<ItS>(b.v, ret), d + s.len);
        } else {
            auto ret = bit::swap_ranges(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + s.len), bit_at<ItA>(b.v, d));
            check_ret(index_of<ItA>(b.v, ret), d + s.len);
        }
        compare(a, f, f + s.len); compare(b, d, d + s.len);
        note("sw", s.len, f, d, 0, s.len == 0);
    } else {
        std::size_t len = s.len;
        bool before = r.chance(50), overlap = r.chance(50);
        auto pr = place_two(r, a, s.pos, len, s.pos2, before, overlap);
        std::size_t f = pr.first, d = pr.second;
        // Make the ranges disjoint, and often adjacent (inside one word)
        std::size_t gap = f > d ? f - d : d - f;
        if (len > gap) len = gap;
        describe([&] { return fmt("swap_ranges %s " ITN " same buffer of %zu words: [%zu,%zu) with %zu", wname<W>(), a.v.size(), f, f + len, d); });
        std::swap_ranges(a.m.begin() + f, a.m.begin() + f + len, a.m.begin() + d);
        auto ret = bit::swap_ranges(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + len), bit_at<ItA>(a.v, d));
        check_ret(index_of<ItA>(a.v, ret), d + len);
        compare(a, 0, a.m.size());
        if (gap == len) count_class("sw:adjacent");
        note("sw", len, f, d, 1 + (gap << 4), len == 0);
    }
}
struct NotFn { template <class T> T operator()(T w) const { return static_cast<T>(~w); } };
template <class F> static void run_trans1(Rng& r, Shape s, F op, int (*bitop)(int), const char* nm) {
    Buf a, b;
    if (r.chance(35)) {
        std::size_t f = place(r, a, s.pos, s.len);
        describe([&] { return fmt("transform(%s) %s " ITN " in place [%zu,%zu) of %zu words", nm, wname<W>(), f, f + s.len, a.v.size()); });
        for (std::size_t i = f; i < f + s.len; ++i) a.m[i] = bitop(a.m[i]);
        auto ret = bit::transform(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + s.len), bit_at<ItA>(a.v, f), op);
        check_ret(index_of<ItA>(a.v, ret), f + s.len);
        compare(a, f, f + s.len);
        count_class(std::string("t1:in-place:") + nm);
        note("t1", s.len, f, f, (u64)nm[0], s.len == 0);
    } else {
        std::size_t f = place(r, a, s.pos, s.len), d = place(r, b, s.pos2, s.len);
        describe([&] { return fmt("transform(%s) %s " ITN " [%zu,%zu) of %zu words -> %zu of %zu words", nm, wname<W>(), f, f + s.len, a.v.size(), d, b.v.size()); });
        for (std::size_t i = 0; i < s.len; ++i) b.m[d + i] = bitop(a.m[f + i]);
        auto ret = bit::transform(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + s.len), bit_at<ItA>(b.v, d), op);
        check_ret(index_of<ItA>(b.v, ret), d + s.len);
        compare(a, 0, 0); compare(b, d, d + s.len);
        count_class(std::string("t1:") + nm);
        note("t1", s.len, f, d, (u64)nm[0] + 1000, s.len == 0);
    }
}
static void op_trans1(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("transform1");
    switch (r.below(6)) {
        case 0: run_trans1(r, s, [](W w) { return w; }, [](int x) { return x; }, "identity"); break;
        case 1: run_trans1(r, s, [](W) { return static_cast<W>(0); }, [](int) { return 0; }, "zeros"); break;
        case 2: run_trans1(r, s, NotFn(), [](int x) { return !x + 0; }, "not-functor"); break;
        default: run_trans1(r, s, std::bit_not<W>(), [](int x) { return !x + 0; }, "bit_not"); break;
    }
}
template <class F> static void run_trans2(Rng& r, Shape s, F op, int (*bitop)(int, int), const char* nm) {
    Buf a, b, c;
    std::size_t pos3 = pick_pos<W>(r);
    std::size_t f = place(r, a, s.pos, s.len);
    int alias2 = (int)r.below(4);   // 0: second input is the first input
    Buf& sb = alias2 == 0 ? a : b;
    std::size_t g = f;
    if (alias2) g = place(r, b, r.chance(40) ? s.pos : s.pos2, s.len);
    int dst = (int)r.below(4);      // 0: onto input 1; 1: onto input 2; else separate
    Buf& db = dst == 0 ? a : dst == 1 ? sb : c;
    std::size_t d = dst == 0 ? f : g;
    if (dst > 1) d = place(r, c, r.chance(40) ? s.pos : pos3, s.len);
    describe([&] { return fmt("transform2(%s) %s " ITN " [%zu,%zu) of %zu words with %zu of %zu words -> %zu of %zu words (alias2=%d dst=%d)", nm, wname<W>(), f, f + s.len, a.v.size(), g, sb.v.size(), d, db.v.size(), alias2, dst); });
    Bits out(s.len);
    for (std::size_t i = 0; i < s.len; ++i) out[i] = bitop(a.m[f + i], sb.m[g + i]);
    std::copy(out.begin(), out.end(), db.m.begin() + d);
    auto ret = bit::transform(bit_at<ItA>(a.v, f), bit_at<ItA>(a.v, f + s.len), bit_at<ItA>(sb.v, g), bit_at<ItA>(db.v, d), op);
    check_ret(index_of<ItA>(db.v, ret), d + s.len);
    compare(a, &db == &a ? d : 0, &db == &a ? d + s.len : 0);
    compare(b, &db == &b ? d : 0, &db == &b ? d + s.len : 0);
    compare(c, &db == &c ? d : 0, &db == &c ? d + s.len : 0);
    count_class(fmt("t2:%s:alias%d:dst%d", nm, alias2 == 0, dst > 1 ? 2 : dst));
    note("t2", s.len, f, g, (d % D) * 64 + (u64)nm[0] * 4096 + dst, s.len == 0);
}
static void op_trans2(Rng& r, u64 sub) {
    Shape s = pick_shape(r, sub);
    K("transform2");
    switch (r.below(5)) {
        case 0: run_trans2(r, s, std::bit_and<W>(), [](int x, int y) { return x & y; }, "and"); break;
        case 1: run_trans2(r, s, std::bit_or<W>(), [](int x, int y) { return x | y; }, "or"); break;
        case 2: run_trans2(r, s, std::bit_xor<W>(), [](int x, int y) { return x ^ y; }, "xor"); break;
        case 3: run_trans2(r, s, [](W x, W y) { return static_cast<W>(x & ~y); }, [](int x, int y) { return x & !y; }, "minus"); break;
        default: run_trans2(r, s, [](W x, W y) { return static_cast<W>(~(x | y)); }, [](int x, int y) { return !(x | y) + 0; }, "nor"); break;
    }
}

int main(int argc, char** argv) {
    using Fn = void (*)(Rng&, u64);
    std::vector<std::pair<int, Fn>> ops;
    if HAS(OP_COPY) ops.emplace_back(OP_COPY, [](Rng& r, u64 s) { op_copy<false>(r, s); });
    if HAS(OP_MOVE) ops.emplace_back(OP_MOVE, [](Rng& r, u64 s) { op_copy<true>(r, s); });
    if HAS(OP_COPYB) ops.emplace_back(OP_COPYB, op_copyb);
    if HAS(OP_FILL) ops.emplace_back(OP_FILL, op_fill);
    if HAS(OP_COUNT) ops.emplace_back(OP_COUNT, op_count);
    if HAS(OP_FIND) ops.emplace_back(OP_FIND, op_find);
    if HAS(OP_EQUAL) ops.emplace_back(OP_EQUAL, op_equal);
    if HAS(OP_REVERSE) ops.emplace_back(OP_REVERSE, op_reverse);
    if HAS(OP_ROTATE) ops.emplace_back(OP_ROTATE, op_rotate);
    if HAS(OP_SHL) ops.emplace_back(OP_SHL, op_shift<true>);
    if HAS(OP_SHR) ops.emplace_back(OP_SHR, op_shift<false>);
    if HAS(OP_SWAP) ops.emplace_back(OP_SWAP, op_swap);
    if HAS(OP_TRANS1) ops.emplace_back(OP_TRANS1, op_trans1);
    if HAS(OP_TRANS2) ops.emplace_back(OP_TRANS2, op_trans2);
    u64 n = ops.size();
    return run(argc, argv, 0xA16u, [&](Rng& r, u64 i) {
        RESULT_HASH = 0;
        ops[i % n].second(r, i / n);
        if (G().trace) fprintf(G().trace, "%llu %s %016llx\n", (unsigned long long)i, OPKEY.c_str(), (unsigned long long)RESULT_HASH);
    });
}
