// Monitor for the bit positions: iterators (MODE 1) and pointers (MODE 2) are mirrored on plain
// integer indices; MODE 3 runs std:: algorithms on bit iterators against the same algorithm on
// one-byte-per-bit data.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <array>
#include <deque>
#include <iterator>
#include <list>
#include <numeric>
#include <random>
#include <sys/mman.h>
#include <unistd.h>
using namespace vh;
using W = WORD;
static constexpr std::size_t D = digits_v<W>;
#ifndef MODE
#define MODE 1
#endif
static std::string KEY, DESC;
static void K(const char* op) { KEY = std::string(op) + "/" + wname<W>(); enter(KEY.c_str()); }
static void want(bool ok, const char* what) { ++G().checks; if (!ok) violation(KEY + ":result", std::string(what) + "; " + DESC); }
using sd = std::ptrdiff_t;
// More words than 2^32 bits, reserved but hardly ever touched: distances that need 64 bits
static constexpr std::size_t HUGE_WORDS = ((std::size_t(1) << 33) + 4096) / D;
static W* huge_words() {
    static W* p = [] { void* q = mmap(nullptr, HUGE_WORDS * sizeof(W), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) { perror("mmap"); _exit(97); } return static_cast<W*>(q); }();
    return p;
}
static void huge_done() { madvise(huge_words(), HUGE_WORDS * sizeof(W), MADV_DONTNEED); }

static sd pick_index(Rng& r, sd n) {          // in [0, n]
    switch (r.below(6)) { case 0: return 0; case 1: return n; case 2: return (sd)(r.below(n / D + 1) * D);
        case 3: { sd v = (sd)(r.below(n / D + 1) * D) + (sd)r.below(3) - 1; return v < 0 ? 0 : v > n ? n : v; } default: return (sd)r.below(n + 1); }
}

// ------------------------------------------------------------------------------------------ 1
#if MODE == 1
template <class I> using BI = bit::bit_iterator<I>;
template <class I> BI<I> at(I base, sd i) { return BI<I>(std::next(base, i / (sd)D), (std::size_t)(i % (sd)D)); }
// Random access laws on an arena of nw words that starts at `base`
template <class I, class C, class WP> static void laws(Rng& r, I base, C cbase, std::size_t nw, WP words, const char* nm) {
    const sd n = (sd)(nw * D);
    DESC = fmt("%s iterators over %zu words of %s", nm, nw, wname<W>());
    auto idx = [&](const BI<I>& i) -> sd { return i.position() >= D ? -1 : (sd)(i.base() - base) * (sd)D + (sd)i.position(); };
    auto it_is = [&](const BI<I>& i, sd k, const char* w) { want(idx(i) == k && i.mask() == static_cast<W>(W(1) << (k % (sd)D)), w); };
    auto ref_is = [&](auto ref, sd k, const char* w) { want(ref.address() == words(k / D) && ref.position() == (std::size_t)k % D && ref.mask() == static_cast<W>(W(1) << (k % D)), w); };
    sd a = pick_index(r, n); BI<I> x = at(base, a);
    DESC += fmt(", walk from %td", a);
    unsigned steps = (unsigned)r.in(4, 30);
    u64 shape = mix((u64)a * 31 + nw);
    for (unsigned s = 0; s < steps; ++s) {
        sd b = pick_index(r, n), d = b - a; BI<I> y = at(base, b);
        shape = mix(shape ^ (u64)b);
        K("iter-construct"); it_is(x, a, "constructing a bit iterator from a word position and an offset"); want(BI<I>(base) == at(base, 0), "constructing from a word iterator alone");
        K("iter-plus"); it_is(x + d, b, "i + n"); it_is(d + x, b, "n + i"); { BI<I> t = x; BI<I>& q = (t += d); it_is(t, b, "i += n"); want(&q == &t, "i += n must return i"); }
        K("iter-minus"); it_is(x - (-d), b, "i - n"); { BI<I> t = x; BI<I>& q = (t -= -d); it_is(t, b, "i -= n"); want(&q == &t, "i -= n must return i"); }
        K("iter-difference"); want(y - x == d && x - y == -d && x - x == 0, "difference of iterators"); if (d >= 0) want(bit::distance(x, y) == d, "distance of iterators"); want(std::distance(x, y) == d, "std::distance");
        K("iter-compare"); want((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison operators");
        { BI<C> cy = at(cbase, b); want((x == cy) == (a == b) && (cy != x) == (a != b) && (x < cy) == (a < b) && (x <= cy) == (a <= b) && (x > cy) == (a > b) && (cy >= x) == (b >= a), "comparison of iterators to mutable and constant words"); want(cy - x == d, "difference of iterators to constant and mutable words");
          BI<C> cx(x); want(cx == at(cbase, a) && cx.position() == x.position(), "conversion to an iterator to constant words"); }
        if (b < n) {
            K("iter-index"); ref_is(x[d], b, "i[n]"); ref_is(*y, b, "*i"); { auto p = y.operator->(); ref_is(*p, b, "operator->"); want(y->position() == (std::size_t)b % D, "i->"); }
            W* w = words(b / D); W old = *w; W m = static_cast<W>(W(1) << (b % D));
            want(static_cast<bool>(*y) == bool(old & m) && static_cast<bool>(x[d]) == bool(old & m), "reading through an iterator");
            switch (r.below(3)) { case 0: *y = bit::bit1; want(*w == static_cast<W>(old | m), "writing 1 through *i"); break;
                case 1: *y = bit::bit0; want(*w == static_cast<W>(old & ~m), "writing 0 through *i"); break; default: x[d].flip(); want(*w == static_cast<W>(old ^ m), "flipping through i[n]"); }
            K("iter-increment"); { BI<I> t = y; BI<I>& q = ++t; it_is(t, b + 1, "++i"); want(&q == &t, "++i must return i"); BI<I> u = y; BI<I> o = u++; it_is(o, b, "value of i++"); it_is(u, b + 1, "i++"); --t; it_is(t, b, "--(++i)"); }
        }
        if (b > 0) { K("iter-decrement"); BI<I> t = y; BI<I>& q = --t; it_is(t, b - 1, "--i"); want(&q == &t, "--i must return i"); BI<I> u = y; BI<I> o = u--; it_is(o, b, "value of i--"); it_is(u, b - 1, "i--"); ++t; it_is(t, b, "++(--i)"); }
        if (b > 0 && b < n) { K("iter-reverse"); std::reverse_iterator<BI<I>> rv(y); ref_is(*rv, b - 1, "reverse iterator"); }
        K("iter-walk"); { BI<I> t = x; sd k = a; sd st = std::min<sd>(d < 0 ? -d : d, 3 * (sd)D); for (sd j = 0; j < st; ++j) { if (d < 0) { --t; --k; } else { ++t; ++k; } } it_is(t, k, "stepping bit by bit"); }
        K("iter-assign"); { BI<I> t; t = y; want(t == y && !(t != y), "assignment"); BI<I> c(y); want(c == y, "copy");
          BI<C> q = at(cbase, a); BI<C>& z = (q = y); want(&z == &q && q == at(cbase, b) && q.position() == y.position(), "assigning an iterator to mutable words to one to constant words"); q = x; want(q == at(cbase, a) && y == t, "assigning again"); }
        count_class(std::string(nm) + (d == 0 ? ":0" : d > 0 ? (d % (sd)D ? ":forward" : ":forward-words") : (d % (sd)D ? ":backward" : ":backward-words")) + (a / (sd)D == b / (sd)D ? "/same-word" : ""));
        a = b; x = y;
    }
    describe([&] { return DESC + fmt(", %u positions", steps); });
    nontrivial(shape);
}
static void one(Rng& r, u64 i) {
    std::size_t nw = r.chance(20) ? r.in(20, 400) : r.in(1, 9);
    std::vector<W*> ptrs(nw + 1, nullptr);
    auto wp = [&](std::size_t k) { return ptrs[k]; };
    if (i % 32 == 29) { W* h = huge_words(); laws<W*, const W*>(r, h, h, HUGE_WORDS, [h](std::size_t k) { return h + k; }, "huge"); huge_done(); return; }
    switch (i % 4) {
        case 0: { std::vector<W> v(nw); fill_pattern(r, v.data(), nw); for (std::size_t k = 0; k < nw; ++k) ptrs[k] = &v[k];
                  laws<typename std::vector<W>::iterator, typename std::vector<W>::const_iterator>(r, v.begin(), v.cbegin(), nw, wp, "vector"); break; }
        case 1: { std::vector<W> v(nw); fill_pattern(r, v.data(), nw); for (std::size_t k = 0; k < nw; ++k) ptrs[k] = &v[k];
                  laws<W*, const W*>(r, v.data(), v.data(), nw, wp, "pointer"); break; }
        case 2: { std::deque<W> v(nw); for (auto& w : v) w = static_cast<W>(r.next()); for (std::size_t k = 0; k < nw; ++k) ptrs[k] = &v[k];
                  laws<typename std::deque<W>::iterator, typename std::deque<W>::const_iterator>(r, v.begin(), v.cbegin(), nw, wp, "deque"); break; }
        default: { // bidirectional words: stepping, equality and reading only
                  std::list<W> v; for (std::size_t k = 0; k < nw; ++k) v.push_back(static_cast<W>(r.next()));
                  using LI = typename std::list<W>::iterator; BI<LI> x(v.begin()), e(v.end()); sd n = (sd)(nw * D), k = 0;
                  DESC = fmt("list iterators over %zu words of %s", nw, wname<W>()); K("iter-list");
                  std::vector<W> flat(v.begin(), v.end());
                  for (; x != e && k <= n; ++x, ++k) want(static_cast<bool>(*x) == word_bit(flat.data(), k), "reading words of a list");
                  want(k == n && x == e, "walking the words of a list");
                  for (; k > 0; --k) { --x; want(static_cast<bool>(*x) == word_bit(flat.data(), k - 1), "walking the words of a list backwards"); }
                  want(x == BI<LI>(v.begin()), "walking back to the start");
                  describe([&] { return DESC; }); count_class("list"); nontrivial(mix(nw) ^ flat[0]); } }
}
#endif

// ------------------------------------------------------------------------------------------ 2
#if MODE == 2
using P = bit::bit_pointer<W>; using CP = bit::bit_pointer<const W>;
static void one(Rng& r, u64 i) {
    const bool huge = i % 32 == 29;
    std::size_t nw = huge ? HUGE_WORDS : r.chance(20) ? r.in(20, 400) : r.in(1, 9); const sd n = (sd)(nw * D);
    std::vector<W> v(huge ? 0 : nw); fill_pattern(r, v.data(), v.size()); W* base = huge ? huge_words() : v.data();
    sd a = pick_index(r, n); unsigned steps = (unsigned)r.in(4, 30);
    DESC = fmt("bit pointers into %zu words of %s, walk from %td", nw, wname<W>(), a);
    auto at = [&](sd i) { return P(base + i / (sd)D, (std::size_t)(i % (sd)D)); };
    auto is = [&](P p, sd k, const char* w) { auto ref = *p; want(ref.address() == base + k / (sd)D && ref.position() == (std::size_t)(k % (sd)D) && ref.mask() == static_cast<W>(W(1) << (k % (sd)D)), w); };
    P x = at(a); u64 shape = mix((u64)a * 31 + nw);
    { K("ptr-null"); P z; P y(nullptr); P q = at(a); q = nullptr; want(!z && !y && !q && z == y && q == y && !(z != q), "null bit pointers"); want(bool(x), "a bit pointer to a bit is not null"); want(P(base) == at(0), "a bit pointer to the first bit of a word"); }
    for (unsigned s = 0; s < steps; ++s) {
        sd b = pick_index(r, n), d = b - a; P y = at(b); shape = mix(shape ^ (u64)b);
        K("ptr-plus"); is(x + d, b, "p + n"); is(d + x, b, "n + p"); { P t = x; P& q = (t += d); is(t, b, "p += n"); want(std::addressof(q) == std::addressof(t), "p += n must return p"); }
        K("ptr-minus"); is(x - (-d), b, "p - n"); { P t = x; t -= -d; is(t, b, "p -= n"); }
        K("ptr-difference"); want(y - x == d && x - y == -d && x - x == 0, "difference of bit pointers");
        K("ptr-compare"); want((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison of bit pointers");
        { CP c(y); want((*c).address() == base + b / (sd)D && (*c).position() == (std::size_t)(b % (sd)D), "conversion to a bit pointer to constant words");
          want((x == c) == (a == b) && (c != x) == (a != b) && (x < c) == (a < b) && (x <= c) == (a <= b) && (x > c) == (a > b) && (c >= x) == (b >= a) && c - x == d && x - c == -d, "bit pointers to mutable and constant words together"); }
        if (b < n) {
            K("ptr-access"); is(y, b, "*p"); { auto ref = x[d]; want(ref.address() == base + b / (sd)D && ref.position() == (std::size_t)(b % (sd)D), "p[n]"); }
            W& w = base[b / D]; W old = w, m = static_cast<W>(W(1) << (b % D)); want(bool(*y) == bool(old & m), "reading through a bit pointer");
            switch (r.below(4)) { case 0: *y = bit::bit1; want(w == static_cast<W>(old | m), "writing 1"); break; case 1: *y = bit::bit0; want(w == static_cast<W>(old & ~m), "writing 0"); break;
                case 2: y->flip(); want(w == static_cast<W>(old ^ m), "p->flip()"); break; default: x[d].flip(); want(w == static_cast<W>(old ^ m), "p[n].flip()"); }
            is(y, b, "writing through a pointer must not move it");
            bit::bit_reference<W> ref = *y; want(&ref == y, "the address of a referenced bit");
            K("ptr-increment"); { P t = y; P& q = ++t; is(t, b + 1, "++p"); want(std::addressof(q) == std::addressof(t), "++p must return p"); P u = y; P o = u++; is(o, b, "value of p++"); is(u, b + 1, "p++"); --t; is(t, b, "--(++p)"); }
        }
        if (b > 0) { K("ptr-decrement"); P t = y; --t; is(t, b - 1, "--p"); P u = y; P o = u--; is(o, b, "value of p--"); is(u, b - 1, "p--"); ++t; is(t, b, "++(--p)"); }
        K("ptr-assign"); { P t; t = y; want(t == y, "assignment"); P c(y); want(c == y, "copy"); t = x; want(t == x && c == y, "assigning a pointer must not write the bit");
          CP e(y); CP& q = (e = x); want(std::addressof(q) == std::addressof(e) && e == x && (*e).address() == base + a / (sd)D && (*e).position() == (std::size_t)(a % (sd)D), "assigning a pointer to mutable words to one to constant words"); e = nullptr; want(!e && bool(x), "assigning null"); }
        K("ptr-walk"); { P t = x; sd k = a; sd st = std::min<sd>(d < 0 ? -d : d, 3 * (sd)D); for (sd j = 0; j < st; ++j) { if (d < 0) { --t; --k; } else { ++t; ++k; } } is(t, k, "stepping bit by bit"); }
        count_class(d == 0 ? "0" : d > 0 ? (d % (sd)D ? "forward" : "forward-words") : (d % (sd)D ? "backward" : "backward-words"));
        a = b; x = y;
    }
    if (huge) huge_done();
    describe([&] { return DESC + fmt(", %u positions", steps); });
    nontrivial(shape);
}
#endif

// ------------------------------------------------------------------------------------------ 3
#if MODE == 3
struct Arena { std::vector<W> v; Bits m; };
using I = typename std::vector<W>::iterator; using B = bit::bit_iterator<I>;
static void one(Rng& r, u64 i) {
    auto mk = [&](std::size_t len, std::size_t& f) { Arena a; f = r.below(2 * D); a.v.resize((f + len + D - 1) / D + r.below(2)); fill_pattern(r, a.v.data(), a.v.size()); unpack(a.v.data(), a.v.size(), a.m); return a; };
    std::size_t len = r.chance(30) ? r.below(20 * D) : r.below(3 * D + 2), f, g, h;
    Arena a = mk(len, f), b = mk(len, g), c = mk(2 * len, h);
    auto it = [&](Arena& x, std::size_t k) { return B(x.v.begin() + k / D, k % D); };
    auto idx = [&](Arena& x, const B& k) { return (sd)((k.base() - x.v.begin()) * (sd)D + (sd)k.position()); };
    auto same = [&](Arena& x, const char* nm) { Bits got; unpack(x.v.data(), x.v.size(), got); ++G().checks; if (got != x.m) violation(KEY + ":result", fmt("%s: contents differ; %s", nm, DESC.c_str())); };
    auto F = it(a, f), L = it(a, f + len), F2 = it(b, g), L2 = it(b, g + len), O = it(c, h);
    auto MF = a.m.begin() + f, ML = MF + len, MF2 = b.m.begin() + g, ML2 = MF2 + len, MO = c.m.begin() + h;
    bool val = r.chance(50); bit::bit_value V = val ? bit::bit1 : bit::bit0; u64 sd2 = r.next();
    std::size_t k = len ? r.below(len + 1) : 0;
    const std::size_t NOPS = 36; const std::size_t op = i % NOPS;
    DESC = fmt("std algorithm %zu on %zu bits of %s at offset %zu", op, len, wname<W>(), f);
    auto pred = [](auto x) { return static_cast<bool>(x); };
    auto less = [](auto x, auto y) { return static_cast<bool>(x) < static_cast<bool>(y); };
    auto ret = [&](sd got, sd exp) { want(got == exp, "returned position or value"); };
    switch (op) {
        case 0: K("std-find"); ret(idx(a, std::find(F, L, V)), std::find(MF, ML, (std::uint8_t)val) - a.m.begin()); break;
        case 1: K("std-count"); ret(std::count(F, L, V), std::count(MF, ML, (std::uint8_t)val)); break;
        case 2: K("std-copy"); ret(idx(c, std::copy(F, L, O)), std::copy(MF, ML, MO) - c.m.begin()); break;
        case 3: K("std-copy_backward"); ret(idx(b, std::copy_backward(F, L, L2)), std::copy_backward(MF, ML, ML2) - b.m.begin()); break;
        case 4: K("std-fill"); std::fill(F, L, V); std::fill(MF, ML, val); break;
        case 5: K("std-reverse"); std::reverse(F, L); std::reverse(MF, ML); break;
        case 6: K("std-rotate"); ret(idx(a, std::rotate(F, F + k, L)), std::rotate(MF, MF + k, ML) - a.m.begin()); break;
        case 7: K("std-swap_ranges"); ret(idx(b, std::swap_ranges(F, L, F2)), std::swap_ranges(MF, ML, MF2) - b.m.begin()); break;
        case 8: K("std-equal"); ret(std::equal(F, L, F2), std::equal(MF, ML, MF2)); break;
        case 9: K("std-sort"); std::sort(F, L, less); std::sort(MF, ML); break;
        case 10: K("std-partition"); { auto p = std::partition(F, L, pred); std::partition(MF, ML, [](int x) { return x; }); ret(idx(a, p) - (sd)f, std::count(MF, ML, 1)); } break;
        case 11: K("std-stable_partition"); { auto p = std::stable_partition(F, L, pred); std::stable_partition(MF, ML, [](int x) { return x; }); ret(idx(a, p) - (sd)f, std::count(MF, ML, 1)); } break;
        case 12: K("std-unique"); { auto p = std::unique(F, L); auto q = std::unique(MF, ML); ret(idx(a, p), q - a.m.begin()); for (sd x = idx(a, p); x < (sd)(f + len); ++x) a.m[x] = word_bit(a.v.data(), x); } break;
        case 13: K("std-remove"); { auto p = std::remove(F, L, V); auto q = std::remove(MF, ML, (std::uint8_t)val); ret(idx(a, p), q - a.m.begin()); for (sd x = idx(a, p); x < (sd)(f + len); ++x) a.m[x] = word_bit(a.v.data(), x); } break;
        case 14: K("std-accumulate"); ret(std::accumulate(F, L, 0, [](int s, auto x) { return s * 3 % 1000003 + static_cast<bool>(x); }), std::accumulate(MF, ML, 0, [](int s, int x) { return s * 3 % 1000003 + x; })); break;
        case 15: K("std-generate"); { Rng q(sd2), q2(sd2); std::generate(F, L, [&] { return q.chance(50) ? bit::bit1 : bit::bit0; }); std::generate(MF, ML, [&] { return q2.chance(50) ? 1 : 0; }); } break;
        case 16: K("std-shuffle"); { std::minstd_rand e1(sd2 % 1000 + 1); std::shuffle(F, L, e1); Bits got; unpack(a.v.data(), a.v.size(), got); ret(std::count(got.begin() + f, got.begin() + f + len, 1), std::count(MF, ML, 1)); std::copy(got.begin() + f, got.begin() + f + len, MF); } break;
        case 17: K("std-transform"); ret(idx(c, std::transform(F, L, O, [](auto x) { return static_cast<bool>(x) ? bit::bit0 : bit::bit1; })), std::transform(MF, ML, MO, [](int x) { return !x; }) - c.m.begin()); break;
        case 18: K("std-transform2"); ret(idx(c, std::transform(F, L, F2, O, [](auto x, auto y) { return bit::bit_value(x) ^ bit::bit_value(y); })), std::transform(MF, ML, MF2, MO, [](int x, int y) { return x ^ y; }) - c.m.begin()); break;
        case 19: K("std-mismatch"); { auto p = std::mismatch(F, L, F2); auto q = std::mismatch(MF, ML, MF2); ret(idx(a, p.first), q.first - a.m.begin()); ret(idx(b, p.second), q.second - b.m.begin()); } break;
        case 20: K("std-lexicographical"); ret(std::lexicographical_compare(F, L, F2, L2, less), std::lexicographical_compare(MF, ML, MF2, ML2)); break;
        case 21: K("std-search"); { auto s = std::min<std::size_t>(k, 5); ret(idx(a, std::search(F, L, F2, F2 + s)), std::search(MF, ML, MF2, MF2 + s) - a.m.begin()); } break;
        case 22: K("std-adjacent_find"); ret(idx(a, std::adjacent_find(F, L)), std::adjacent_find(MF, ML) - a.m.begin()); break;
        case 23: K("std-max_element"); ret(idx(a, std::max_element(F, L, less)), std::max_element(MF, ML) - a.m.begin()); break;
        case 24: K("std-merge"); std::sort(F, L, less); std::sort(F2, L2, less); std::sort(MF, ML); std::sort(MF2, ML2); same(a, "sort"); ret(idx(c, std::merge(F, L, F2, L2, O, less)), std::merge(MF, ML, MF2, ML2, MO) - c.m.begin()); break;
        case 25: K("std-inplace_merge"); std::sort(F, F + k, less); std::sort(F + k, L, less); std::sort(MF, MF + k); std::sort(MF + k, ML); std::inplace_merge(F, F + k, L, less); std::inplace_merge(MF, MF + k, ML); break;
        case 26: K("std-next_permutation"); ret(std::next_permutation(F, L, less), std::next_permutation(MF, ML)); break;
        case 27: K("std-nth_element"); if (k < len) { std::nth_element(F, F + k, L, less); Bits got; unpack(a.v.data(), a.v.size(), got); std::sort(MF, ML); ret(got[f + k], a.m[f + k]); bool okp = true; for (std::size_t x = 0; x < len; ++x) if (x < k ? got[f + x] > got[f + k] : got[f + x] < got[f + k]) okp = false; want(okp, "nth_element must partition"); ret(std::count(got.begin() + f, got.begin() + f + len, 1), std::count(MF, ML, 1)); std::copy(got.begin() + f, got.begin() + f + len, MF); } break;
        case 28: K("std-heap"); std::make_heap(F, L, less); std::make_heap(MF, ML); same(a, "make_heap"); std::sort_heap(F, L, less); std::sort_heap(MF, ML); break;
        case 29: K("std-stable_sort"); std::stable_sort(F, L, less); std::stable_sort(MF, ML); break;
        case 30: K("std-lower_bound"); std::sort(F, L, less); std::sort(MF, ML); ret(idx(a, std::lower_bound(F, L, V, less)), std::lower_bound(MF, ML, (std::uint8_t)val) - a.m.begin()); break;
        case 31: K("std-replace"); std::replace_if(F, L, pred, bit::bit0); std::fill(MF, ML, 0); break;
        case 32: K("std-reverse_copy"); ret(idx(c, std::reverse_copy(F, L, O)), std::reverse_copy(MF, ML, MO) - c.m.begin()); break;
        case 33: K("std-all_of"); ret(std::all_of(F, L, pred) * 4 + std::any_of(F, L, pred) * 2 + std::none_of(F, L, pred), std::all_of(MF, ML, pred) * 4 + std::any_of(MF, ML, pred) * 2 + std::none_of(MF, ML, pred)); break;
        case 34: K("std-reverse_iterator"); ret(idx(c, std::copy(std::make_reverse_iterator(L), std::make_reverse_iterator(F), O)), std::copy(std::make_reverse_iterator(ML), std::make_reverse_iterator(MF), MO) - c.m.begin()); break;
        default: K("std-to-bools"); { std::vector<bool> t; for (auto x = F; x != L; ++x) t.push_back(static_cast<bool>(*x)); ret(std::equal(t.begin(), t.end(), MF, [](bool p, int q) { return p == (bool)q; }), 1);
                 std::copy(MF2, ML2, t.begin()); std::transform(t.begin(), t.end(), F, [](bool p) { return bit::bit_value(p); }); std::copy(MF2, ML2, MF); } break;
    }
    same(a, "first range"); same(b, "second range"); same(c, "output range");
    describe([&] { return DESC + " (" + KEY + ")"; });
    count_class(KEY.substr(0, KEY.find('/')));
    if (len) nontrivial(mix(op * 100003 + len * 131 + f) ^ mix(k));
}
#endif
int main(int argc, char** argv) { return run(argc, argv, 0x17e0 + MODE, [](Rng& r, u64 i) { one(r, i); }); }
