// Monitor for the word-sized building blocks of the range algorithms: reading and writing up to a word of bits at
// any bit position, bounded-distance tests, padded reads, whole-word shifts, advancing and measuring.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <memory>
using namespace vh;
using W = WORD;
static constexpr unsigned D = digits_v<W>;
static std::string key(const char* op) { return std::string(op) + "/" + wname<W>(); }
static void at(const char* op) { enter(key(op).c_str()); }
template <class T> static T rndw(Rng& r) { T v; fill_pattern(r, &v, 1); return v; }

// Exactly n words, so that any access next to them is seen.
struct Buf {
    std::unique_ptr<W[]> p; std::size_t n; Bits m;
    Buf(Rng& r, std::size_t k) : p(new W[k]), n(k) { fill_pattern(r, p.get(), n); unpack(p.get(), n, m); }
    void same(const char* op, const Bits& want, const std::string& what) {
        Bits g; unpack(p.get(), n, g); ++G().checks;
        if (g != want) violation(key(op) + ":result", what + " gave " + bits_str(g, 0, n * D) + ", expected " + bits_str(want, 0, n * D));
    }
};
static std::size_t need(unsigned pos, std::size_t len) { return (pos + len + D - 1) / D; }
using P = bit::bit_iterator<W*>;

template <class T> static void get(Rng& r) {
    const unsigned DT = digits_v<T>, mx = std::min(DT, D), pos = (unsigned)pick_pos<W>(r);
    const bool dflt = DT <= D && r.chance(25);
    const unsigned len = dflt ? DT : r.chance(30) ? mx : r.chance(40) ? std::min(mx, D - pos) : 1 + (unsigned)r.below(mx);
    Buf b(r, need(pos, len));
    describe([&] { return fmt("get_word of %u bits into a %u bit word at bit %u of %u bit words", len, DT, pos, D); });
    at("get_word");
    T g = dflt ? bit::get_word<T>(P(b.p.get(), pos)) : bit::get_word<T>(P(b.p.get(), pos), len);
    T want = 0; for (unsigned i = 0; i < len; ++i) want = static_cast<T>(want | (T(b.m[pos + i]) << i));
    T mask = len == DT ? static_cast<T>(~T(0)) : static_cast<T>((T(1) << len) - 1);
    check_f((g & mask) == want, key("get_word") + ":result", [&] { return fmt("get_word<%u bits>(position %u, len %u) gave %llx, expected %llx", DT, pos, len, (unsigned long long)(g & mask), (unsigned long long)want); });
    b.same("get_word", b.m, "get_word");
    nontrivial(1 * 1000003 + pos * 70001 + len * 257 + DT);
    count_class(fmt("get_word<%u>%s", DT, pos + len > D ? "/two words" : pos ? "" : "/aligned"));
}
template <class T> static void put(Rng& r) {
    const unsigned DT = digits_v<T>, pos = (unsigned)pick_pos<W>(r);
    const bool dflt = r.chance(25);
    const unsigned len = dflt ? DT : r.chance(30) ? DT : r.chance(40) ? std::min(DT, D - pos) : r.chance(10) ? 0 : 1 + (unsigned)r.below(DT);
    Buf b(r, std::max<std::size_t>(1, need(pos, len)));
    T src = rndw<T>(r);
    describe([&] { return fmt("write_word of %u bits of %llx (%u bits) at bit %u of %u bit words", len, (unsigned long long)src, DT, pos, D); });
    at("write_word");
    if (dflt) bit::write_word<T>(src, P(b.p.get(), pos)); else bit::write_word<T>(src, P(b.p.get(), pos), static_cast<T>(len));
    Bits want = b.m; for (unsigned i = 0; i < len; ++i) want[pos + i] = (src >> i) & 1;
    b.same("write_word", want, fmt("write_word<%u bits>(%llx, position %u, len %u)", DT, (unsigned long long)src, pos, len));
    nontrivial(2 * 1000003 + pos * 70001 + len * 257 + DT);
    count_class(fmt("write_word<%u>%s", DT, pos + len > 2 * D ? "/many words" : pos + len > D ? "/two words" : pos ? "" : "/aligned"));
}
template <int N> static void within1(const P& f, const P& l, long dist) {
    at("is_within");
    bool g = bit::is_within<N>(f, l);
    check_f(g == (dist <= N), key("is_within") + ":result", [&] { return fmt("is_within<%d>(position %u, %ld bits on) gave %d", N, (unsigned)f.position(), dist, (int)g); });
}
static void within(Rng& r) {
    const unsigned pos = (unsigned)pick_pos<W>(r);
    const long k = (long)r.below(5) * D, dist = std::max<long>(0, r.chance(60) ? k + (long)r.below(5) - 2 : (long)r.below(5 * D));
    std::vector<W> v(need(pos, dist) + 1);
    describe([&] { return fmt("is_within at bit %u, %ld bits, %u bit words", pos, dist, D); });
    P f(v.data(), pos), l(v.data() + (pos + dist) / D, (pos + dist) % D);
    const int n = D;
    (void)n;
    within1<1>(f, l, dist); within1<D / 2>(f, l, dist); within1<D - 1>(f, l, dist); within1<D>(f, l, dist); within1<D + 1>(f, l, dist);
    within1<2 * D - 1>(f, l, dist); within1<2 * D>(f, l, dist); within1<2 * D + 3>(f, l, dist); within1<4 * D>(f, l, dist);
    using V = bit::bit_iterator<typename std::vector<W>::iterator>;
    V vf(v.begin(), pos), vl(v.begin() + (pos + dist) / D, (pos + dist) % D);
    for (long b : {0L, dist - 1, dist, dist + 1, (long)r.below(6 * D)}) if (b >= 0) {
        at("is_within-bound");
        bool g = bit::is_within(vf, vl, b);
        check_f(g == (dist <= b), key("is_within-bound") + ":result", [&] { return fmt("is_within(position %u, %ld bits on, %ld) gave %d", pos, dist, b, (int)g); });
    }
    nontrivial(3 * 1000003 + pos * 70001 + dist);
    count_class("is_within");
}
static void moves(Rng& r) {
    const long total = (long)r.in(1, 6) * D, a = (long)r.below(total + 1), b = (long)r.below(total + 1);
    std::vector<W> v(total / D + 1);
    auto itp = [&](long i) { return P(v.data() + i / (long)D, i % D); };
    describe([&] { return fmt("advance, next and distance between bits %ld and %ld of %u bit words", a, b, D); });
    P x = itp(a), y = itp(b);
    at("next");
    check_f(bit::next(x, b - a) == y, key("next") + ":result", [&] { return fmt("next(bit %ld, %ld)", a, b - a); });
    if (a < total) check_f(bit::next(x) == itp(a + 1), key("next") + ":result", [&] { return fmt("next(bit %ld)", a); });
    at("advance");
    P z = x; bit::advance(z, b - a);
    check_f(z == y, key("advance") + ":result", [&] { return fmt("advance(bit %ld, %ld)", a, b - a); });
    if (a <= b) { at("distance"); check_f((long)bit::distance(x, y) == b - a, key("distance") + ":result", [&] { return fmt("distance(bit %ld, bit %ld)", a, b); }); }
    nontrivial(4 * 1000003 + a * 70001 + b);
    count_class(a <= b ? "advance/on" : "advance/back");
}
static void shifts(Rng& r) {
    std::size_t n = r.below(12); long k = (long)r.below(n + 4) - 1;
    std::unique_ptr<W[]> p(new W[n]); fill_pattern(r, p.get(), n);
    std::vector<W> o(p.get(), p.get() + n);
    W *f = p.get(), *l = f + n;
    const bool left = r.chance(50);
    describe([&] { return fmt("word_shift_%s of %zu words by %ld", left ? "left" : "right", n, k); });
    at(left ? "word_shift_left" : "word_shift_right");
    const std::string kk = key(left ? "word_shift_left" : "word_shift_right") + ":result";
    W* g = left ? bit::word_shift_left(f, l, k) : bit::word_shift_right(f, l, k);
    W* want = left ? (k <= 0 ? l : k >= (long)n ? f : l - k) : (k <= 0 ? f : k >= (long)n ? l : f + k);
    check_f(g == want, kk, [&] { return fmt("of %zu words by %ld returned word %ld", n, k, (long)(g - f)); });
    std::size_t s = k < 0 ? 0 : (std::size_t)k;
    for (std::size_t i = 0; s < n && i + s < n; ++i)
        check_f(left ? p[i] == o[i + s] : p[i + s] == o[i], kk, [&] { return fmt("of %zu words by %ld: wrong word %zu", n, k, i); });
    nontrivial(5 * 1000003 + n * 70001 + k * 2 + left);
    count_class("word_shift");
}
static void padded(Rng& r) {
#ifndef NO_PADDED_READ
    const unsigned pos = (unsigned)pick_pos<W>(r), end = r.chance(40) ? D + (unsigned)r.below(2 * D) : pos + 1 + (unsigned)r.below(D - pos);
    Buf b(r, 1);
    const bool one = r.chance(50);
    describe([&] { return fmt("_padded_read of bits %u to %u padded with %d", pos, end, one); });
    at("padded_read");
    // The range may reach beyond the word; only the word of its first bit may be read.
    std::unique_ptr<W[]> far(new W[4]); std::copy(b.p.get(), b.p.get() + 1, far.get());
    W g = bit::_padded_read(P(far.get(), pos), P(far.get() + end / D, end % D), one ? bit::bit1 : bit::bit0);
    W want = 0; for (unsigned i = 0; i < D; ++i) want = static_cast<W>(want | (W((i >= pos && i < end) ? b.m[i] : one) << i));
    check_f(g == want, key("padded_read") + ":result", [&] { return fmt("_padded_read of bits [%u,%u) of a word padded with %d gave %llx, expected %llx", pos, end, one, (unsigned long long)g, (unsigned long long)want); });
    nontrivial(6 * 1000003 + pos * 70001 + end * 2 + one);
    count_class("padded_read");
#else
    moves(r);
#endif
}
int main(int argc, char** argv) {
    return run(argc, argv, 0x30d5, [](Rng& r, u64 i) {
        switch (i % 14) {
            case 0: get<std::uint8_t>(r); break;
            case 1: get<std::uint16_t>(r); break;
            case 2: get<std::uint32_t>(r); break;
            case 3: get<std::uint64_t>(r); break;
            case 4: case 5: get<W>(r); break;
            case 6: put<std::uint8_t>(r); break;
            case 7: put<std::uint16_t>(r); break;
            case 8: put<std::uint32_t>(r); break;
            case 9: put<std::uint64_t>(r); break;
            case 10: within(r); break;
            case 11: moves(r); break;
            case 12: shifts(r); break;
            default: padded(r);
        }
    });
}
