// Monitor for the word-level primitives: each result is compared with its mathematical definition
// evaluated bit by bit on 128-bit integers; both the builtin-based and the portable version.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <tuple>
using namespace vh;
using W = WORD;
using U = unsigned __int128;
static constexpr unsigned D = digits_v<W>;
static constexpr U MASK = (U(1) << D) - 1;

static W rnd(Rng& r) {
    switch (r.below(12)) {
        case 0: return 0;
        case 1: return static_cast<W>(~W(0));
        case 2: return static_cast<W>(W(1) << r.below(D));
        case 3: return static_cast<W>(~(W(1) << r.below(D)));
        case 4: return static_cast<W>(MASK >> r.below(D));
        case 5: return static_cast<W>(MASK << r.below(D));
        case 6: return static_cast<W>(r.below(4));
        case 7: return static_cast<W>(MASK - r.below(4));
        case 8: return static_cast<W>(r.next() & r.next() & r.next());
        default: return static_cast<W>(r.next());
    }
}
static std::string hx(U v) { char b[64]; snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
static void eq(const char* name, U got, U want, const std::function<std::string()>& in) {
    ++G().checks;
    if (got != want) violation(std::string(name) + "/" + wname<W>() + ":result", fmt("%s(%s) gave %s, expected %s", name, in().c_str(), hx(got).c_str(), hx(want).c_str()));
}
static U low(unsigned n) { return n >= 128 ? ~U(0) : (U(1) << n) - 1; }
static const char* NM;
static void at(const char* n) { NM = n; std::string k = std::string(n) + "/" + wname<W>(); enter(k.c_str()); }

static void one(W a, W b, W c, unsigned s0, unsigned s1, unsigned len, unsigned cnt, bool cy) {
    (void)c; (void)s1;
    auto in1 = [&] { return hx(a); };
    auto in2 = [&] { return hx(a) + "," + hx(b) + fmt(",s0=%u,s1=%u,len=%u,cnt=%u,carry=%d,", s0, s1, len, cnt, cy) + hx(c); };
    unsigned pc = 0; for (unsigned i = 0; i < D; ++i) pc += (a >> i) & 1;
    unsigned lz = D; for (unsigned i = 0; i < D; ++i) if ((a >> i) & 1) lz = D - 1 - i;
    unsigned tz = D; for (unsigned i = D; i-- > 0;) if ((a >> i) & 1) tz = i;
    U rev = 0; for (unsigned i = 0; i < D; ++i) if ((a >> i) & 1) rev |= U(1) << (D - 1 - i);
    U brev = 0; for (unsigned i = 0; i < D / 8; ++i) brev |= U((a >> (8 * i)) & 0xff) << (8 * (D / 8 - 1 - i));
#ifndef NO_POPCNT
    at("popcnt"); eq("popcnt", bit::_popcnt<W>(a), pc, in1);
    at("popcnt-portable"); eq("popcnt-portable", bit::_popcnt(a, std::ignore), pc, in1);
#endif
#ifndef NO_LZCNT
    at("lzcnt"); eq("lzcnt", bit::_lzcnt<W>(a), lz, in1);
    at("lzcnt-portable"); eq("lzcnt-portable", bit::_lzcnt(a, std::ignore), lz, in1);
#endif
#ifndef NO_TZCNT
    at("tzcnt"); eq("tzcnt", bit::_tzcnt<W>(a), tz, in1);
    at("tzcnt-portable"); eq("tzcnt-portable", bit::_tzcnt(a, std::ignore), tz, in1);
#endif
#ifndef NO_BITSWAP
    at("bitswap"); eq("bitswap", bit::_bitswap<W>(a), rev, in1);
#endif
#ifndef NO_BYTESWAP
    at("byteswap"); eq("byteswap", bit::_byteswap<W>(a), brev, in1);
    at("byteswap-portable"); eq("byteswap-portable", bit::_byteswap(a, std::ignore), brev, in1);
#endif
    // Field extraction: start in [0,D], len in [0,D]
#ifndef NO_BEXTR
    U fx = ((U)a >> s0) & low(len) & MASK;
    at("bextr"); eq("bextr", bit::_bextr<W>(a, (W)s0, (W)len), fx, in2);
    at("bextr-portable"); eq("bextr-portable", bit::_bextr(a, (W)s0, (W)len, std::ignore), fx, in2);
#endif
    U pd = 0, px = 0; { unsigned k = 0; for (unsigned i = 0; i < D; ++i) if ((b >> i) & 1) { if ((a >> k) & 1) pd |= U(1) << i; if ((a >> i) & 1) px |= U(1) << k; ++k; } }
#ifndef NO_BITCMP
    { unsigned l = std::min(len, D - std::max(s0, s1)); bool differ = (((U)a >> s0) & low(l)) != (((U)b >> s1) & low(l));
      at("bitcmp"); eq("bitcmp", bit::_bitcmp<W>(a, b, (W)s0, (W)s1, (W)l) != 0, differ, in2);
      W same = (W)(((U)b & ~(low(l) << s1) & MASK) | ((((U)a >> s0) & low(l)) << s1)); eq("bitcmp", bit::_bitcmp<W>(a, same, (W)s0, (W)s1, (W)l), 0, in2); }
#endif
#ifndef NO_PDEP
    at("pdep"); eq("pdep", bit::_pdep<W>(a, b), pd, in2);
    at("pdep-portable"); eq("pdep-portable", bit::_pdep(a, b, std::ignore), pd, in2);
#endif
#ifndef NO_PEXT
    at("pext"); eq("pext", bit::_pext<W>(a, b), px, in2);
    at("pext-portable"); eq("pext-portable", bit::_pext(a, b, std::ignore), px, in2);
#endif
    if (s0 < D) {
#ifndef NO_BITBLEND
        U m = (low(len) << s0) & MASK;
        at("bitblend"); eq("bitblend", bit::_bitblend<W>(a, b, (W)s0, (W)len), ((U)a & ~m) | ((U)b & m), in2);
        at("bitblend-mask"); eq("bitblend-mask", bit::_bitblend<W>(a, b, c), ((U)a & ~(U)c & MASK) | ((U)b & c), in2);
#endif
#ifndef NO_BITEXCH
        { W x = a, y = b; at("bitexch-mask"); bit::_bitexch<W>(x, y, c);
          eq("bitexch-mask", x, ((U)a & ~(U)c & MASK) | ((U)b & c), in2); eq("bitexch-mask", y, ((U)b & ~(U)c & MASK) | ((U)a & c), in2); }
        unsigned l1 = std::min(len, D - s0);
        { U m1 = (low(l1) << s0) & MASK; W x = a, y = b; at("bitexch"); bit::_bitexch<W, std::size_t>(x, y, (std::size_t)s0, (std::size_t)l1);
          eq("bitexch", x, ((U)a & ~m1) | ((U)b & m1), in2); eq("bitexch", y, ((U)b & ~m1) | ((U)a & m1), in2); }
        if (s1 < D) {
            unsigned l2 = std::min(len, D - std::max(s0, s1));
            U fa = ((U)a >> s0) & low(l2), fb = ((U)b >> s1) & low(l2);
            U wx = ((U)a & ~(low(l2) << s0)) | (fb << s0), wy = ((U)b & ~(low(l2) << s1)) | (fa << s1);
            W x = a, y = b; at("bitexch2"); bit::_bitexch<W, std::size_t>(x, y, (std::size_t)s0, (std::size_t)s1, (std::size_t)l2);
            eq("bitexch2", x, wx & MASK, in2); eq("bitexch2", y, wy & MASK, in2);
        }
#endif
    }
    // Double precision shifts: cnt in [0, 2D]
#ifndef NO_SHLD
    { U v = ((U)0); if (cnt <= D) v = cnt == D ? (U)b : ((((U)a << D) | b) << cnt) >> D; else if (cnt < 2 * D) v = (U)b << (cnt - D);
      if (D == 64 && cnt < D) v = cnt ? ((U)a << cnt) | ((U)b >> (D - cnt)) : (U)a;
      at("shld"); eq("shld", bit::_shld<W>(a, b, (W)cnt), v & MASK, in2); }
#endif
#ifndef NO_SHRD
    { U v = 0; if (cnt == 0) v = a; else if (cnt < D) v = ((U)a >> cnt) | ((U)b << (D - cnt)); else if (cnt < 2 * D) v = (U)b >> (cnt - D);
      at("shrd"); eq("shrd", bit::_shrd<W>(a, b, (W)cnt), v & MASK, in2); }
#endif
#ifndef NO_ADDCARRY
    { U sum = (U)a + b + cy; W d = 0; at("addcarry"); unsigned char o = bit::_addcarry<unsigned char, W>(cy, a, b, &d);
      eq("addcarry", d, sum & MASK, in2); eq("addcarry", o != 0, (sum >> D) != 0, in2);
      at("addcarry-portable"); d = 0; o = bit::_addcarry((unsigned char)cy, a, b, &d, std::ignore);
      eq("addcarry-portable", d, sum & MASK, in2); eq("addcarry-portable", o != 0, (sum >> D) != 0, in2); }
#endif
#ifndef NO_SUBBORROW
    { U dif = (U)a - b - cy; W d = 0; at("subborrow-portable"); unsigned char o = bit::_subborrow((unsigned char)cy, a, b, &d, std::ignore);
      eq("subborrow-portable", d, dif & MASK, in2); eq("subborrow-portable", o != 0, (U)a < (U)b + cy, in2);
#ifndef NO_SUBBORROW_BUILTIN
      at("subborrow"); d = 0; o = bit::_subborrow<unsigned char, W>((unsigned char)cy, a, b, &d);
      eq("subborrow", d, dif & MASK, in2); eq("subborrow", o != 0, (U)a < (U)b + cy, in2);
#endif
    }
#endif
#ifndef NO_MULX
    { U p = (U)a * b; W hi = 0; at("mulx"); W lo = bit::_mulx<W>(a, b, &hi);
      eq("mulx", lo, p & MASK, in2); eq("mulx", hi, p >> D, in2);
      hi = 0; at("mulx-portable"); lo = bit::_mulx(a, b, &hi, std::ignore);
      eq("mulx-portable", lo, p & MASK, in2); eq("mulx-portable", hi, p >> D, in2); }
#endif
    nontrivial(mix((u64)a) ^ mix((u64)b * 3) ^ mix(s0 * 1000003ull + s1 * 10007 + len * 131 + cnt * 7 + cy));
}

int main(int argc, char** argv) {
    return run(argc, argv, 0x9717, [](Rng& r, u64 i) {
        if (D == 8 && i < 65536) {   // every pair of bytes, with every (start,len), count and carry met in turn
            unsigned k = (unsigned)i;
            describe([&] { return fmt("all primitives on bytes a=%02x b=%02x", k & 255, k >> 8); });
            unsigned f = (unsigned)(mix(i) % (9 * 9 * 9));
            one((W)(k & 255), (W)(k >> 8), (W)r.next(), f % 9, (f / 9) % 9, f / 81, (unsigned)r.below(2 * D + 1), r.chance(50));
            if ((k >> 8) == 0) for (unsigned s = 0; s <= D; ++s) for (unsigned l = 0; l <= D; ++l) for (unsigned t = 0; t < 2; ++t)
                one((W)k, (W)r.next(), (W)r.next(), s, (unsigned)r.below(D + 1), l, (unsigned)r.below(2 * D + 1), t);
            count_class("exhaustive-byte-pair");
            return;
        }
        W a = rnd(r), b = r.chance(10) ? a : r.chance(10) ? static_cast<W>(~a) : rnd(r), c = rnd(r);
        auto p = [&] { return (unsigned)(r.chance(30) ? (r.chance(50) ? 0 : D) : r.chance(20) ? D - 1 : r.below(D + 1)); };
        unsigned s0 = p(), s1 = p(), len = p(), cnt = r.chance(30) ? D * (unsigned)r.below(3) : (unsigned)r.below(2 * D + 1);
        bool cy = r.chance(50);
        describe([&] { return fmt("all primitives %s a=%s b=%s c=%s s0=%u s1=%u len=%u cnt=%u carry=%d", wname<W>(), hx(a).c_str(), hx(b).c_str(), hx(c).c_str(), s0, s1, len, cnt, cy); });
        one(a, b, c, s0, s1, len, cnt, cy);
        count_class(fmt("cnt%s", cnt == 0 ? "=0" : cnt < D ? "<D" : cnt == D ? "=D" : cnt < 2 * D ? ">D" : "=2D"));
        count_class(fmt("len%s/start%s", len == 0 ? "=0" : len == D ? "=D" : "", s0 == 0 ? "=0" : s0 == D ? "=D" : ""));
    });
}
