// Monitor for bit_vector: random operation histories mirrored on a plain sequence of bits,
// compared completely after every operation. MODE selects the workload.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <array>
#include <cstddef>
#include <deque>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
using namespace vh;
using W = WORD;
static constexpr std::size_t D = digits_v<W>;
using BV = bit::bit_vector<W>;
#define M_HIST 1
#define M_GROW 2
#define M_CTOR 3
#define M_VALUE 4
#define M_CAP 5
#define M_ACCESS 6
#define M_OOM 7
#ifndef MODE
#define MODE M_HIST
#endif

// ---- allocation monitor -------------------------------------------------------------------
static u64 g_allocs, g_live, g_bytes;      // counted only while g_on
static bool g_on = false;
static long g_fail_at = -1;                // fail the k-th allocation from now (0-based)
static u64 g_failures;
static long long g_total;                  // blocks allocated by anyone, always counted
#if MODE == M_CAP || MODE == M_OOM
void* operator new(std::size_t n) {
    if (n >> 40) throw std::bad_alloc();   // more than there is, also under sanitizers, which would stop the process
    if (g_on) {
        if (g_fail_at == 0) { g_fail_at = -2; ++g_failures; throw std::bad_alloc(); }
        if (g_fail_at > 0) --g_fail_at;
        ++g_allocs; ++g_live; g_bytes += n;
    }
    ++g_total;
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { if (p && g_on) --g_live; if (p) --g_total; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { ::operator delete(p); }
#endif
struct Watch { Watch() { g_on = true; g_allocs = g_bytes = 0; } ~Watch() { g_on = false; g_fail_at = -1; } };

static std::string KEY;
static void K(const char* op) { KEY = std::string(op) + "/" + wname<W>(); enter(KEY.c_str()); }
static std::string hist;    // operations of the current case
static void log(const std::string& s) { if (hist.size() < 1500) hist += s + "; "; if (G().verbose) { fprintf(stderr, "  %s\n", s.c_str()); fflush(stderr); } }

// Blocks that the monitor's own strings hold are not the library's.
static long long held() { return g_total - (KEY.capacity() > 15) - (hist.capacity() > 15); }
[[maybe_unused]] static void no_leak(long long before, std::size_t viol, const char* what) {
    ++G().checks;
    if (held() != before && G().violations.size() == viol) violation(KEY + ":leak", fmt("%lld blocks still allocated after %s; history: %s", held() - before, what, hist.c_str()));
}

static bit::bit_value bvv(bool b) { return b ? bit::bit1 : bit::bit0; }
static bool rd(bit::bit_reference<W> r) { return static_cast<bool>(r); }

// Complete comparison of a vector with its model, through every read path.
static bool same(BV& v, const Bits& m, const char* what) {
    ++G().checks;
    if (v.size() != m.size()) { violation(KEY + ":size", fmt("%s: size() is %zu, expected %zu; history: %s", what, v.size(), m.size(), hist.c_str())); return false; }
    if (v.empty() != m.empty()) { violation(KEY + ":empty", fmt("%s: empty() is wrong at size %zu; history: %s", what, m.size(), hist.c_str())); return false; }
    if (v.capacity() < v.size()) { violation(KEY + ":capacity", fmt("%s: capacity() %zu < size() %zu; history: %s", what, v.capacity(), v.size(), hist.c_str())); return false; }
    if (v.end() - v.begin() != (std::ptrdiff_t)m.size()) { violation(KEY + ":end", fmt("%s: end()-begin() is %td, expected %zu; history: %s", what, (std::ptrdiff_t)(v.end() - v.begin()), m.size(), hist.c_str())); return false; }
    const W* p = v.data();
    if (m.empty()) {
        const BV& c = v;
        if (v.begin() != v.end() || c.cbegin() != c.cend() || c.begin() != c.end() || c.data() != p) { violation(KEY + ":empty", fmt("%s: an empty vector has elements; history: %s", what, hist.c_str())); return false; }
        return true;
    }
    auto it = v.begin();
    for (std::size_t i = 0; i < m.size(); ++i, ++it) {
        bool viadata = word_bit(p, i), viaidx = rd(v[i]), viait = static_cast<bool>(*it);
        if (viadata != (bool)m[i] || viaidx != (bool)m[i] || viait != (bool)m[i]) {
            violation(KEY + ":contents", fmt("%s: bit %zu of %zu is data:%d index:%d iterator:%d, expected %d; history: %s", what, i, m.size(), viadata, viaidx, viait, m[i], hist.c_str()));
            return false;
        }
    }
    // and as a constant vector
    const BV& c = v;
    auto ci = c.begin(); const auto ce = c.cend();
    if (ce - c.cbegin() != (std::ptrdiff_t)m.size() || c.end() - ci != (std::ptrdiff_t)m.size() || c.data() != p || !(c.cbegin() == v.begin())) { violation(KEY + ":const", fmt("%s: the vector and itself as a constant disagree on begin, end or data; history: %s", what, hist.c_str())); return false; }
    for (std::size_t i = 0; i < m.size(); ++i, ++ci) {
        bool viaidx = static_cast<bool>(c[i]), viait = static_cast<bool>(*ci);
        if (viaidx != (bool)m[i] || viait != (bool)m[i]) { violation(KEY + ":const", fmt("%s: bit %zu of %zu of the constant vector is index:%d iterator:%d, expected %d; history: %s", what, i, m.size(), viaidx, viait, m[i], hist.c_str())); return false; }
    }
    if (ci != ce || static_cast<bool>(c.front()) != (bool)m[0] || static_cast<bool>(c.back()) != (bool)m.back()) { violation(KEY + ":const", fmt("%s: end, front or back of the constant vector is wrong; history: %s", what, hist.c_str())); return false; }
    if (it != v.end()) { violation(KEY + ":end", fmt("%s: iterating size() steps does not reach end(); history: %s", what, hist.c_str())); return false; }
    return true;
}
static std::ptrdiff_t ix(BV& v, typename BV::iterator i) { return i.position() >= D ? -1 : (i.base() - v.begin().base()) * (std::ptrdiff_t)D + (std::ptrdiff_t)i.position(); }
static void ret_at(BV& v, typename BV::iterator i, std::size_t want, const char* what) {
    ++G().checks;
    std::ptrdiff_t g = ix(v, i);
    if (g != (std::ptrdiff_t)want) violation(KEY + ":return", fmt("%s returned an iterator to bit %td, expected %zu; history: %s", what, g, want, hist.c_str()));
}
// Rarely a case works with sizes around those that 8 and 16 bit integers can count.
static int g_big;
static std::size_t big_n(Rng& r) {
    static const std::size_t around[] = {256, 512, 32768, 65536, 65536, 65536, 131072};
    std::size_t c = around[g_big == 1 ? r.below(2) : 2 + r.below(5)];
    return r.chance(60) ? c + r.below(7) - 3 : c + r.below(c / 2);
}
static void begin_case(u64 i) { hist.clear(); g_big = i % 151 == 77 ? 2 : i % 37 == 11 ? 1 : 0; }
static std::size_t pick_n(Rng& r, std::size_t big = 40) {
    if (g_big && r.chance(30)) return big_n(r);
    switch (r.below(8)) {
        case 0: return r.below(4);
        case 1: return r.in(1, 4) * D;
        case 2: { std::size_t k = r.in(1, 4) * D; return k + r.below(3) - 1; }
        case 3: return r.below(big * D);
        case 4: return D * r.below(big);
        default: return r.below(3 * D);
    }
}
static Bits rnd_bits(Rng& r, std::size_t n) {
    std::vector<W> t(n / D + 1); fill_pattern(r, t.data(), t.size());
    Bits b; unpack(t.data(), t.size(), b); b.resize(n); return b;
}
// Builds a vector holding `b` by one of several independent routes.
static BV make(Rng& r, const Bits& b, int how = -1) {
    if (how < 0) how = (int)r.below(6);
    switch (how) {
        case 0: { BV v; for (auto x : b) v.push_back(bvv(x)); return v; }
        case 1: { std::string s; for (auto x : b) s += x ? '1' : '0'; return BV(std::string_view(s)); }
        case 2: { std::vector<bool> s(b.begin(), b.end()); return BV(s.begin(), s.end()); }
        case 3: { std::size_t off = r.below(D); std::vector<W> t((b.size() + off) / D + 1); fill_pattern(r, t.data(), t.size());
                  for (std::size_t i = 0; i < b.size(); ++i) { std::size_t k = i + off; t[k / D] = static_cast<W>((t[k / D] & ~(W(1) << (k % D))) | (W(b[i]) << (k % D))); }
                  using I = typename std::vector<W>::iterator;
                  return BV(bit::bit_iterator<I>(t.begin(), off), bit::bit_iterator<I>(t.begin() + (off + b.size()) / D, (off + b.size()) % D)); }
        case 4: { BV v(b.size()); for (std::size_t i = 0; i < b.size(); ++i) v[i] = bvv(b[i]); return v; }
        default: { BV v(b.size(), bit::bit1); for (std::size_t i = 0; i < b.size(); ++i) if (!b[i]) v[i] = bit::bit0; return v; }
    }
}

// One random modifying operation applied to both.
static bool step(Rng& r, BV& v, Bits& m) {
    const std::size_t n = m.size();
    switch (r.below(22)) {
        case 0: case 1: case 2: { std::size_t k = r.chance(70) ? 1 : r.below(2 * D); log(fmt("push_back x%zu", k)); K("push_back");
                  for (; k; --k) { bool b = r.chance(50); v.push_back(bvv(b)); m.push_back(b); } return same(v, m, "push_back"); }
        case 3: case 4: { std::size_t k = std::min(n, r.chance(70) ? std::size_t(1) : r.below(2 * D + 1)); log(fmt("pop_back x%zu", k)); K("pop_back");
                  for (; k; --k) { v.pop_back(); m.pop_back(); } return same(v, m, "pop_back"); }
        case 5: case 6: { std::size_t p = r.chance(25) ? n : r.chance(25) ? 0 : r.below(n + 1); bool b = r.chance(50); log(fmt("insert(%zu,%d)", p, b)); K("insert1");
                  auto it = r.chance(50) ? v.insert(v.begin() + p, bvv(b)) : v.insert(v.cbegin() + p, bvv(b));
                  m.insert(m.begin() + p, b); ret_at(v, it, p, "insert"); return same(v, m, "insert(pos,value)"); }
        case 7: case 8: { std::size_t p = r.chance(25) ? n : r.below(n + 1), c = pick_n(r, 8); bool b = r.chance(50); log(fmt("insert(%zu,%zux%d)", p, c, b)); K("insertN");
                  auto it = v.insert(v.begin() + p, c, bvv(b));
                  m.insert(m.begin() + p, c, b); ret_at(v, it, p, "insert count"); return same(v, m, "insert(pos,count,value)"); }
        case 9: case 10: { std::size_t p = r.chance(25) ? n : r.below(n + 1), c = pick_n(r, 8); Bits s = rnd_bits(r, c + r.below(2 * D)); BV sv = make(r, s, 4); Bits s0 = s;
                  std::size_t o = r.below(s.size() - c + 1); log(fmt("insert(%zu,range of %zu from %zu)", p, c, o)); K("insertR");
                  auto it = v.insert(v.begin() + p, sv.begin() + o, sv.begin() + o + c);
                  m.insert(m.begin() + p, s.begin() + o, s.begin() + o + c); ret_at(v, it, p, "insert range");
                  return same(v, m, "insert(pos,first,last)") && same(sv, s0, "source of insert"); }
        case 11: case 12: { if (!n) return true; std::size_t p = r.chance(20) ? n - 1 : r.below(n); log(fmt("erase(%zu)", p)); K("erase1");
                  auto it = v.erase(v.begin() + p); m.erase(m.begin() + p); ret_at(v, it, p, "erase"); return same(v, m, "erase(pos)"); }
        case 13: case 14: { std::size_t a = r.chance(15) ? 0 : r.below(n + 1), b = r.chance(15) ? n : r.in(a, n); if (r.chance(25)) b = std::min(n, a + D * r.below(4)); log(fmt("erase(%zu,%zu)", a, b)); K("eraseR");
                  auto it = v.erase(v.begin() + a, v.begin() + b); m.erase(m.begin() + a, m.begin() + b); ret_at(v, it, a, "erase range"); return same(v, m, "erase(first,last)"); }
        case 15: { std::size_t c = pick_n(r, 8); log(fmt("resize(%zu)", c)); K("resize"); v.resize(c); m.resize(c, 0); return same(v, m, "resize(count)"); }
        case 16: { std::size_t c = pick_n(r, 8); bool b = r.chance(60); log(fmt("resize(%zu,%d)", c, b)); K("resizeV"); v.resize(c, bvv(b)); m.resize(c, b); return same(v, m, "resize(count,value)"); }
        case 17: { if (!n) return true; K("write"); std::size_t p = r.below(n); bool b = r.chance(50); log(fmt("write(%zu,%d)", p, b));
                  switch (r.below(5)) { case 0: v[p] = bvv(b); break; case 1: v.at(p) = bvv(b); break; case 2: *(v.begin() + p) = bvv(b); break;
                      case 3: p = 0; v.front() = bvv(b); break; default: p = n - 1; v.back() = bvv(b); break; }
                  m[p] = b; return same(v, m, "single-bit write"); }
        case 18: { if (r.chance(80)) return true; log("clear"); K("clear"); v.clear(); m.clear(); return same(v, m, "clear"); }
        case 19: { std::size_t c = pick_n(r, 12); log(fmt("reserve(%zu)", c)); K("reserve"); v.reserve(c); ++G().checks; if (v.capacity() < c) violation(KEY + ":capacity", fmt("capacity %zu after reserve(%zu); %s", v.capacity(), c, hist.c_str())); return same(v, m, "reserve"); }
        case 20: { log("shrink_to_fit"); K("shrink_to_fit"); v.shrink_to_fit(); return same(v, m, "shrink_to_fit"); }
        default: { std::size_t a = r.below(n + 1), b = r.in(a, n); K("algo");
                  switch (r.below(3)) { case 0: log(fmt("reverse(%zu,%zu)", a, b)); bit::reverse(v.begin() + a, v.begin() + b); std::reverse(m.begin() + a, m.begin() + b); break;
                      case 1: { std::size_t c = r.in(a, b); log(fmt("rotate(%zu,%zu,%zu)", a, c, b)); bit::rotate(v.begin() + a, v.begin() + c, v.begin() + b); std::rotate(m.begin() + a, m.begin() + c, m.begin() + b); break; }
                      default: { bool x = r.chance(50); log(fmt("fill(%zu,%zu,%d)", a, b, x)); bit::fill(v.begin() + a, v.begin() + b, bvv(x)); std::fill(m.begin() + a, m.begin() + b, x); } }
                  return same(v, m, "algorithm on the vector"); }
    }
}

static u64 hist_shape() { u64 h = 1469598103934665603ull; for (char c : hist) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }

[[maybe_unused]] static void case_hist(Rng& r, u64 i) {
    begin_case(i);
    std::size_t n = i % 50 == 49 ? r.below(200 * D) : g_big ? big_n(r) : pick_n(r, 6);
    Bits m = rnd_bits(r, n);
    if (r.chance(20)) m.clear();
    K("construct");
    int how = (int)r.below(6);
    log(fmt("construct(route %d, %zu bits)", how, m.size()));
    BV v = make(r, m, how);
    if (!same(v, m, "construction")) return;
    unsigned steps = (unsigned)r.in(1, 24);
    for (unsigned s = 0; s < steps; ++s) if (!step(r, v, m)) break;
    describe([&] { return fmt("%s history: %s", wname<W>(), hist.c_str()); });
    count_class(fmt("final-size%s", m.empty() ? "=0" : m.size() % D == 0 ? ":whole-words" : ":partial-word"));
    count_class(fmt("steps:%u-%u", steps / 8 * 8, steps / 8 * 8 + 7));
    nontrivial(hist_shape() ^ mix(m.size()));
}

// Growth after histories that leave old bits behind the end.
[[maybe_unused]] static void case_grow(Rng& r, u64 i) {
    begin_case(i);
    std::size_t n = g_big ? big_n(r) : pick_n(r, 6);
    Bits m = rnd_bits(r, n);
    if (r.chance(50)) std::fill(m.begin(), m.end(), 1);
    int how = (int)r.below(6);
    K("construct"); log(fmt("construct(route %d, %zu bits)", how, n));
    BV v = make(r, m, how);
    unsigned rounds = (unsigned)r.in(1, 6);
    for (unsigned k = 0; k < rounds; ++k) {
        // dirty: leave ones behind the end in one of several ways
        std::size_t s = m.size();
        switch (r.below(7)) {
            case 0: { std::size_t c = std::min(s, r.below(2 * D)); log(fmt("pop_back x%zu", c)); K("pop_back"); for (; c; --c) { v.pop_back(); m.pop_back(); } break; }
            case 1: { std::size_t a = r.below(s + 1), b = std::min(s, a + r.below(2 * D)); log(fmt("erase(%zu,%zu)", a, b)); K("eraseR"); v.erase(v.begin() + a, v.begin() + b); m.erase(m.begin() + a, m.begin() + b); break; }
            case 2: { if (!s) break; std::size_t a = r.below(s); log(fmt("erase(%zu)", a)); K("erase1"); v.erase(v.begin() + a); m.erase(m.begin() + a); break; }
            case 3: { std::size_t a = r.below(s + 1), c = r.below(2 * D); log(fmt("insert(%zu,%zux1)", a, c)); K("insertN"); v.insert(v.begin() + a, c, bit::bit1); m.insert(m.begin() + a, c, 1); break; }
            case 4: { std::size_t c = s ? r.below(s) : 0; log(fmt("resize(%zu) down", c)); K("resize"); v.resize(c); m.resize(c); break; }
            case 5: { log("clear"); K("clear"); v.clear(); m.clear(); break; }
            default: { std::size_t c = r.below(3 * D); log(fmt("assign(%zu ones)", c)); K("assign"); v = BV(c, bit::bit1); m.assign(c, 1); break; }
        }
        if (r.chance(20)) { std::size_t c = m.size() + r.below(6 * D); log(fmt("reserve(%zu)", c)); K("reserve"); v.reserve(c); }
        std::size_t before = m.size();
        std::size_t to = before + (g_big && r.chance(40) ? big_n(r) : r.chance(30) ? D * r.in(1, 3) : r.chance(30) ? (D - before % D) : r.below(3 * D));
        bool val = r.chance(50);
        const std::size_t more = to - before;
        switch (r.below(8)) {
        case 0: { log(fmt("insert(end,%zux%d)", more, val)); K("insertN-grow"); v.insert(v.cend(), more, bvv(val)); m.resize(to, val); break; }
        case 1: { log(fmt("push_back(%d)x%zu", val, more)); K("push_back-grow"); for (std::size_t q = 0; q < more; ++q) { v.push_back(bvv(val)); m.push_back(val); } break; }
        case 2: { log(fmt("insert(end,%d)x%zu", val, more)); K("insert1-grow"); for (std::size_t q = 0; q < more; ++q) { v.insert(v.cend(), bvv(val)); m.push_back(val); } break; }
        case 3: { Bits src = rnd_bits(r, more + 5); log(fmt("insert(end,range of %zu)", more)); K("insertR-grow"); std::vector<bool> sb(src.begin(), src.end()); BV o(sb.begin(), sb.end()); v.insert(v.cend(), o.begin() + 5, o.end()); m.insert(m.end(), src.begin() + 5, src.end()); break; }
        case 4: case 5: { log(fmt("resize(%zu)", to)); K("resize-grow"); v.resize(to); m.resize(to, 0); break; }
        default: { log(fmt("resize(%zu,%d)", to, val)); K("resizeV-grow"); v.resize(to, bvv(val)); m.resize(to, val); } }
        count_class(fmt("grow:%s->%s", before % D ? "partial" : "whole", to / D == before / D ? "same-word" : to % D ? "partial" : "whole"));
        nontrivial(mix(before * 4099 + to) ^ hist_shape());
        if (!same(v, m, "growth")) break;
    }
    describe([&] { return fmt("%s growth: %s", wname<W>(), hist.c_str()); });
}

[[maybe_unused]] static void case_ctor(Rng& r, u64 i) {
    begin_case(i);
    std::size_t n = i % 40 == 39 ? r.below(300 * D) : g_big ? big_n(r) : pick_n(r, 10);
    Bits m = rnd_bits(r, n);
    const int how = (int)(i % 17);
    auto done = [&](BV& v, const char* w) {
        log(fmt("%s of %zu bits", w, m.size()));
        describe([&] { return fmt("%s %s", wname<W>(), hist.c_str()); });
        count_class(std::string(w) + (m.empty() ? ":empty" : m.size() % D ? ":partial" : ":whole"));
        if (!m.empty()) nontrivial(mix(m.size()) ^ mix((u64)how) ^ (u64)pack_word<W>([&] { Bits t = m; t.resize((t.size() + D - 1) / D * D); return t; }(), 0));
        if (!same(v, m, w)) return;
        // and it must be an ordinary vector afterwards
        for (int k = 0; k < 3; ++k) if (!step(r, v, m)) return;
    };
    switch (how) {
        case 0: { K("ctor-default"); BV v; m.clear(); done(v, "default construction"); break; }
        case 1: { K("ctor-count"); BV v(n); m.assign(n, 0); done(v, "construction from a count"); break; }
        case 2: { K("ctor-count-value"); bool b = r.chance(50); BV v(n, bvv(b)); m.assign(n, b); done(v, "construction from a count and a value"); break; }
        case 3: { K("ctor-string"); std::string s; static const char junk[] = " .,_-|\nabcxyz23456789/:"; for (auto x : m) { while (r.chance(30)) s += junk[r.below(sizeof junk - 1)]; s += x ? '1' : '0'; } while (r.chance(30)) s += junk[r.below(sizeof junk - 1)];
                  BV v{std::string_view(s)}; done(v, "construction from a string"); break; }
        case 4: { K("ctor-bools"); std::vector<bool> s(m.begin(), m.end()); BV v(s.begin(), s.end()); done(v, "construction from vector<bool> iterators"); break; }
        case 5: { K("ctor-boolptr"); std::unique_ptr<bool[]> s(new bool[n]); for (std::size_t k = 0; k < n; ++k) s[k] = m[k]; BV v(s.get(), s.get() + n); done(v, "construction from bool pointers"); break; }
        case 6: { K("ctor-bools-deque"); std::deque<bool> s(m.begin(), m.end()); BV v(s.begin(), s.end()); done(v, "construction from deque<bool> iterators"); break; }
        case 7: { K("ctor-bits"); std::size_t off = r.below(D), lead = r.below(3); std::vector<W> t(lead + (n + off + D - 1) / D); fill_pattern(r, t.data(), t.size());
                  for (std::size_t k = 0; k < n; ++k) { std::size_t q = k + off + lead * D; t[q / D] = static_cast<W>((t[q / D] & ~(W(1) << (q % D))) | (W(m[k]) << (q % D))); }
                  using I = typename std::vector<W>::iterator; std::size_t e = lead * D + off + n; if (off && !n) { t.resize(lead + 1); }
                  BV v(bit::bit_iterator<I>(t.begin() + lead, off), bit::bit_iterator<I>(t.begin() + e / D, e % D)); done(v, "construction from a bit range"); break; }
        case 8: { K("ctor-bitptr"); std::size_t off = r.below(D); std::vector<W> t((n + off + D - 1) / D + (off && !n)); fill_pattern(r, t.data(), t.size());
                  for (std::size_t k = 0; k < n; ++k) { std::size_t q = k + off; t[q / D] = static_cast<W>((t[q / D] & ~(W(1) << (q % D))) | (W(m[k]) << (q % D))); }
                  std::size_t e = off + n; BV v(bit::bit_iterator<W*>(t.data(), off), bit::bit_iterator<W*>(t.data() + e / D, e % D)); done(v, "construction from a bit pointer range"); break; }
        case 9: { K("ctor-words"); std::vector<W> t(n / D); fill_pattern(r, t.data(), t.size()); unpack(t.data(), t.size(), m); if (r.chance(40)) { BV v(t.cbegin(), t.cend()); done(v, "construction from constant words"); break; } BV v(t.begin(), t.end()); done(v, "construction from words"); break; }
        case 10: { K("ctor-wordptr"); std::vector<W> t(n / D); fill_pattern(r, t.data(), t.size()); unpack(t.data(), t.size(), m); BV v(t.data(), t.data() + t.size()); done(v, "construction from word pointers"); break; }
        case 11: { K("ctor-copy"); const BV s0 = make(r, m); if (r.chance(40)) { K("ctor-const-bits"); const std::size_t a = r.below(n + 1), b = r.in(a, n); m = Bits(m.begin() + a, m.begin() + b); BV v(s0.begin() + a, s0.begin() + b); done(v, "construction from a range of a constant vector"); break; }
                  BV s = s0; BV v(s); if (!same(s, m, "source of a copy")) return; done(v, "copy construction"); break; }
        case 12: { K("ctor-move"); BV s = make(r, m); BV v(std::move(s)); done(v, "move construction"); break; }
        case 13: { K("ctor-ilist-bool"); switch (r.below(4)) {
                  case 0: { m = {1, 0, 0, 1, 1, 0, 1}; BV v{true, false, false, true, true, false, true}; done(v, "construction from a list of bool"); break; }
                  case 1: { m = {1}; BV v{true}; done(v, "construction from a list of bool"); break; }
                  case 2: { bool a = r.chance(50), b = r.chance(50), c = r.chance(50), d = r.chance(50), e = r.chance(50), f = r.chance(50), g = r.chance(50), h = r.chance(50), j = r.chance(50); m = {a, b, c, d, e, f, g, h, j}; BV v{a, b, c, d, e, f, g, h, j}; done(v, "construction from a list of bool"); break; }
                  default: { bool a = r.chance(50), b = r.chance(50), c = r.chance(50); m.clear(); for (int k = 0; k < 8; ++k) for (bool x : {a, b, c, true, false, c, b, a, b}) m.push_back(x);
                      BV v{a,b,c,true,false,c,b,a,b, a,b,c,true,false,c,b,a,b, a,b,c,true,false,c,b,a,b, a,b,c,true,false,c,b,a,b, a,b,c,true,false,c,b,a,b, a,b,c,true,false,c,b,a,b, a,b,c,true,false,c,b,a,b, a,b,c,true,false,c,b,a,b}; done(v, "construction from a list of bool"); break; } } break; }
        case 16: { K("ctor-ilist-bit"); using B = bit::bit_value; switch (r.below(4)) {
                  case 0: { bool a = r.chance(50), b = r.chance(50); m = {a, b}; BV v({B(a), B(b)}); done(v, "construction from a list of bits"); break; }
                  case 1: { bool a = r.chance(50); m = {a}; BV v{B(a)}; done(v, "construction from a list of bits"); break; }
                  case 2: { bool a = r.chance(50), b = r.chance(50), c = r.chance(50), d = r.chance(50); m = {a, 1, b, 0, c, 1, d, d, a}; BV v{B(a), bit::bit1, B(b), bit::bit0, B(c), bit::bit1, B(d), B(d), B(a)}; done(v, "construction from a list of bits"); break; }
                  default: { bool a = r.chance(50), b = r.chance(50), c = r.chance(50); const B x(a), y(b), z(c); m.clear(); for (int q = 0; q < 6; ++q) for (bool t : {a, b, c, true, false, c, b, a, b, a, b, a}) m.push_back(t);
                      #define BITS12 x, y, z, bit::bit1, bit::bit0, z, y, x, y, x, y, x
                      BV v = {BITS12, BITS12, BITS12, BITS12, BITS12, BITS12}; done(v, "construction from a list of bits"); break; } } break; }
        case 14: { K("ctor-ilist-word"); W a = static_cast<W>(r.next()), b = static_cast<W>(r.next()), c = static_cast<W>(r.next());
                  if (r.chance(50)) { std::vector<W> t{a, b, c}; unpack(t.data(), 3, m); BV v{a, b, c}; done(v, "construction from a list of words"); }
                  else { std::vector<W> t{a}; unpack(t.data(), 1, m); BV v{a}; done(v, "construction from a list of words"); } break; }
        default: { K("ctor-alloc"); std::allocator<W> al; switch (r.below(4)) {
                  case 0: { BV v(al); m.clear(); done(v, "construction with an allocator"); break; }
                  case 1: { BV v(n, bit::bit1, al); m.assign(n, 1); done(v, "construction with an allocator"); break; }
                  case 2: { BV v(n, al); m.assign(n, 0); done(v, "construction with an allocator"); break; }
                  default: { BV s = make(r, m); BV v(std::move(s), al); done(v, "move construction with an allocator"); break; } } break; }
    }
}

// A pool of vectors: copies and moves must never couple two vectors.
[[maybe_unused]] static void case_value(Rng& r, u64 i) {
    begin_case(i);
    const unsigned P = 4;
    std::vector<std::unique_ptr<BV>> v; std::vector<Bits> m(P); std::vector<bool> known(P, true);
    for (unsigned k = 0; k < P; ++k) { m[k] = rnd_bits(r, pick_n(r, 5)); K("construct"); v.emplace_back(new BV(make(r, m[k]))); }
    unsigned steps = (unsigned)r.in(3, 20);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned a = (unsigned)r.below(P), b = (unsigned)r.below(P);
        switch (r.below(10)) {
            case 0: { log(fmt("copy-construct %u from %u", a, b)); K("copy-ctor"); if (a == b || !known[b]) break; v[a].reset(new BV(*v[b])); m[a] = m[b]; known[a] = true; break; }
            case 1: { log(fmt("copy-assign %u from %u", a, b)); K("copy-assign"); if (!known[b]) break; *v[a] = static_cast<const BV&>(*v[b]); m[a] = m[b]; known[a] = true; break; }
            case 2: { log(fmt("move-construct %u from %u", a, b)); K("move-ctor"); if (a == b || !known[b]) break; v[a].reset(new BV(std::move(*v[b]))); m[a] = m[b]; known[a] = true; known[b] = false; break; }
            case 3: { log(fmt("move-assign %u from %u", a, b)); K("move-assign"); if (a == b || !known[b]) break; *v[a] = std::move(*v[b]); m[a] = m[b]; known[a] = true; known[b] = false; break; }
            case 4: { log(fmt("swap %u %u", a, b)); K("std-swap"); if (a == b || !known[a] || !known[b]) break; std::swap(*v[a], *v[b]); std::swap(m[a], m[b]); break; }
            case 5: { log(fmt("self-assign %u", a)); K("self-assign"); if (!known[a]) break; const BV& self = *v[a]; *v[a] = self; break; }
            case 6: { if (known[a]) break; // a moved-from vector must be reusable
                      log(fmt("reuse moved-from %u", a)); K("moved-from"); const unsigned how = (unsigned)r.below(4); if (how == 0) { v[a]->clear(); m[a].clear(); }
                      else if (how == 1) { // whatever it holds now is what it holds
                          m[a].clear(); const W* p = v[a]->data(); for (std::size_t k = 0; k < v[a]->size(); ++k) m[a].push_back(word_bit(p, k));
                          for (unsigned k = 0; k < 3; ++k) if (!step(r, *v[a], m[a])) return;
                      } else { m[a] = rnd_bits(r, pick_n(r, 4)); *v[a] = make(r, m[a], 4); } known[a] = true; break; }
            default: if (known[a]) { log(fmt("[%u]", a)); if (!step(r, *v[a], m[a])) return; }
        }
        K("independence");
        for (unsigned k = 0; k < P; ++k) if (known[k] && !same(*v[k], m[k], fmt("vector %u after an operation on %u/%u", k, a, b).c_str())) return;
        // moved-from vectors stay valid: their size agrees with their iterators
        for (unsigned k = 0; k < P; ++k) if (!known[k]) { ++G().checks; if (v[k]->end() - v[k]->begin() != (std::ptrdiff_t)v[k]->size() || v[k]->capacity() < v[k]->size()) violation(KEY + ":moved-from", fmt("moved-from vector %u inconsistent: size %zu; %s", k, v[k]->size(), hist.c_str())); }
    }
    describe([&] { return fmt("%s pool history: %s", wname<W>(), hist.c_str()); });
    count_class(fmt("steps:%u", steps / 5 * 5));
    nontrivial(hist_shape());
}

// Storage and reallocation discipline.
static void bound_capacity(BV& v, std::size_t peak, const char* what) {
    ++G().checks;
    if (v.capacity() > 2 * peak + 8 * D + 64) violation(KEY + ":storage", fmt("%s: capacity() is %zu bits for at most %zu bits ever held; %s", what, v.capacity(), peak, hist.c_str()));
}
[[maybe_unused]] static void case_cap_body(Rng& r, u64 i);
[[maybe_unused]] static std::size_t cap_n;
[[maybe_unused]] static void case_cap(Rng& r, u64 i) {
    begin_case(i);
    { long long b = held(); std::size_t nv = G().violations.size(); case_cap_body(r, i); no_leak(b, nv, "the destruction of all vectors"); }
    describe([&] { return fmt("%s storage: %s", wname<W>(), hist.c_str()); });
    count_class(fmt("workload:%d", (int)(i % 6)));
    nontrivial(hist_shape() ^ mix(i % 6) ^ mix(cap_n));
}
[[maybe_unused]] static void case_cap_body(Rng& r, u64 i) {
    std::size_t n = cap_n = g_big ? big_n(r) : pick_n(r, 60);
    Bits m = rnd_bits(r, n);
    switch (i % 6) {
        case 0: { // storage after every route of construction
            int how = (int)r.below(6); log(fmt("construct(route %d, %zu bits)", how, n)); K("storage-ctor"); BV v = make(r, m, how); same(v, m, "construction"); bound_capacity(v, n, "construction");
            BV c(v); bound_capacity(c, n, "copy construction"); BV d; d = v; bound_capacity(d, n, "copy assignment");
            { std::vector<bool> s(m.begin(), m.end()); std::size_t bytes; { Watch w; BV x(s.begin(), s.end()); bytes = g_bytes; } ++G().checks; if (bytes > n / 2 + 16 * sizeof(W) + 256) violation(KEY + ":bytes", fmt("construction from %zu bools allocated %zu bytes", n, bytes)); }
            { std::string s; for (auto x : m) s += x ? '1' : '0'; std::size_t bytes; { Watch w; BV x{std::string_view(s)}; bytes = g_bytes; } ++G().checks; if (bytes > n / 2 + 16 * sizeof(W) + 256) violation(KEY + ":bytes", fmt("construction from a string of %zu digits allocated %zu bytes", n, bytes)); }
            break; }
        case 1: { // no reallocation below the reserved capacity
            K("reserve"); BV v = make(r, m, 4); std::size_t cap = n + 1 + r.below(10 * D); log(fmt("%zu bits, reserve(%zu)", n, cap)); v.reserve(cap); same(v, m, "reserve");
            ++G().checks; if (v.capacity() < cap) { violation(KEY + ":capacity", fmt("capacity %zu after reserve(%zu)", v.capacity(), cap)); break; }
            { std::size_t c0 = v.capacity(); v.reserve(r.below(cap + 1)); ++G().checks; if (v.capacity() < c0) violation(KEY + ":shrunk", "reserve reduced the capacity"); }
            Bits more = rnd_bits(r, cap - n); BV src = make(r, more, 4);
            u64 al; { Watch w; for (unsigned k = 0; k < 6 && v.size() < cap; ++k) { std::size_t room = cap - v.size(), c = std::min(room, (std::size_t)r.below(room + 1)); 
                switch (r.below(5)) { case 0: v.push_back(bit::bit1); g_on = false; m.push_back(1); g_on = true; break;
                    case 3: { std::size_t p = r.below(v.size() + 1); v.insert(v.begin() + p, src.begin(), src.begin() + c); g_on = false; m.insert(m.begin() + p, more.begin(), more.begin() + c); g_on = true; break; }
                    case 1: { std::size_t p = r.below(v.size() + 1); v.insert(v.begin() + p, c, bit::bit1); g_on = false; m.insert(m.begin() + p, c, 1); g_on = true; break; }
                    case 2: { std::size_t p = r.below(v.size() + 1); v.insert(v.begin() + p, bit::bit0); g_on = false; m.insert(m.begin() + p, 0); g_on = true; break; }
                    default: { std::size_t t = v.size() + c; v.resize(t, bit::bit1); g_on = false; m.resize(t, 1); g_on = true; } } } al = g_allocs; }
            ++G().checks; if (al) violation(KEY + ":realloc", fmt("%llu allocations while growing to %zu bits inside a reserved capacity of %zu; %s", (unsigned long long)al, v.size(), cap, hist.c_str()));
            same(v, m, "growth inside the reserved capacity"); break; }
        case 2: { // amortised growth: O(log n) allocations
            K("amortised"); BV v; std::size_t N = g_big ? big_n(r) : r.in(1, 400) * D + r.below(D); u64 al; int how = (int)r.below(5); BV one(1, bit::bit1); static const char* nm[] = {"push_back", "insert at end", "insert 3 at end", "resize by one", "insert a range at end"}; log(fmt("%s %zu bits", nm[how], N));
            { Watch w; for (std::size_t k = 0; k < N; ++k) { if (how == 0) v.push_back(bit::bit1); else if (how == 1) v.insert(v.end(), bit::bit1); else if (how == 2) { v.insert(v.end(), 3, bit::bit1); k += 2; } else if (how == 3) v.resize(k + 1, bit::bit1); else v.insert(v.end(), one.begin(), one.end()); } al = g_allocs; }
            u64 lg = 1; for (std::size_t k = 1; k < v.size() / D + 2; k *= 2) ++lg;
            ++G().checks; if (al > 4 * lg + 8) violation(KEY + ":allocations", fmt("%llu allocations to append %zu bits one by one", (unsigned long long)al, N));
            m.assign(v.size(), 1); same(v, m, "appending"); bound_capacity(v, v.size(), "appending"); break; }
        case 3: { // shrink_to_fit and clear
            K("shrink_to_fit"); BV v = make(r, m); v.reserve(n + r.below(20 * D)); std::size_t c0 = v.capacity(); if (r.chance(50) && n) { std::size_t k = r.below(n); v.resize(k); m.resize(k); }
            log(fmt("%zu bits, capacity %zu, shrink_to_fit", m.size(), c0)); v.shrink_to_fit(); same(v, m, "shrink_to_fit"); ++G().checks; if (v.capacity() > c0) violation(KEY + ":grew", "shrink_to_fit raised the capacity");
            break; }
        case 4: { // storage along a history
            K("storage-history"); BV v = make(r, m, 0); std::size_t peak = std::max<std::size_t>(n, 1); for (int k = 0; k < 10; ++k) { std::size_t cap0 = v.capacity(), size0 = m.size(); if (!step(r, v, m)) return;
                ++G().checks; if (m.size() < size0 && v.capacity() > cap0) violation(KEY + ":grew", fmt("shrinking from %zu to %zu bits raised the capacity from %zu to %zu; %s", size0, m.size(), cap0, v.capacity(), hist.c_str()));
                K("storage-history");  peak = std::max(peak, m.size()); if (hist.rfind("reserve") != std::string::npos) peak = std::max(peak, v.capacity()); bound_capacity(v, peak, "history"); }
            break; }
        default: { // moving takes the storage over: no allocation, and the words stay where they are
            K("move-cost"); const bool fresh = r.chance(50); Bits old = rnd_bits(r, pick_n(r, 60)); log(fmt("move %zu bits, target %s", n, fresh ? "empty" : "in use"));
            BV v = make(r, m, 4), x = fresh ? BV() : make(r, old, 4); const W* where = v.data(); u64 a1, a2;
            { Watch w; x = std::move(v); a1 = g_allocs; }
            ++G().checks; if (a1) violation(KEY + ":allocates", fmt("move assignment of %zu bits allocated; %s", n, hist.c_str()));
            ++G().checks; if (n && x.data() != where) violation(KEY + ":copies", fmt("move assignment of %zu bits copied them to other storage; %s", n, hist.c_str()));
            same(x, m, "move assignment");
            K("move-ctor"); { Watch w; BV y(std::move(x)); a2 = g_allocs; g_on = false;
                ++G().checks; if (a2) violation(KEY + ":allocates", fmt("move construction of %zu bits allocated; %s", n, hist.c_str()));
                ++G().checks; if (n && y.data() != where) violation(KEY + ":copies", fmt("move construction of %zu bits copied them to other storage; %s", n, hist.c_str()));
                same(y, m, "move construction"); y.push_back(bit::bit1); y.clear(); }
            K("move-swap"); BV p = make(r, m, 4), q = make(r, old, 4); const W *wp = p.data(), *wq = q.data(); { Watch w; std::swap(p, q); a1 = g_allocs; }
            ++G().checks; if (a1 || (n && q.data() != wp) || (!old.empty() && p.data() != wq)) violation(KEY + ":copies", fmt("swapping %zu with %zu bits %s; %s", n, old.size(), a1 ? "allocated" : "copied bits to other storage", hist.c_str()));
            same(q, m, "swap"); same(p, old, "swap"); break; }
    }
}

[[maybe_unused]] static void case_access(Rng& r, u64 i) {
    begin_case(i);
    std::size_t n = i % 10 == 9 ? 0 : g_big ? big_n(r) : pick_n(r, 12);
    Bits m = rnd_bits(r, n); K("construct"); BV v = make(r, m);
    log(fmt("%zu bits", n));
    if (!same(v, m, "construction")) return;
    K("at");
    for (int k = 0; k < 8; ++k) {
        std::size_t p = k == 0 ? n : k == 1 ? ~std::size_t(0) : k == 2 ? n + r.below(3 * D) : k == 3 ? v.capacity() : k == 4 ? (std::size_t(1) << 63) : r.below(2 * n + 1);
        bool threw = false, other = false, val = false;
        try { if (k & 1) { const BV& c = v; val = static_cast<bool>(c.at(p)); } else val = rd(v.at(p)); } catch (const std::out_of_range&) { threw = true; } catch (...) { other = true; }
        ++G().checks;
        if (other || threw != (p >= n) || (!threw && !other && val != (bool)m[p])) { violation(KEY + ":at", fmt("at(%zu) of %zu bits: %s", p, n, threw ? "threw out_of_range" : other ? "threw something else" : "returned")); return; }
        count_class(p >= n ? "at:out-of-range" : "at:in-range");
    }
    if (n) {
        for (int k = 0; k < 12; ++k) {
            std::size_t p = r.chance(20) ? n - 1 : r.below(n); bool b = r.chance(50);
            switch (r.below(10)) {
                case 0: K("index-write"); v[p] = bvv(b); m[p] = b; break;
                case 1: K("at-write"); v.at(p) = bvv(b); m[p] = b; break;
                case 2: K("front-write"); v.front() = bvv(b); m[0] = b; break;
                case 3: K("back-write"); v.back() = bvv(b); m[n - 1] = b; break;
                case 4: K("iterator-write"); *(v.end() - (n - p)) = bvv(b); m[p] = b; break;
                case 5: { K("reference-write"); auto ref = v[p]; ref.flip(); m[p] ^= 1; break; }
                case 6: { K("reference-assign"); std::size_t q = r.below(n); v[p] = v[q]; m[p] = m[q]; break; }
                case 7: { K("data-write"); W* d = v.data(); d[p / D] = static_cast<W>(d[p / D] ^ (W(1) << (p % D))); m[p] ^= 1; break; }
                case 8: { K("iter-index-write"); v.begin()[p].set(b); m[p] = b; break; }
                default: { K("pointer-write"); auto ptr = &v[p]; *ptr = bvv(b); m[p] = b; break; }
            }
            log(KEY + fmt("(%zu)", p));
            if (!same(v, m, "element access")) return;
            ++G().checks;
            if (rd(v.front()) != (bool)m[0] || rd(v.back()) != (bool)m[n - 1]) { violation(KEY + ":ends", "front() or back() differs from the first or last bit"); return; }
            count_class(KEY.substr(0, KEY.find('/')));
        }
    }
    describe([&] { return fmt("%s access: %s", wname<W>(), hist.c_str()); });
    nontrivial(hist_shape());
}

// Every allocation of every operation fails once.
[[maybe_unused]] static void case_oom(Rng& r, u64 i) {
    begin_case(i);
    std::size_t n = g_big == 1 ? big_n(r) : pick_n(r, 8);
    Bits m0 = rnd_bits(r, n);
    const int op = (int)(i % 19);
    std::size_t p = r.below(n + 1), c = pick_n(r, 8), e = r.in(p, n);
    Bits sb = rnd_bits(r, c); bool val = r.chance(50); int route = (int)r.below(6); u64 sub = r.next();
    static const std::size_t absurd[] = {~std::size_t(0), ~std::size_t(0) - 1, ~std::size_t(0) - 63, std::size_t(1) << 63, (std::size_t(1) << 63) - 1, std::size_t(1) << 62, std::size_t(3) << 60, std::size_t(1) << 55};
    const std::size_t huge = r.chance(30) && n ? ~std::size_t(0) - r.below(n + 2) : absurd[r.below(8)];
    log(fmt("op %d on %zu bits (pos %zu, count %zu)", op, n, p, op > 14 ? huge : c));
    u64 faults = 0;
    for (long k = 0;; ++k) {
        const long long total0 = held(); const std::size_t viol0 = G().violations.size();
        Bits m = m0; bool threw = false, wrong = false;
        Rng r2(sub);
        {
            std::unique_ptr<BV> v(new BV(make(r2, m, 0))), src(new BV(make(r2, sb, 4)));
            v->shrink_to_fit();
            std::unique_ptr<BV> made;
            std::vector<bool> bools(sb.begin(), sb.end()); std::string str; for (auto x : sb) str += x ? '1' : '0';
            static const char* names[] = {"push_back", "insert1", "insertN", "insertR", "resize", "resizeV", "reserve", "shrink_to_fit", "copy-assign", "copy-ctor", "ctor-count", "ctor-string", "ctor-bools", "ctor-bits", "move-assign", "resize-huge", "reserve-huge", "insertN-huge", "ctor-huge"};
            K((std::string("oom-") + names[op]).c_str());
            void* slot = ::operator new(sizeof(BV)); BV* raw = nullptr;
            { Watch w; g_fail_at = op > 14 ? -1 : k; u64 l0 = g_live;
              try {
                switch (op) {
                    case 0: v->push_back(bvv(val)); break;
                    case 1: v->insert(v->begin() + p, bvv(val)); break;
                    case 2: v->insert(v->begin() + p, c, bvv(val)); break;
                    case 3: v->insert(v->begin() + p, src->begin(), src->end()); break;
                    case 4: v->resize(n + c); break;
                    case 5: v->resize(n + c, bvv(val)); break;
                    case 6: v->reserve(n + c + 1); break;
                    case 7: v->shrink_to_fit(); break;
                    case 8: *v = static_cast<const BV&>(*src); break;
                    case 9: raw = new (slot) BV(static_cast<const BV&>(*src)); break;
                    case 10: raw = new (slot) BV(c, bvv(val)); break;
                    case 11: raw = new (slot) BV(std::string_view(str)); break;
                    case 12: raw = new (slot) BV(bools.begin(), bools.end()); break;
                    case 13: raw = new (slot) BV(src->begin(), src->end()); break;
                    case 14: *v = BV(c, bvv(val)); break;
                    // more bits than there can be; whichever allocation refuses
                    case 15: v->resize(huge, bvv(val)); break;
                    case 16: v->reserve(huge); break;
                    case 17: v->insert(v->begin() + p, huge, bvv(val)); break;
                    default: raw = new (slot) BV(huge, bvv(val)); break;
                }
              } catch (const std::bad_alloc&) { threw = true; } catch (const std::length_error&) { threw = true; } catch (...) { wrong = true; }
              bool fired = g_fail_at == -2; g_on = false; g_fail_at = -1;
              if (fired) ++faults;
              ++G().checks;
              if (wrong) violation(KEY + ":exception", "an exception other than bad_alloc escaped");
              if (threw && !fired && op < 15) violation(KEY + ":exception", "bad_alloc without a failed allocation");
              if (!threw && op > 14) { violation(KEY + ":swallowed", fmt("%zu bits more than there can be were granted; %s", huge, hist.c_str())); }
              if (fired && !threw && op != 7) violation(KEY + ":swallowed", fmt("allocation %ld failed but the operation reported success; %s", k, hist.c_str()));
              if (threw && ((op >= 9 && op <= 13) || op == 18)) { ++G().checks; if (g_live != l0) violation(KEY + ":leak", fmt("failed construction left %lld blocks allocated; %s", (long long)(g_live - l0), hist.c_str())); }
            }
            if (threw) { // the vector is as before the call
                same(*v, m, "after a failed operation");
                same(*src, sb, "argument of a failed operation");
                for (int q = 0; q < 2; ++q) step(r2, *v, m);   // and remains usable
            } else {
                switch (op) { case 0: m.push_back(val); break; case 1: m.insert(m.begin() + p, val); break; case 2: m.insert(m.begin() + p, c, val); break; case 3: m.insert(m.begin() + p, sb.begin(), sb.end()); break;
                    case 4: m.resize(n + c, 0); break; case 5: m.resize(n + c, val); break; case 8: m = sb; break; case 14: m.assign(c, val); break; default: break; }
                same(*v, m, "after the operation");
                if (raw) { Bits want = sb; if (op == 10) want.assign(c, val); same(*raw, want, "constructed"); }
            }
            if (raw) raw->~BV();
            ::operator delete(slot);
        }
        Bits().swap(m);
        no_leak(total0, viol0, threw ? "a failed operation" : "an operation");
        if (!threw || op > 14 || k > 40) break;
    }
    (void)e;
    count_class(fmt("op%d:faults=%llu", op, (unsigned long long)faults));
    G().classes["injected-faults"] += faults;
    describe([&] { return fmt("%s fault enumeration: %s route %d, %llu failed allocations", wname<W>(), hist.c_str(), route, (unsigned long long)faults); });
    if (faults || op > 14) nontrivial(hist_shape() ^ mix(sub));
}

int main(int argc, char** argv) {
    return run(argc, argv, 0x7ec0 + MODE, [](Rng& r, u64 i) {
#if MODE == M_HIST
        case_hist(r, i);
#elif MODE == M_GROW
        case_grow(r, i);
#elif MODE == M_CTOR
        case_ctor(r, i);
#elif MODE == M_VALUE
        case_value(r, i);
#elif MODE == M_CAP
        case_cap(r, i);
#elif MODE == M_ACCESS
        case_access(r, i);
#else
        case_oom(r, i);
#endif
    });
}
