// Concurrency monitor (run under ThreadSanitizer): several threads use the library at once on data they
// may legitimately share: read-only ranges, ranges that have no word in common, and their own vectors.
// The thread sanitizer reports unsynchronised accesses; afterwards every range is compared with
// the result of the same operations applied sequentially to a model.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <atomic>
#include <sstream>
#include <thread>
using namespace vh;
using W = WORD;
static constexpr std::size_t D = digits_v<W>;
using I = typename std::vector<W>::iterator; using B = bit::bit_iterator<I>;
using BV = bit::bit_vector<W>;
static const unsigned T = 4;
static std::atomic<u64> g_seq;            // relaxed: observes the order of operations without adding synchronisation
static std::atomic<int> g_go;
struct Ev { u64 seq; unsigned op; };
struct Job {
    unsigned id; u64 seed; unsigned steps;
    std::vector<W>* buf; std::size_t lo, hi;      // own bits [lo,hi) of a shared buffer: nobody else touches their words
    std::vector<W>* ro; const Bits* rom;          // shared read-only bits
    BV* rov;                                      // shared read-only vector with the same bits
    Bits m;                                       // model of [lo,hi)
    std::vector<Ev> ev; std::string err; u64 checks = 0;
};
static B at(std::vector<W>& v, std::size_t k) { return B(v.begin() + k / D, k % D); }
static bit::bit_value V(bool b) { return b ? bit::bit1 : bit::bit0; }

static void work(Job& j) {
    Rng r(j.seed); Bits& m = j.m; const Bits& rm = *j.rom; std::vector<W>& v = *j.buf; std::vector<W>& ro = *j.ro;
    const std::size_t n = j.hi - j.lo, rn = rm.size();
    auto bad = [&](const char* s) { if (j.err.empty()) j.err = fmt("%s", s); };
    auto ck = [&](bool ok, const char* s) { ++j.checks; if (!ok) bad(s); };
    BV own; Bits om;
    while (!g_go.load(std::memory_order_relaxed)) {}
    for (unsigned s = 0; s < j.steps; ++s) {
        unsigned op = (unsigned)r.below(24);
        j.ev.push_back({g_seq.fetch_add(1, std::memory_order_relaxed), op});
        std::size_t a = r.below(n + 1), b = r.in(a, n), len = b - a; bool val = r.chance(50);
        std::size_t ra = r.below(rn + 1), rb = r.in(ra, rn); auto RF = at(ro, ra), RL = at(ro, rb);
        if (op < 8) { // read-only sharing
            switch (op) {
                case 0: ck(bit::count(RF, RL, V(val)) == std::count(rm.begin() + ra, rm.begin() + rb, (std::uint8_t)val), "count of a shared range"); break;
                case 1: ck(bit::find(RF, RL, V(val)) - at(ro, 0) == std::find(rm.begin() + ra, rm.begin() + rb, (std::uint8_t)val) - rm.begin(), "find in a shared range"); break;
                case 2: ck(bit::equal(RF, RL, RF), "a shared range equals itself"); break;
                case 3: { std::size_t k = std::min(rb - ra, n - a); bit::copy(RF, RF + k, at(v, j.lo + a)); std::copy(rm.begin() + ra, rm.begin() + ra + k, m.begin() + a); break; }
                case 4: { std::size_t k = std::min(rb - ra, n - a); bit::transform(RF, RF + k, at(v, j.lo + a), [](W w) { return static_cast<W>(~w); }); for (std::size_t x = 0; x < k; ++x) m[a + x] = !rm[ra + x]; break; }
                case 5: { const BV& cv = *j.rov; bool ok = cv.empty() == (rn == 0) && cv.capacity() >= rn; for (std::size_t x = ra; x < rb && x < ra + 40; ++x) ok = ok && static_cast<bool>((*j.rov)[x]) == (bool)rm[x] && static_cast<bool>(cv[x]) == (bool)rm[x] && static_cast<bool>(cv.at(x)) == (bool)rm[x] && static_cast<bool>(cv.cbegin()[x]) == (bool)rm[x] && static_cast<bool>(cv.begin()[x]) == (bool)rm[x] && static_cast<bool>(*at(ro, x)) == (bool)rm[x]; ck(ok && j.rov->size() == rn, "element reads of a shared vector"); break; }
                case 6: { const BV& cv = *j.rov; ck(bit::count(cv.cbegin(), cv.cend(), V(val)) == std::count(rm.begin(), rm.end(), (std::uint8_t)val) && bit::equal(cv.begin() + ra, cv.begin() + rb, RF), "reading a shared constant vector"); ck(bit::count(j.rov->begin(), j.rov->end(), V(val)) == std::count(rm.begin(), rm.end(), (std::uint8_t)val), "count of a shared vector"); break; }
                default: { BV c(j.rov->begin() + ra, j.rov->begin() + rb); BV d(static_cast<const BV&>(*j.rov)); ck(c.size() == rb - ra && bit::equal(c.begin(), c.end(), RF) && d.size() == rn && d.debug_string().size() >= rn, "copies of a shared vector"); break; }
            }
        } else if (op < 19) { // exclusive words of a shared buffer
            auto F = at(v, j.lo + a), L = at(v, j.lo + b); auto MF = m.begin() + a, ML = m.begin() + b; std::size_t k = len ? r.below(len + 1) : 0;
            switch (op) {
                case 8: bit::fill(F, L, V(val)); std::fill(MF, ML, val); break;
                case 9: bit::reverse(F, L); std::reverse(MF, ML); break;
                case 10: bit::rotate(F, F + k, L); std::rotate(MF, MF + k, ML); break;
                case 11: { bit::shift_left(F, L, (std::ptrdiff_t)k); if (k < len) { std::move(MF + k, ML, MF); for (std::size_t x = b - k; x < b; ++x) m[x] = word_bit(v.data(), j.lo + x); } break; }
                case 12: { bit::shift_right(F, L, (std::ptrdiff_t)k); if (k < len) { std::move_backward(MF, ML - k, ML); for (std::size_t x = a; x < a + k; ++x) m[x] = word_bit(v.data(), j.lo + x); } break; }
                case 13: { std::size_t h = len / 2; bit::swap_ranges(F, F + h, F + h); std::swap_ranges(MF, MF + h, MF + h); break; }
                case 14: { std::size_t h = len / 2; bit::copy(F + h, L, F); Bits t(MF + h, ML); std::copy(t.begin(), t.end(), MF); break; }
                case 15: { std::size_t h = len / 2; bit::copy_backward(F, F + h, L); Bits t(MF, MF + h); std::copy(t.begin(), t.end(), ML - h); break; }
                case 16: { std::size_t h = len / 2; bit::transform(F, F + h, F + h, F + h, std::bit_xor<W>()); for (std::size_t x = 0; x < h; ++x) MF[h + x] ^= MF[x]; break; }
                case 17: { std::size_t h = len / 2; bit::move(F + h, L, F); Bits t(MF + h, ML); std::copy(t.begin(), t.end(), MF); break; }
                default: { for (std::size_t x = a; x < b && x < a + 20; ++x) { auto ref = *at(v, j.lo + x); if (x % 3) ref.flip(); else ref = V(val); m[x] = x % 3 ? !m[x] : val; } break; }
            }
        } else { // a vector of its own
            switch (op) {
                case 19: for (int x = 0; x < 20; ++x) { own.push_back(V(val)); om.push_back(val); } break;
                case 20: { std::size_t p = r.below(om.size() + 1), c = r.below(2 * D); own.insert(own.begin() + p, c, V(val)); om.insert(om.begin() + p, c, val); break; }
                case 21: { std::size_t p = r.below(om.size() + 1), q = r.in(p, om.size()); own.erase(own.begin() + p, own.begin() + q); om.erase(om.begin() + p, om.begin() + q); break; }
                case 22: { own.resize(om.size() + 9, V(val)); om.resize(om.size() + 9, val); BV c(own); own = std::move(c); break; }
                default: { bool ok = own.size() == om.size(); for (std::size_t x = 0; ok && x < om.size(); ++x) ok = static_cast<bool>(own[x]) == (bool)om[x]; ck(ok, "a thread's own vector"); own = BV(std::string_view("0110")); om = {0, 1, 1, 0}; break; }
            }
        }
    }
    bool ok = own.size() == om.size(); for (std::size_t x = 0; ok && x < om.size(); ++x) ok = static_cast<bool>(own[x]) == (bool)om[x];
    ck(ok, "a thread's own vector");
}

int main(int argc, char** argv) {
    return run(argc, argv, 0x7a5e, [](Rng& r, u64 i) {
        enter((std::string("concurrent/") + wname<W>()).c_str());
        std::vector<Job> jobs(T); std::size_t at0 = r.below(2); std::vector<std::pair<std::size_t, std::size_t>> parts;
        for (unsigned t = 0; t < T; ++t) { // consecutive word-disjoint parts, often starting or ending inside a word
            std::size_t words = r.chance(25) ? r.in(20, 120) : r.in(1, 5); std::size_t lo = at0 * D + (r.chance(50) ? 0 : r.below(D)), hi = (at0 + words) * D - (r.chance(50) ? 0 : r.below(D)); if (hi < lo) hi = lo;
            parts.push_back({lo, hi}); at0 += words; }
        std::vector<W> buf(at0 + r.below(2)); fill_pattern(r, buf.data(), buf.size()); Bits m; unpack(buf.data(), buf.size(), m);
        std::size_t rn = r.chance(40) ? r.below(150 * D) : r.below(6 * D); std::vector<W> ro(rn / D + 1); fill_pattern(r, ro.data(), ro.size()); Bits rm; unpack(ro.data(), ro.size(), rm); rm.resize(rn);
        BV rov(rn); for (std::size_t x = 0; x < rn; ++x) rov[x] = V(rm[x]);
        unsigned steps = i < 2 ? 40 : (unsigned)r.in(4, 30);
        for (unsigned t = 0; t < T; ++t) { Job& j = jobs[t]; j.id = t; j.seed = r.next(); j.steps = steps; j.buf = &buf; j.lo = parts[t].first; j.hi = parts[t].second; j.ro = &ro; j.rom = &rm; j.rov = &rov; j.m.assign(m.begin() + j.lo, m.begin() + j.hi); j.ev.reserve(steps); }
        describe([&] { return fmt("%u threads x %u operations, parts of %zu,%zu,%zu,%zu bits of %zu words of %s, %zu shared read-only bits", T, steps, jobs[0].m.size(), jobs[1].m.size(), jobs[2].m.size(), jobs[3].m.size(), buf.size(), wname<W>(), rn); });
        g_seq.store(0, std::memory_order_relaxed); g_go.store(0, std::memory_order_relaxed);
        std::vector<std::thread> th; for (auto& j : jobs) th.emplace_back([&j] { work(j); });
        g_go.store(1, std::memory_order_relaxed);
        for (auto& t : th) t.join();
        // offline: every thread's part as the sequential model says, everything else untouched
        Bits want = m; for (auto& j : jobs) std::copy(j.m.begin(), j.m.end(), want.begin() + j.lo);
        Bits got; unpack(buf.data(), buf.size(), got); Bits rg; unpack(ro.data(), ro.size(), rg); rg.resize(rn);
        std::string key = std::string("concurrent/") + wname<W>();
        for (auto& j : jobs) { G().checks += j.checks; if (!j.err.empty()) violation(key + ":result", fmt("thread %u: %s; %s", j.id, j.err.c_str(), G().desc.c_str())); }
        check(got == want, (key + ":result").c_str(), "a part of the shared buffer differs from its sequential result");
        check(rg == rm, (key + ":readonly").c_str(), "shared read-only bits changed");
        // what interleaving was this?
        std::vector<std::pair<u64, unsigned>> order; for (auto& j : jobs) for (auto& e : j.ev) { order.push_back({e.seq, j.id}); G().events++; static const char* cls[] = {"shared-read", "exclusive-words", "own-vector"}; count_class(cls[e.op < 8 ? 0 : e.op < 19 ? 1 : 2]); }
        std::sort(order.begin(), order.end()); u64 h = 0, switches = 0; for (std::size_t k = 0; k < order.size(); ++k) { h = mix(h ^ order[k].second); if (k && order[k].second != order[k - 1].second) ++switches; }
        G().classes["thread-switches-observed"] += switches;
        if (switches >= T) { nontrivial(h); count_class("interleaved-histories"); }
    });
}
