// Shared runtime-monitoring scaffold: case runner, PRNG, violation log, crash attribution.
// Every case is a pure function of (seed, salt, index), so a single case can be replayed.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include "cpu.hpp"

#ifndef WORD
#define WORD std::uint64_t
#endif

namespace vh {
using u64 = std::uint64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    // Uniform in [0, n); n > 0
    u64 below(u64 n) { return static_cast<u64>((static_cast<unsigned __int128>(next()) * n) >> 64); }
    u64 in(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// Record shared with the driver through a mapped file: it survives any crash of this process.
struct State {
    u64 index;       // case being executed
    u64 events;      // library calls observed so far
    char key[240];   // coarse identification of the operation being executed
};

struct Global {
    State* state = nullptr;
    State local{};
    bool verbose = false;
    u64 cases = 0, events = 0, checks = 0;
    std::unordered_set<u64> distinct;
    std::map<std::string, u64> classes;      // observed classes of behaviour -> count
    std::vector<std::string> samples;
    std::map<std::string, std::string> violations;  // key -> first description
    std::map<std::string, u64> violation_index;
    u64 index = 0;
    std::string desc;
    FILE* trace = nullptr;                   // optional event log (one line per event)
    u64 sample_every = 0;
    bool case_nontrivial = false;            // did the current case do something, and what
    u64 case_hash = 0;
};
inline Global& G() { static Global g; return g; }

inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap; va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// Names the operation about to run (for attributing crashes and hangs).
inline void enter(const char* key) {
    State* s = G().state ? G().state : &G().local;
    std::strncpy(s->key, key, sizeof s->key - 1);
    s->events = ++G().events;
}

// Full description of the case; computed only when someone will read it.
template <class F> inline void describe(F&& f) {
    Global& g = G();
    g.desc.clear();
    bool sample = g.samples.size() < 4 && (g.cases % (g.sample_every ? g.sample_every : 1)) == 0;
    if (g.verbose || sample) {
        g.desc = f();
        if (g.verbose) { fprintf(stderr, "CASE %llu: %s\n", (unsigned long long)g.index, g.desc.c_str()); fflush(stderr); }
        if (sample) g.samples.push_back(g.desc);
    }
}

inline void count_class(const std::string& c) { ++G().classes[c]; }

// The current case is non-trivial: `shape` (of all calls in the case together) identifies it.
#ifndef VH_SALT
#define VH_SALT 0
#endif
inline void nontrivial(u64 shape) {
    G().case_nontrivial = true;
    G().case_hash = mix(G().case_hash ^ shape);
}

inline void violation(const std::string& key, const std::string& what) {
    Global& g = G();
    if (!g.violations.count(key)) {
        g.violations[key] = what;
        g.violation_index[key] = g.index;
        fprintf(stderr, "MISMATCH key=%s case=%llu %s\n", key.c_str(), (unsigned long long)g.index, what.c_str());
        fflush(stderr);
    }
}

inline bool check(bool ok, const char* key, const char* what) {
    ++G().checks;
    if (!ok) violation(key, what);
    return ok;
}
template <class F> inline bool check_f(bool ok, const std::string& key, F&& what) {
    ++G().checks;
    if (!ok) violation(key, what());
    return ok;
}

inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

inline void write_out(const char* path, bool complete) {
    Global& g = G();
    std::string o = "{";
    o += fmt("\"cases\":%llu,\"events\":%llu,\"checks\":%llu,\"distinct\":%llu,\"complete\":%s,\"next\":%llu",
             (unsigned long long)g.cases, (unsigned long long)g.events, (unsigned long long)g.checks,
             (unsigned long long)g.distinct.size(), complete ? "true" : "false",
             (unsigned long long)(g.index + 1));
    o += ",\"classes\":{";
    bool first = true;
    for (auto& c : g.classes) { if (!first) o += ","; first = false; o += jstr(c.first) + fmt(":%llu", (unsigned long long)c.second); }
    o += "},\"samples\":[";
    first = true;
    for (auto& s : g.samples) { if (!first) o += ","; first = false; o += jstr(s); }
    o += "],\"violations\":[";
    first = true;
    for (auto& v : g.violations) {
        if (!first) o += ","; first = false;
        o += "{\"key\":" + jstr(v.first) + ",\"what\":" + jstr(v.second) +
             fmt(",\"case\":%llu}", (unsigned long long)g.violation_index[v.first]);
    }
    o += "]}\n";
    FILE* f = fopen(path, "w");
    if (!f || fwrite(o.data(), 1, o.size(), f) != o.size() || fclose(f) != 0) { perror("out"); _exit(97); }
    std::vector<u64> hs(g.distinct.begin(), g.distinct.end());
    f = fopen((std::string(path) + ".distinct").c_str(), "wb");
    if (!f || fwrite(hs.data(), 8, hs.size(), f) != hs.size() || fclose(f) != 0) { perror("out"); _exit(97); }
}

// Runs cases [from, to). Exit 0: ran to the end (violations, if any, are in the output file).
inline int run(int argc, char** argv, u64 salt, const std::function<void(Rng&, u64)>& one) {
    Global& g = G();
    u64 seed = 1, from = 0, to = 0;
    const char *out = nullptr, *state = nullptr, *trace = nullptr;
    bool cpu_masked = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); _exit(96); } return argv[++i]; };
        if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else if (a == "--from") from = strtoull(val(), nullptr, 10);
        else if (a == "--to") to = strtoull(val(), nullptr, 10);
        else if (a == "--out") out = val();
        else if (a == "--state") state = val();
        else if (a == "--trace") trace = val();
        else if (a == "--salt") salt ^= mix(strtoull(val(), nullptr, 10));
        else if (a == "--verbose") g.verbose = true;
        else if (a == "--cpu") { int l = atoi(val()); cpu_masked = l > 0 && CpuMask::apply(l); if (!cpu_masked) count_class("cpu/unmasked"); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 96; }
    }
    if (!out) { fprintf(stderr, "no --out\n"); return 96; }
    if (state) {
        int fd = open(state, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) { perror("state"); return 96; }
        void* m = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { perror("mmap"); return 96; }
        close(fd);
        g.state = static_cast<State*>(m);
    }
    if (trace && !(g.trace = fopen(trace, "w"))) { perror("trace"); return 96; }
    g.sample_every = (to - from) / 5 + 1;
    for (u64 i = from; i < to; ++i) {
        g.index = i;
        if (g.state) { g.state->index = i; }
        Rng r(mix(seed * 0x100000001b3ull + salt) ^ mix(i));
        g.case_nontrivial = false; g.case_hash = 0;
        one(r, i);
        ++g.cases;
        if (g.case_nontrivial && g.distinct.size() < 600000)
            g.distinct.insert(mix(g.case_hash ^ mix(sizeof(WORD) * 1000 + std::is_same<WORD, unsigned long long>::value + 77 * VH_SALT)));
        if (g.violations.size() >= 12) break;
    }
    if (g.trace) fclose(g.trace);
    // What the code under test asked the processor, and was told with features removed
    if (cpu_masked) g.classes["cpu/questions-answered"] += CpuMask::answered();
    write_out(out, true);
    return 0;
}

// ------------------------------------------------------------------------------------------
// Bit models
// ------------------------------------------------------------------------------------------
using Bits = std::vector<std::uint8_t>;   // one byte per bit: the reference representation

template <class W> constexpr unsigned digits_v = static_cast<unsigned>(sizeof(W) * 8);

template <class W> inline bool word_bit(const W* p, std::size_t i) {
    return (p[i / digits_v<W>] >> (i % digits_v<W>)) & W(1);
}
template <class W> inline void unpack(const W* p, std::size_t nwords, Bits& out) {
    out.resize(nwords * digits_v<W>);
    for (std::size_t w = 0; w < nwords; ++w)
        for (unsigned b = 0; b < digits_v<W>; ++b) out[w * digits_v<W> + b] = (p[w] >> b) & W(1);
}
template <class W> inline W pack_word(const Bits& m, std::size_t w) {
    W v = 0;
    for (unsigned b = 0; b < digits_v<W>; ++b) v = static_cast<W>(v | (static_cast<W>(m[w * digits_v<W> + b] & 1) << b));
    return v;
}

// Data patterns: uniform, all zero, all one, sparse, dense, runs, repeated words.
template <class W> inline void fill_pattern(Rng& r, W* p, std::size_t n) {
    switch (r.below(10)) {
        case 0: for (std::size_t i = 0; i < n; ++i) p[i] = 0; break;
        case 1: for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<W>(~W(0)); break;
        case 2: { // sparse ones
            for (std::size_t i = 0; i < n; ++i) p[i] = 0;
            if (n) for (u64 k = r.in(1, 4); k-- > 0;) { u64 b = r.below(n * digits_v<W>); p[b / digits_v<W>] = static_cast<W>(p[b / digits_v<W>] | (W(1) << (b % digits_v<W>))); }
            break; }
        case 3: { // sparse zeros
            for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<W>(~W(0));
            if (n) for (u64 k = r.in(1, 4); k-- > 0;) { u64 b = r.below(n * digits_v<W>); p[b / digits_v<W>] = static_cast<W>(p[b / digits_v<W>] & ~(W(1) << (b % digits_v<W>))); }
            break; }
        case 4: { // runs
            bool v = r.chance(50); u64 left = 0;
            for (std::size_t i = 0; i < n; ++i) { W w = 0; for (unsigned b = 0; b < digits_v<W>; ++b) { if (!left) { v = !v; left = r.in(1, 1 + r.below(3 * digits_v<W>)); } --left; w = static_cast<W>(w | (W(v) << b)); } p[i] = w; }
            break; }
        case 5: for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<W>(r.chance(50) ? 0 : ~W(0)); break;
        default: for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<W>(r.next()); break;
    }
}

// Stratified bit length: tiny, around word multiples, medium, and byte-sized for the SIMD paths.
template <class W> inline std::size_t pick_len(Rng& r, std::size_t max_bytes = 3000) {
    const std::size_t D = digits_v<W>;
    switch (r.below(20)) {
        case 0: return 0;
        case 1: case 2: case 3: case 4: case 5: return r.below(2 * D + 3);
        case 6: case 7: case 8: case 9: { std::size_t k = r.in(1, 12) * D; long d = (long)r.below(5) - 2; return k + d; }
        case 10: case 11: return r.below(6 * D);
        case 12: return r.in(1, 12) * D;
        case 13: case 14: return r.below(40 * D);
        case 15: case 16: { std::size_t by = r.in(1, 24) * 64; long d = (long)r.below(2 * D) - (long)D; long v = (long)by * 8 + d; return v < 0 ? 0 : v; }
        case 17: return r.below(std::min<std::size_t>(max_bytes, 1000) * 8);
        case 18: return r.below(max_bytes * 8);
        default: { std::size_t k = r.in(1, max_bytes * 8 / D) * D; return k; }
    }
}
template <class W> inline std::size_t pick_pos(Rng& r) {
    switch (r.below(8)) { case 0: case 1: case 2: return 0; case 3: return digits_v<W> - 1; case 4: return 1; default: return r.below(digits_v<W>); }
}

inline std::string bits_str(const Bits& b, std::size_t from, std::size_t to) {
    std::string s;
    for (std::size_t i = from; i < to && i < b.size() && s.size() < 160; ++i) s += b[i] ? '1' : '0';
    if (to - from > 160) s += "...";
    return s;
}
template <class W> inline const char* wname() {
    return sizeof(W) == 1 ? "u8" : sizeof(W) == 2 ? "u16" : sizeof(W) == 4 ? "u32"
         : std::is_same<W, std::uint64_t>::value ? "u64" : "ull";
}
} // namespace vh
