// Monitor for vectors with their own allocators: every allocation and deallocation is logged with the identity of the
// allocator that made it; the log is checked while it grows (matching pairs) and at the end of a case (nothing left).
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <map>
#include <memory>
#include <new>
#include <string>
using namespace vh;
using W = WORD;
static constexpr unsigned D = digits_v<W>;
static std::string KEY, hist;
static void K(const char* op) { KEY = std::string(op) + "/" + wname<W>(); enter(KEY.c_str()); }

struct Block { int id; std::size_t bytes; };
static std::map<char*, Block> LIVE;     // live blocks
static u64 ALLOCS; static long FAIL_AT = -1; static u64 FAILED;
static void* take(int id, std::size_t n) {
    if (FAIL_AT == 0) { FAIL_AT = -1; ++FAILED; throw std::bad_alloc(); }
    if (FAIL_AT > 0) --FAIL_AT;
    ++ALLOCS;
    char* p = static_cast<char*>(std::malloc(n ? n : 1));
    if (!p) throw std::bad_alloc();
    LIVE[p] = {id, n};
    return p;
}
static void give(int id, void* v, std::size_t n) {
    char* p = static_cast<char*>(v); auto it = LIVE.find(p); ++G().checks;
    if (it == LIVE.end()) { violation(KEY + ":release", "released a block that no allocator handed out; " + hist); return; }
    if (it->second.id != id) violation(KEY + ":release", fmt("allocator %d released a block of allocator %d; ", id, it->second.id) + hist);
    if (it->second.bytes != n) violation(KEY + ":release", fmt("a block of %zu bytes released as %zu; ", it->second.bytes, n) + hist);
    LIVE.erase(it); std::free(p);
}
template <class T, bool CA, bool MA, bool SEL> struct Al {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, CA>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, MA>;
    using propagate_on_container_swap = std::true_type;
    using is_always_equal = std::false_type;
    template <class U> struct rebind { using other = Al<U, CA, MA, SEL>; };
    int id;
    Al(int i = 0) noexcept : id(i) {}
    template <class U> Al(const Al<U, CA, MA, SEL>& o) noexcept : id(o.id) {}
    Al select_on_container_copy_construction() const { return SEL ? Al(0) : *this; }
    T* allocate(std::size_t n) { return static_cast<T*>(take(id, n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) { give(id, p, n * sizeof(T)); }
    template <class U> bool operator==(const Al<U, CA, MA, SEL>& o) const noexcept { return id == o.id; }
    template <class U> bool operator!=(const Al<U, CA, MA, SEL>& o) const noexcept { return id != o.id; }
};
#ifdef LIMITS   // 1: only max_size() is judged, 2: only what happens beyond it
// An allocator that can hand out a limited number of objects at a time
template <class T> struct Lim {
    using value_type = T;
    static std::size_t limit;
    Lim() = default;
    template <class U> Lim(const Lim<U>&) noexcept {}
    std::size_t max_size() const noexcept { return limit; }
    T* allocate(std::size_t n) { if (n > limit) throw std::bad_alloc(); return static_cast<T*>(take(0, n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) { give(0, p, n * sizeof(T)); }
    template <class U> bool operator==(const Lim<U>&) const noexcept { return true; }
    template <class U> bool operator!=(const Lim<U>&) const noexcept { return false; }
};
template <class T> std::size_t Lim<T>::limit = 0;
#endif
static Bits rbits(Rng& r, std::size_t n) { Bits b(n); for (auto& x : b) x = r.chance(50); return b; }
static std::size_t sz(Rng& r) { return r.chance(15) ? 0 : r.chance(50) ? r.below(3 * D + 2) : r.chance(50) ? D * r.below(8) : r.below(12 * D); }

template <bool CA, bool MA, bool SEL> struct Run {
    using A = Al<W, CA, MA, SEL>;
    using V = bit::bit_vector<W, A>;
    struct Slot { std::unique_ptr<V> v; Bits m; int id; };
    static Bits read(V& v) { Bits b; for (std::size_t i = 0; i < v.size(); ++i) b.push_back(bool(v[i])); return b; }
    static void verify(Slot& s, const char* who) {
        ++G().checks;
        if (s.v->size() != s.m.size()) { violation(KEY + ":size", fmt("%s has %zu bits, expected %zu; ", who, s.v->size(), s.m.size()) + hist); return; }
        if (s.v->capacity() < s.v->size()) { violation(KEY + ":size", fmt("%s has capacity %zu below size %zu; ", who, s.v->capacity(), s.v->size()) + hist); return; }
        if (s.m.empty()) return;
        char* d = reinterpret_cast<char*>(s.v->data());
        auto it = LIVE.upper_bound(d); ++G().checks;
        if (it == LIVE.begin() || (--it, d < it->first || d + (s.m.size() + D - 1) / D * sizeof(W) > it->first + it->second.bytes)) { violation(KEY + ":storage", std::string(who) + " keeps its bits outside the blocks of any allocator; " + hist); return; }
        if (it->second.id != s.id) violation(KEY + ":allocator", fmt("%s keeps its bits in storage of allocator %d, expected %d; ", who, it->second.id, s.id) + hist);
        ++G().checks;
        if (read(*s.v) != s.m) violation(KEY + ":bits", std::string(who) + " holds wrong bits; " + hist);
    }
    static V* build(Rng& r, Slot& s, std::vector<Slot>& all) {
        const int id = (int)r.in(1, 3); const A a(id); std::size_t n = sz(r);
        s.id = id;
        switch (r.below(11)) {
            case 0: K("construct-empty"); s.m.clear(); return new V(a);
            case 1: K("construct-count"); s.m.assign(n, 0); return new V(n, a);
            case 2: { K("construct-value"); bool b = r.chance(50); s.m.assign(n, b); return new V(n, b ? bit::bit1 : bit::bit0, a); }
            case 3: { K("construct-bits"); Slot& o = all[r.below(all.size())]; std::size_t f = r.below(o.m.size() + 1), l = r.in(f, o.m.size()); s.m.assign(o.m.begin() + f, o.m.begin() + l); return new V(o.v->begin() + f, o.v->begin() + l, a); }
            case 4: { K("construct-bools"); s.m = rbits(r, n); std::vector<bool> b(s.m.begin(), s.m.end()); return new V(b.begin(), b.end(), a); }
            case 5: { K("construct-words"); std::size_t k = n / D; s.m = rbits(r, k * D); std::vector<W> w; for (std::size_t i = 0; i < k; ++i) w.push_back(pack_word<W>(s.m, i)); return new V(w.begin(), w.end(), a); }
            case 6: K("construct-list"); if (r.chance(50)) { s.m = {1, 0, 1, 1, 0}; return new V({true, false, true, true, false}, a); } s.m.assign(2 * D, 0); s.m[0] = s.m[D + 1] = 1; return new V({W(1), W(2)}, a);
            case 7: { K("construct-string"); s.m = rbits(r, n); std::string t; for (auto x : s.m) t += x ? '1' : '0'; s.id = 0; return new V(std::string_view(t)); }
            case 8: { K("construct-copy"); Slot& o = all[r.below(all.size())]; s.m = o.m; s.id = SEL ? 0 : o.id; return new V(*o.v); }
            case 9: { K("construct-copy-with"); Slot& o = all[r.below(all.size())]; s.m = o.m; const V& c = *o.v; return new V(c, a); }
            default: { Slot& o = all[r.below(all.size())]; s.m = o.m; 
                if (r.chance(50)) { K("construct-move"); s.id = o.id; u64 a0 = ALLOCS; V* v = new V(std::move(*o.v)); o.m.clear(); check_f(ALLOCS == a0, KEY + ":allocates", [&] { return "move construction allocated; " + hist; }); return v; }
                K("construct-move-with"); u64 a0 = ALLOCS; bool eq = o.id == id; V* v = new V(std::move(*o.v), a); o.m.clear();
                if (eq) check_f(ALLOCS == a0, KEY + ":allocates", [&] { return "move construction with an equal allocator allocated; " + hist; });
                return v; }
        }
    }
    static void one(Rng& r) {
        hist = fmt("propagate copy=%d move=%d, select default=%d:", CA, MA, SEL);
        u64 shape = CA + 2 * MA + 4 * SEL;
        {
            std::vector<Slot> s(3);
            for (auto& x : s) { x.id = (int)r.in(1, 3); x.m.clear(); x.v.reset(new V(A(x.id))); }
            const int steps = (int)r.in(3, 18);
            for (int k = 0; k < steps; ++k) {
                std::size_t i = r.below(3), j = r.below(3); Slot& x = s[i]; Slot& y = s[j];
                const unsigned op = (unsigned)r.below(13);
                FAIL_AT = op >= 3 && op <= 12 && r.chance(12) ? (long)r.below(2) : -1; FAILED = 0;
                const Bits before = x.m; const int before_id = x.id; bool undo = true;
                const u64 a0 = ALLOCS;
                try {
                    switch (op) {
                        case 0: case 1: case 2: { Slot n; std::vector<Slot> t; hist += fmt(" v%zu=new", i);
                            n.v.reset(build(r, n, s)); hist += "(" + KEY + ")"; verify(n, "the new vector"); x = std::move(n); break; }
                        case 3: { K("copy-assign"); hist += fmt(" v%zu=v%zu", i, j); undo = i != j; *x.v = static_cast<const V&>(*y.v); if (i != j) { x.m = y.m; if (CA) x.id = y.id; } break; }
                        case 4: { if (i == j) break; K("move-assign"); hist += fmt(" v%zu=move(v%zu)", i, j); Bits ym = y.m; *x.v = std::move(*y.v); x.m = ym; y.m.clear();
                            if (MA || x.id == y.id) check_f(ALLOCS == a0, KEY + ":allocates", [&] { return "move assignment allocated; " + hist; });
                            if (MA) x.id = y.id; verify(y, "the moved-from vector"); break; }
                        case 5: { if (i == j) break; K("swap"); FAIL_AT = -1; hist += fmt(" swap(v%zu,v%zu)", i, j); std::swap(*x.v, *y.v); std::swap(x.m, y.m); if (MA) std::swap(x.id, y.id); break; }
                        case 6: { K("push_back"); std::size_t c = 1 + r.below(2 * D); hist += fmt(" v%zu.push_back*%zu", i, c); for (std::size_t q = 0; q < c; ++q) { bool b = r.chance(50); x.v->push_back(b ? bit::bit1 : bit::bit0); x.m.push_back(b); undo = false; } break; }
                        case 7: { K("insert-count"); std::size_t c = sz(r), p = r.below(x.m.size() + 1); bool b = r.chance(50); hist += fmt(" v%zu.insert(%zu,%zu)", i, p, c); x.v->insert(x.v->cbegin() + p, c, b ? bit::bit1 : bit::bit0); x.m.insert(x.m.begin() + p, c, b); break; }
                        case 8: { if (i == j) break; K("insert-range"); std::size_t p = r.below(x.m.size() + 1), f = r.below(y.m.size() + 1), l = r.in(f, y.m.size()); hist += fmt(" v%zu.insert(%zu,v%zu[%zu,%zu))", i, p, j, f, l); x.v->insert(x.v->cbegin() + p, y.v->begin() + f, y.v->begin() + l); x.m.insert(x.m.begin() + p, y.m.begin() + f, y.m.begin() + l); break; }
                        case 9: { K("erase"); std::size_t f = r.below(x.m.size() + 1), l = r.in(f, x.m.size()); hist += fmt(" v%zu.erase(%zu,%zu)", i, f, l); x.v->erase(x.v->begin() + f, x.v->begin() + l); x.m.erase(x.m.begin() + f, x.m.begin() + l); break; }
                        case 10: { K("resize"); std::size_t c = sz(r); bool b = r.chance(50); hist += fmt(" v%zu.resize(%zu,%d)", i, c, b); x.v->resize(c, b ? bit::bit1 : bit::bit0); x.m.resize(c, b); break; }
                        case 11: { K("reserve"); std::size_t c = sz(r) * 2; hist += fmt(" v%zu.reserve(%zu)", i, c); x.v->reserve(c); check_f(x.v->capacity() >= c, KEY + ":capacity", [&] { return "capacity below the reserved size; " + hist; }); break; }
                        default: { K("shrink"); hist += fmt(" v%zu.shrink", i); x.v->shrink_to_fit(); if (r.chance(30)) { x.v->clear(); x.m.clear(); } break; }
                    }
                } catch (const std::bad_alloc&) {
                    hist += "!";
                    check_f(FAILED > 0, KEY + ":exception", [&] { return "bad_alloc although no allocation failed; " + hist; });
                    if (undo && (x.m != before)) x.m = before;
                    x.id = before_id;
                    if (op == 3 && CA && before_id != y.id) { // a propagating copy assignment drops its old storage first
                        if (x.v->size() == 0) { x.m.clear(); x.v.reset(new V(A(x.id))); } }
                }
                FAIL_AT = -1;
                shape = mix(shape ^ (op * 16 + i * 4 + j)); shape = mix(shape + x.m.size());
                for (auto& z : s) verify(z, "a vector");
            }
            nontrivial(shape); count_class(fmt("propagate copy %d move %d", CA, MA));
            K("destroy");
        }
        ++G().checks;
        if (!LIVE.empty()) { violation(KEY + ":leak", fmt("%zu blocks not released; ", LIVE.size()) + hist); for (auto& b : LIVE) std::free(b.first); LIVE.clear(); }
        describe([&] { return hist; });
    }
};
#ifdef LIMITS
static void limits(Rng& r) {
    using V = bit::bit_vector<W, Lim<W>>;
    const std::size_t words = Lim<W>::limit = r.in(1, r.chance(20) ? 600 : 12), bits = words * D;
    {
#if LIMITS == 1
        K("max_size"); V v(r.below(bits + 1)); const V& c = v;
        hist = fmt("an allocator of at most %zu words", words);
        check_f(c.max_size() == bits, KEY + ":value", [&] { return fmt("max_size() is %zu, expected %zu; ", c.max_size(), bits) + hist; });
        v.resize(bits); check_f(v.size() == bits && v.max_size() == bits, KEY + ":reach", [&] { return "max_size() changed; " + hist; });
        bit::bit_vector<W> d(r.below(300)); const std::size_t m = d.max_size();
        check_f(m <= (std::size_t)PTRDIFF_MAX && m >= (std::size_t(1) << 40) && m >= d.capacity(), KEY + ":range", [&] { return fmt("max_size() is %zu for the standard allocator", m); });
        nontrivial(bits);
#else
        std::size_t n = r.chance(40) ? bits : r.chance(50) ? bits - r.below(std::min<std::size_t>(bits, 2 * D)) : r.below(bits + 1), over = bits - n + 1 + (r.chance(50) ? 0 : r.below(4 * D));
        V v(n); Bits m(n); for (std::size_t i = 0; i < n; ++i) { m[i] = r.chance(50); v[i] = m[i] ? bit::bit1 : bit::bit0; }
        V w(std::min<std::size_t>(bits, over), bit::bit1);
        const unsigned op = (unsigned)r.below(9); std::size_t p = r.below(n + 1);
        static const char* names[] = {"push_back", "insert1", "insertN", "insertR", "resize", "resizeV", "reserve", "ctor", "ctor-string"};
        K((std::string("limit-") + names[op]).c_str()); hist = fmt("%zu bits, %zu more than the %zu an allocator of %zu words can hold", n, n + over - bits, bits, words);
        bool threw = false, fits = false; auto val = r.chance(50) ? bit::bit1 : bit::bit0;
        try { switch (op) {
            case 0: if (n != bits) { fits = true; break; } v.push_back(val); break;
            case 1: if (n != bits) { fits = true; break; } v.insert(v.cbegin() + p, val); break;
            case 2: v.insert(v.cbegin() + p, over, val); break;
            case 3: if (w.size() + n <= bits) { fits = true; break; } v.insert(v.cbegin() + p, w.begin(), w.end()); break;
            case 4: v.resize(n + over); break;
            case 5: v.resize(n + over, val); break;
            case 6: v.reserve(n + over); break;
            case 7: { V x(n + over, val); break; }
            default: { V x{std::string_view(std::string(n + over, '1'))}; break; }
        } } catch (const std::length_error&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
        check_f(threw || fits, KEY + ":granted", [&] { return "more bits than the allocator can hold were granted; " + hist; });
        bool ok = v.size() == n && v.capacity() <= bits; for (std::size_t i = 0; ok && i < n; ++i) ok = bool(v[i]) == bool(m[i]);
        check_f(ok, KEY + ":state", [&] { return "the vector changed though its growth was refused; " + hist; });
        if (n < bits) { v.push_back(val); check_f(v.size() == n + 1 && bool(v[n]) == (val == bit::bit1), KEY + ":usable", [&] { return "push_back after a refusal; " + hist; }); }
        if (!fits) nontrivial(mix(n * 64 + op) ^ over); count_class(KEY.substr(0, KEY.find('/')));
#endif
    }
    ++G().checks; if (!LIVE.empty()) { violation(KEY + ":leak", "blocks not released; " + hist); for (auto& b : LIVE) std::free(b.first); LIVE.clear(); }
    describe([&] { return hist; });
}
#endif
int main(int argc, char** argv) {
    return run(argc, argv, 0xa110c, [](Rng& r, u64 i) {
#ifdef LIMITS
        (void)i; limits(r);
#else
        switch (i % 5) {
            case 0: Run<false, false, false>::one(r); break;
            case 1: Run<true, true, true>::one(r); break;
            case 2: Run<false, true, false>::one(r); break;
            case 3: Run<true, false, false>::one(r); break;
            default: Run<false, false, true>::one(r);
        }
#endif
    });
}
