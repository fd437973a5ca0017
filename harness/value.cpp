// Monitor for single bits. MODE 1: bit values and bit references against plain booleans, with the whole
// surrounding memory compared after every operation. MODE 2: text input and output.
#include "common.hpp"
#include <bitlib/bitlib.hpp>
#include <iomanip>
#include <sstream>
#include <streambuf>
#include <string>
#include <utility>
using namespace vh;
using W = WORD;
static constexpr std::size_t D = digits_v<W>;
#ifndef MODE
#define MODE 1
#endif
static std::string KEY, DESC;
static void K(const char* op) { KEY = std::string(op) + "/" + wname<W>(); enter(KEY.c_str()); }
static void want(bool ok, const char* what) { ++G().checks; if (!ok) violation(KEY + ":result", std::string(what) + "; " + DESC); }
static bit::bit_value V(bool b) { return b ? bit::bit1 : bit::bit0; }

#if MODE == 1
using R = bit::bit_reference<W>;
template <class O> struct Mem { std::vector<O> v; Bits m; void init(Rng& r, std::size_t n) { v.resize(n); fill_pattern(r, v.data(), n); unpack(v.data(), n, m); }
    bool same() const { Bits g; unpack(v.data(), v.size(), g); return g == m; } };
using O = std::conditional<sizeof(W) == 8, std::uint16_t, std::uint64_t>::type;   // references to words of another size

static void values(Rng& r) {
    K("value"); bool a = r.chance(50), b = r.chance(50); bit::bit_value x = V(a), y = V(b);
    W w = static_cast<W>(r.next()); std::size_t p = r.below(D);
    DESC = fmt("bit values %d %d, word %llx bit %zu", a, b, (unsigned long long)w, p);
    auto val = [](bit::bit_value t) { return static_cast<bool>(t); };
    want(val(x) == a && !val(bit::bit_value()) && val(bit::bit1) && !val(bit::bit0) && val(bit::bit_on) && !val(bit::bit_off), "constants and default");
    want(val(bit::bit_value(a)) == a && val(bit::bit_value(w)) == bool(w & 1) && val(bit::bit_value(w, p)) == bool(w >> p & 1), "construction from a bool, from a word and from a bit of a word");
    want((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison of bit values");
    want(val(~x) == !a && val(x & y) == (a && b) && val(x | y) == (a || b) && val(x ^ y) == (a != b), "bitwise operators");
    { auto t = x; auto& q = (t &= y); want(val(t) == (a && b) && &q == &t, "&="); t = x; t |= y; want(val(t) == (a || b), "|="); t = x; t ^= y; want(val(t) == (a != b), "^="); t = x; t &= t; want(val(t) == a, "&= itself"); t ^= t; want(!val(t), "^= itself"); }
    { auto t = x; t.set(); want(val(t), "set"); t.reset(); want(!val(t), "reset"); t.flip(); want(val(t), "flip"); t.set(b); want(val(t) == b, "set(bool)"); t.assign(w); want(val(t) == bool(w & 1), "assign(word)"); t.assign(w, p); want(val(t) == bool(w >> p & 1), "assign(word, position)"); }
    { auto s = x, t = y; s.swap(t); want(val(s) == b && val(t) == a, "swap of values"); std::swap(s, t); want(val(s) == a && val(t) == b, "std::swap of values"); }
    describe([&] { return DESC; }); count_class("value"); nontrivial(mix((u64)w * 64 + p) ^ (a * 2 + b));
}
static void references(Rng& r) {
    Mem<W> m, n; m.init(r, r.in(1, 6)); n.init(r, r.in(1, 6)); Mem<O> o; o.init(r, 2);
    u64 shape = 0; std::string ops;
    auto all = [&](const char* what) { want(m.same() && n.same() && o.same(), what); };
    unsigned steps = (unsigned)r.in(4, 20);
    for (unsigned s = 0; s < steps; ++s) {
        std::size_t i = r.below(m.m.size()), k = r.chance(15) ? i : r.below(m.m.size()), j = r.below(n.m.size()), q = r.below(o.m.size());
        R x(m.v[i / D], i % D), x2(m.v[k / D], k % D), y(n.v[j / D], j % D); bit::bit_reference<O> z(o.v[q / digits_v<O>], q % digits_v<O>);
        bool b = r.chance(50); unsigned op = (unsigned)r.below(30);
        DESC = fmt("reference operation %u: bit %zu of %zu words, bit %zu, bit %zu of another array, bit %zu of wider words, value %d", op, i, m.v.size(), k, j, q, b);
        shape = mix(shape ^ (op * 1000003 + i * 1009 + k * 31 + j));
        K("reference");
        want(x.address() == &m.v[i / D] && x.position() == i % D && x.mask() == static_cast<W>(W(1) << (i % D)), "address, position and mask");
        want(static_cast<bool>(x) == (bool)m.m[i] && bit::bit_value(x) == V(m.m[i]) && (x == V(b)) == (m.m[i] == b) && (x != y) == (m.m[i] != n.m[j]) && (x < y) == (m.m[i] < n.m[j]) && (V(b) >= x) == (b >= (bool)m.m[i]), "reading a referenced bit");
        if (i % D == 0) { R first(m.v[i / D]); want(first.address() == x.address() && first.position() == 0, "reference to a word is its first bit"); }
        switch (op) {
            case 0: x = V(b); m.m[i] = b; break;
            case 1: x = y; m.m[i] = n.m[j]; break;
            case 2: x = x2; m.m[i] = m.m[k]; break;
            case 3: x = z; m.m[i] = o.m[q]; break;
            case 4: z = x; o.m[q] = m.m[i]; break;
            case 5: { R& t = x.set(); m.m[i] = 1; want(&t == &x, "set returns the reference"); break; }
            case 6: x.reset(); m.m[i] = 0; break;
            case 7: x.flip(); m.m[i] ^= 1; break;
            case 8: x.set(b); m.m[i] = b; break;
            case 9: x &= V(b); m.m[i] &= b; break;
            case 10: x |= V(b); m.m[i] |= b; break;
            case 11: x ^= V(b); m.m[i] ^= b; break;
            case 12: x &= y; m.m[i] &= n.m[j]; break;
            case 13: x |= x2; m.m[i] |= m.m[k]; break;
            case 14: x ^= x2; m.m[i] ^= (bool)m.m[k]; break;
            case 15: { W w = static_cast<W>(r.next()); x.assign(w); m.m[i] = w & 1; break; }
            case 16: { W w = static_cast<W>(r.next()); std::size_t p = r.below(D); x.assign(w, p); m.m[i] = (w >> p) & 1; break; }
            case 17: x.swap(y); std::swap(m.m[i], n.m[j]); break;
            case 18: x.swap(x2); std::swap(m.m[i], m.m[k]); break;
            case 19: { swap(R(x), R(y)); std::swap(m.m[i], n.m[j]); break; }
            case 20: { bit::swap(x, x2); std::swap(m.m[i], m.m[k]); break; }
            case 21: { bit::bit_value v = V(b); swap(x, v); want(v == V(m.m[i]), "swap with a value"); m.m[i] = b; break; }
            case 22: { bit::bit_value v = V(b); swap(v, x); want(v == V(m.m[i]), "swap of a value with a reference"); m.m[i] = b; break; }
            case 23: { bit::bit_value v = V(b); x.swap(v); want(v == V(m.m[i]), "member swap with a value"); m.m[i] = b; break; }
            case 24: { bit::swap(x, z); std::swap(m.m[i], o.m[q]); break; }
            case 25: { R c(x); c.flip(); m.m[i] ^= 1; all("a copied reference denotes the same bit"); bit::bit_reference<const W> cr(x); want(static_cast<bool>(cr) == (bool)m.m[i] && cr.position() == x.position(), "reference to a constant word"); break; }
            case 26: { auto p = &x; *p = V(b); m.m[i] = b; break; }
            case 27: { x = y = V(b); n.m[j] = b; m.m[i] = b; break; }
            case 28: { bit::bit_value v = V(b); v.swap(x); want(v == V(m.m[i]), "member swap of a value with a reference"); m.m[i] = b; break; }
            default: { bit::bit_value v = V(!m.m[i]); v = x; want(v == V(m.m[i]), "assigning a reference to a value"); v.flip(); break; }
        }
        all("exactly the referenced bit may change");
        count_class(fmt("reference-op:%02u", op));
    }
    describe([&] { return fmt("%s, %u operations, last: %s", wname<W>(), steps, DESC.c_str()); });
    nontrivial(shape);
}
static void one(Rng& r, u64 i) { if (i % 4 == 0) values(r); else references(r); }
#endif

#if MODE == 2
using BV = bit::bit_vector<W>;
template <class C> static std::basic_string<C> cs(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }
// Input with an exhausted or throwing source
template <class C> struct Faulty : std::basic_streambuf<C> { int left; bool boom, late; explicit Faulty(int n, bool b, bool l = false) : left(n), boom(b), late(l) {}
    using T = std::char_traits<C>; C one = C('1');
    // `late`: the next character can be seen, but not taken
    typename T::int_type uflow() override { if (late && boom && left <= 0) throw 42; auto c = underflow(); if (!T::eq_int_type(c, T::eof()) && this->gptr() < this->egptr()) this->gbump(1); return c; }
    typename T::int_type underflow() override { if (late && boom && left <= 0) return T::to_int_type(one); if (left <= 0) { if (boom) throw 42; return T::eof(); } this->setg(&one, &one, &one + 1); --left; return T::to_int_type(one); } };

// A source without a buffer, which cannot take a character back
template <class C> struct Unbuffered : std::basic_streambuf<C> { using T = std::char_traits<C>; std::basic_string<C> s; std::size_t at = 0;
    explicit Unbuffered(std::basic_string<C> t) : s(std::move(t)) {}
    typename T::int_type underflow() override { return at < s.size() ? T::to_int_type(s[at]) : T::eof(); }
    typename T::int_type uflow() override { return at < s.size() ? T::to_int_type(s[at++]) : T::eof(); } };

template <class C> static void stream(Rng& r, const char* nm) {
    std::string in; std::size_t n = r.below(12);
    static const char alphabet[] = "0101010101  \n\tx2-";
    for (std::size_t k = 0; k < n; ++k) in += alphabet[r.below(sizeof alphabet - 1)];
    bool skip = r.chance(75); DESC = std::string(nm) + " input \"" + in + (skip ? "\"" : "\" noskipws"); u64 shape = std::hash<std::string>()(DESC);
    describe([&] { return "text: " + DESC; });
    const bool unbuffered = r.chance(30), throwing = r.chance(25); if (unbuffered) DESC += ", unbuffered"; if (throwing) DESC += ", throwing on failure";
    std::basic_stringbuf<C> buffered(cs<C>(in)); Unbuffered<C> direct(cs<C>(in));
    std::basic_istream<C> is(unbuffered ? static_cast<std::basic_streambuf<C>*>(&direct) : &buffered); if (!skip) is >> std::noskipws;
    if (throwing) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    std::vector<W> mem(2); fill_pattern(r, mem.data(), 2); Bits mm; unpack(mem.data(), 2, mm);
    std::size_t at = 0; bool good = true; const bool viaref = r.chance(60);
    for (unsigned k = 0; k < 16 && good; ++k) {
        K(viaref ? "read-reference" : "read-value");
        std::size_t bit = r.below(2 * D); bool before = mm[bit]; bit::bit_value v = V(before);
        // what a one-character formatted extraction must do
        bool got = false, eof = false; bool exp = before;
        if (skip) while (at < in.size() && isspace((unsigned char)in[at])) ++at;
        if (at >= in.size()) eof = true;
        else if (in[at] == '0' || in[at] == '1') { got = true; exp = in[at] == '1'; ++at; }
        bool threw = false; is.width(r.below(3));
        try { if (viaref) { bit::bit_reference<W> ref(mem[bit / D], bit % D); want(&(is >> ref) == &is, "extraction returns the stream"); } else want(&(is >> v) == &is, "extraction returns the stream"); }
        catch (const std::ios_base::failure&) { threw = true; }
        want(threw == (throwing && !got), "a failed extraction throws just when the stream asks for it");
        if (viaref) { if (got) mm[bit] = exp; } else want(v == V(got ? exp : before), "value after extraction");
        Bits g; unpack(mem.data(), 2, g); want(g == mm, "extraction changes exactly the referenced bit, and only on success");
        want(!is.bad() && is.fail() == !got && (is.eof() == eof), "stream state after extraction");
        if (!got) { good = false; is.exceptions(std::ios_base::goodbit); 
            if (r.chance(30)) { // a stream that has failed reads nothing, whatever it holds
                bit::bit_value u = V(!before); is >> u; want(u == V(!before) && is.fail(), "a failed stream reads nothing"); }
            if (!eof) { is.clear(); want(is.get() == std::char_traits<C>::to_int_type(C(in[at])), "a character that is not a digit stays in the stream"); } }
        count_class(std::string("read:") + (got ? "digit" : eof ? "end" : "other"));
    }
    { // a failing source
        K("read-fault"); bool boom = r.chance(50); int have = (int)r.below(3); Faulty<C> fb(have, boom, r.chance(30)); std::basic_istream<C> fs(&fb); if (r.chance(50)) fs >> std::noskipws; if (boom) count_class(fb.late ? "read:source-throws-late" : "read:source-throws"); else count_class("read:source-ends"); bit::bit_value v = bit::bit0; int ok = 0; bool esc = false;
        if (r.chance(50)) { W word = 0; bit::bit_reference<W> ref(word, D - 1); try { while (ok < 5 && (fs >> ref)) { ++ok; want(word == static_cast<W>(W(1) << (D - 1)), "digit before the fault"); word = 0; } } catch (...) { esc = true; } want(word == 0, "no bit changes when the source fails"); }
        else try { while (ok < 5 && (fs >> v)) { ++ok; want(v == bit::bit1, "digit before the fault"); v = bit::bit0; } } catch (...) { esc = true; }
        want(!esc && ok == have && fs.fail() && fs.bad() == boom && v == bit::bit0, "end or failure of the source"); }
    { // output
        K("write"); std::basic_ostringstream<C> os, ref; for (unsigned k = 0; k < 10; ++k) { std::size_t bit = r.below(2 * D); if (r.chance(20)) { int w = (int)r.below(5); os << std::setw(w) << std::setfill(C('*')); ref << std::setw(w) << std::setfill(C('*')); }
            ref << C(mm[bit] ? '1' : '0'); if (r.chance(50)) os << bit::bit_reference<W>(mem[bit / D], bit % D); else os << V(mm[bit]); }
        want(os.str() == ref.str(), "written digits"); 
        // round trip
        K("round-trip"); std::basic_ostringstream<C> o2; for (std::size_t k = 0; k < 2 * D; ++k) o2 << bit::bit_reference<W>(mem[k / D], k % D); std::basic_istringstream<C> i2(o2.str()); bool okk = true; for (std::size_t k = 0; k < 2 * D; ++k) { bit::bit_value v; if (!(i2 >> v) || v != V(mm[k])) okk = false; } want(okk, "reading back what was written"); }
    nontrivial(shape);
}
static void strings(Rng& r, u64 i) {
    std::size_t n = i % 20 == 19 ? r.below(100 * D) : r.below(5 * D); std::string s; Bits m; bool clean = r.chance(30);
    for (std::size_t k = 0; k < n; ++k) { if (!clean && r.chance(15)) { static const char junk[] = " ._-xX29\n\t|'/"; s += junk[r.below(sizeof junk - 1)]; } if (!clean && r.chance(1)) s += char(r.below(256)) ; bool b = r.chance(50); s += b ? '1' : '0'; }
    for (char c : s) if (c == '0' || c == '1') m.push_back(c == '1');
    DESC = fmt("string of %zu characters, %zu digits, \"%.80s\"", s.size(), m.size(), s.c_str());
    describe([&] { return "text: " + DESC; });
    K("parse"); BV v{std::string_view(s)}; want(v.size() == m.size(), "number of digits"); bool ok = v.size() == m.size(); for (std::size_t k = 0; ok && k < m.size(); ++k) ok = static_cast<bool>(v[k]) == (bool)m[k]; want(ok, "parsed digits");
    if (v.size() != m.size()) return;
    std::string exp; for (std::size_t k = 0; k < m.size(); ++k) { if (k && k % D == 0) exp += ' '; else if (k && k % 8 == 0) exp += '.'; exp += m[k] ? '1' : '0'; }
    K("print"); std::string got = v.debug_string(); want(got == exp, "printed digits"); 
    { std::size_t a = r.below(m.size() + 1), b = r.in(a, m.size()); if (r.chance(30)) { a = 0; b = m.size(); } std::string part; for (std::size_t k = a; k < b; ++k) { if (k > a && (k - a) % D == 0) part += ' '; else if (k > a && (k - a) % 8 == 0) part += '.'; part += m[k] ? '1' : '0'; }
      K("print-range"); if (r.chance(50)) want(v.debug_string(v.cbegin() + a, v.cbegin() + b) == part, "printed digits of a range"); else { const BV& cv = v; want(v.debug_string(cv.begin() + a, cv.begin() + b) == part, "printed digits of a range"); } }
    K("text-round-trip"); BV u{std::string_view(got)}; want(u.size() == v.size() && bit::equal(v.begin(), v.end(), u.begin()), "parsing what was printed"); want(u.debug_string() == got, "printing what was parsed");
    count_class(m.empty() ? "string:empty" : clean ? "string:digits" : "string:with-separators"); nontrivial(std::hash<std::string>()(s));
}
static void one(Rng& r, u64 i) { switch (i % 3) { case 0: stream<char>(r, "char"); break; case 1: stream<wchar_t>(r, "wchar_t"); break; default: strings(r, i / 3); } }
#endif
int main(int argc, char** argv) { return run(argc, argv, 0x7a10 + MODE, [](Rng& r, u64 i) { one(r, i); }); }
