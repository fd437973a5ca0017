// Monitor for linear_overload: every call is logged by the callable that ran; exactly one must run, the first whose
// signature accepts the arguments, with those arguments, and its result must come back unchanged.
#include "common.hpp"
#include <bitlib/bit-iterator/linear_overload.hpp>
#include <memory>
#include <string>
#include <tuple>
using namespace vh;
using W = WORD;

// Event log: which callable, how it got its argument, and the value it saw.
struct Ev { int who; char how; u64 val; };
static std::vector<Ev> LOG;
static u64 COPIES, MOVES;
struct Obj {
    u64 v; bool alive = true;
    explicit Obj(u64 x) : v(x) {}
    Obj(const Obj& o) : v(o.v), alive(o.alive) { ++COPIES; }
    Obj(Obj&& o) : v(o.v), alive(o.alive) { o.alive = false; ++MOVES; }
};
struct Text { std::string s; Text(const char* p) : s(p) {} };

template <int I> struct OnWord  { u64 operator()(W x) const { LOG.push_back({I, 'v', (u64)x}); return (u64)x * 3 + I; } };
template <int I> struct OnLRef  { Obj& operator()(Obj& o) const { LOG.push_back({I, 'l', o.v}); return o; } };
template <int I> struct OnCRef  { const Obj& operator()(const Obj& o) const { LOG.push_back({I, 'c', o.v}); return o; } };
template <int I> struct OnRRef  { u64 operator()(Obj&& o) const { LOG.push_back({I, 'r', o.v}); return o.v + I; } };
template <int I> struct OnPair  { u64 operator()(u64 a, u64 b) const { LOG.push_back({I, 'p', a * 1000 + b}); return a - b + I; } };
template <int I> struct OnNone  { u64 operator()() const { LOG.push_back({I, 'n', 0}); return 77 + I; } };
template <int I> struct OnText  { std::size_t operator()(Text t) const { LOG.push_back({I, 't', t.s.size()}); return t.s.size(); } };
template <int I> struct OnOwner { u64 operator()(std::unique_ptr<u64> p) const { LOG.push_back({I, 'u', *p}); return *p; } };
template <int I> struct OnAny   { template <class... A> int operator()(A&&...) const { LOG.push_back({I, 'a', sizeof...(A)}); return -I; } };
template <int I> struct Counter { u64 n = 0; u64 operator()(u64 x, u64, u64) { LOG.push_back({I, 's', x}); return n += x; } };

static std::string key(const char* op) { return std::string(op) + "/" + wname<W>(); }
static void expect(const char* op, const char* how, int who, char kind, u64 val) {
    check_f(LOG.size() == 1 && LOG[0].who == who && LOG[0].how == kind && LOG[0].val == val, key(op) + ":call", [&] {
        std::string s = fmt("%s: expected one call of callable %d ('%c', value %llu), saw %zu:", how, who, kind, (unsigned long long)val, LOG.size());
        for (auto& e : LOG) s += fmt(" callable %d ('%c', value %llu)", e.who, e.how, (unsigned long long)e.val);
        return s; });
    LOG.clear();
}
static void result(const char* op, bool ok, const char* what) { check_f(ok, key(op) + ":result", [&] { return std::string(what); }); }

// Calls f; a result of another type means that another callable, or none, was chosen
template <class V, class F, class... A> static V got(const char* op, F& f, A&&... a) {
    using R = decltype(f(std::forward<A>(a)...));
    if constexpr (std::is_reference<V>::value ? std::is_same<R, V>::value : std::is_convertible<R, V>::value) return f(std::forward<A>(a)...);
    else { f(std::forward<A>(a)...); result(op, false, "the type of the result is not that of the first callable that accepts the arguments");
        static std::remove_cv_t<std::remove_reference_t<V>> none(0); return none; }
}

// Calls `f` with the n-th kind of argument; the callables of f and their order are described by T.
template <class F, class T> static void drive(Rng& r, F& f, const T& t, const char* name) {
    const u64 x = r.next() % 100000, y = r.next() % 1000; const unsigned k = (unsigned)r.below(9);
    describe([&] { return fmt("%s called with argument kind %u, value %llu", name, k, (unsigned long long)x); });
    enter(key(name).c_str());
    LOG.clear(); COPIES = MOVES = 0;
    switch (k) {
        case 0: { const W v = (W)x; if constexpr (T::word >= 0) { u64 g = got<u64>(name, f, v); expect(name, "a word", T::word, 'v', (u64)v); result(name, g == (u64)v * 3 + T::word, "the result of a call with a word changed"); } break; }
        case 1: if constexpr (T::lref >= 0) { Obj o(x); using L = std::conditional_t<T::lconst, const Obj&, Obj&>; L g = got<L>(name, f, o); expect(name, "an lvalue", T::lref, T::lconst ? 'c' : 'l', x);
                result(name, &g == &o && COPIES + MOVES == 0 && o.alive, "an lvalue was not passed and returned by reference"); } break;
        case 2: if constexpr (T::cref >= 0) { const Obj o(x); const Obj& g = got<const Obj&>(name, f, o); expect(name, "a const lvalue", T::cref, 'c', x);
                result(name, &g == &o && COPIES + MOVES == 0, "a const lvalue was not passed and returned by reference"); } break;
        case 3: if constexpr (T::rref >= 0) { Obj o(x); u64 g = got<u64>(name, f, std::move(o)); expect(name, "an rvalue", T::rref, 'r', x);
                result(name, g == x + T::rref && COPIES + MOVES == 0 && o.alive, "an rvalue was not passed on as an rvalue reference"); } break;
        case 4: if constexpr (T::pair >= 0) { u64 g = got<u64>(name, f, x, y); expect(name, "two values", T::pair, 'p', x * 1000 + y); result(name, g == x - y + T::pair, "arguments or result of a call with two values changed"); } break;
        case 5: if constexpr (T::none >= 0) { u64 g = got<u64>(name, f); expect(name, "no argument", T::none, 'n', 0); result(name, g == 77u + T::none, "the result of a call without arguments changed"); } break;
        case 6: if constexpr (T::text >= 0) { std::string s(x % 20, 'x'); std::size_t g = got<std::size_t>(name, f, s.c_str()); expect(name, "a convertible argument", T::text, 't', s.size()); result(name, g == s.size(), "the result of a converted call changed"); } break;
        case 7: if constexpr (T::owner >= 0) { u64 g = got<u64>(name, f, std::unique_ptr<u64>(new u64(x))); expect(name, "a move-only argument", T::owner, 'u', x); result(name, g == x, "the result of a call with a move-only argument changed"); } break;
        default: if constexpr (T::any >= 0) { int g = got<int>(name, f, "s", 1, 2.5, nullptr); expect(name, "four arguments", T::any, 'a', 4); result(name, g == -T::any, "the result of the fallback changed"); }
                 else { f("s", 1, 2.5, nullptr); check_f(LOG.empty(), key(name) + ":call", [&] { return std::string("a call that no callable accepts ran one"); }); } break;
    }
    (void)t;
    nontrivial(mix(k) ^ mix(x) ^ std::hash<std::string>()(name));
    count_class(fmt("%s/%u", name, k));
}
struct T1 { enum { word = 0, lref = 1, lconst = 0, cref = 3, rref = 2, pair = 4, none = 5, text = 6, owner = 7, any = 8 }; };
struct T2 { enum { word = 2, lref = 3, lconst = 1, cref = 3, rref = -1, pair = 0, none = 4, text = 1, owner = -1, any = -1 }; };
struct T3 { enum { word = -1, lref = -1, lconst = 0, cref = -1, rref = 0, pair = -1, none = 2, text = 1, owner = 3, any = -1 }; };

int main(int argc, char** argv) {
    return run(argc, argv, 0x10ad, [](Rng& r, u64 i) {
        switch (i % 5) {
            case 0: { auto f = bit::overload_linearly(OnWord<0>(), OnLRef<1>(), OnRRef<2>(), OnCRef<3>(), OnPair<4>(), OnNone<5>(), OnText<6>(), OnOwner<7>(), OnAny<8>());
                result("overload9", f.size() == 9 && !f.empty() && f.max_size() == 9, "size() of nine callables"); drive(r, f, T1(), "overload9"); break; }
            case 1: { // earlier callables win over later ones that would match as well
                auto f = bit::overload_linearly(OnPair<0>(), OnText<1>(), OnWord<2>(), OnCRef<3>(), OnNone<4>(), OnNone<5>(), OnLRef<6>(), OnPair<7>());
                drive(r, f, T2(), "overload-order"); break; }
            case 2: { OnRRef<0> a; OnText<1> b; OnNone<2> c; const OnOwner<3> d; auto f = bit::overload_linearly(a, b, c, d);   // by reference
                result("overload-lvalues", f.size() == 4 && &f.template get<0>() == &a && &f.template get<1>() == &b && &f.template get<3>() == &d, "lvalue callables are not held by reference");
                drive(r, f, T3(), "overload-lvalues"); break; }
            case 3: { // a callable with state keeps it over the calls, and in the caller's object when it was an lvalue
                describe([] { return std::string("stateful callable"); });
                enter(key("overload-state").c_str()); LOG.clear();
                Counter<0> a; auto f = bit::overload_linearly(a); auto g = bit::overload_linearly(OnNone<1>(), Counter<0>());
                u64 sum = 0, n = r.in(1, 20);
                for (u64 k = 0; k < n; ++k) { u64 x = r.below(1000); sum += x; result("overload-state", got<u64>("overload-state", f, x, x, x) == sum && got<u64>("overload-state", g, x, x, x) == sum, "state lost between calls"); }
                result("overload-state", a.n == sum && LOG.size() == 2 * n && f.template get<0>().n == sum && g.template get<Counter<0>>().n == sum, "calls did not reach the object");
                nontrivial(3 * 1000003 + sum); count_class("overload-state"); break; }
            default: {
                describe([] { return std::string("empty overload set"); });
                enter(key("overload-empty").c_str()); LOG.clear();
                auto f = bit::overload_linearly(); f(); f(1); f("x", 2, 3.0);
                result("overload-empty", f.empty() && f.size() == 0 && LOG.empty(), "an empty set ran something");
                count_class("overload-empty"); }
        }
    });
}
