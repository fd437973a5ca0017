// Small uses of the public interface that once did not compile or link. They are built only after a harness failed to
// build under the project's own compiler and standard, to tell a use that the library offers and that
// is gone (reported) from any other obstacle (an error). USE 0 is the control.
#include "bitlib/bitlib.hpp"
#include "bitlib/bit-iterator/linear_overload.hpp"
#include <cstdint>
#include <deque>
#include <memory>
#include <vector>
using namespace bit;
template <class T> struct Al {
    using value_type = T; int id;
    explicit Al(int i = 0) : id(i) {}
    template <class U> Al(const Al<U>& o) : id(o.id) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    friend bool operator==(const Al& a, const Al& b) { return a.id == b.id; }
    friend bool operator!=(const Al& a, const Al& b) { return a.id != b.id; }
};
int main() {
    std::vector<std::uint16_t> v(4, 5), w(4, 0);
    const std::vector<std::uint16_t> cv(v);
    bit_iterator<std::vector<std::uint16_t>::iterator> f(v.begin()), l(v.end()), d(w.begin());
    bit_iterator<std::vector<std::uint16_t>::const_iterator> cf(cv.begin()), cl(cv.end());
    (void)f; (void)l; (void)d; (void)cf; (void)cl;
#if USE == 0
    copy(f, l, d);
    bit_vector<std::uint16_t> b(20, bit1); return b.size() == 20 && count(b.begin(), b.end(), bit1) == 20 ? 0 : 1;
#elif USE == 1
    copy(cf, cl, d); bit::move(cf, cl, d); return v == w ? 0 : 1;
#elif USE == 2
    copy_backward(cf, cl, d + 64); return v == w ? 0 : 1;
#elif USE == 4
    std::deque<std::uint16_t> q(3, 1); using I = bit_iterator<std::deque<std::uint16_t>::iterator>;
    return count(I(q.begin()), I(q.end()), bit1) == 3 ? 0 : 1;
#elif USE == 5
    return find(cf, cl, bit1) == cf ? 0 : 1;
#elif USE == 6
    return equal(cf, cl, f) ? 0 : 1;
#elif USE == 9
    std::uint16_t a[3] = {1, 2, 3}; using I = bit_iterator<std::uint16_t*>;
    shift_left(I(a), I(a + 3), 16); shift_right(I(a), I(a + 3), 16); return a[1] == 2 ? 0 : 1;
#elif USE == 10
    std::uint16_t a[4] = {1, 2, 3, 4}; using I = bit_iterator<std::uint16_t*>;
    return swap_ranges(f, l, I(a)) == I(a + 4) && a[0] == 5 && v[3] == 4 ? 0 : 1;
#elif USE == 17
    bit_vector<std::uint16_t> b{bit1, bit0, bit1}; return b.size() == 3 && b[0] == bit1 && b[1] == bit0 ? 0 : 1;
#elif USE == 22
    bit_iterator<std::vector<std::uint16_t>::const_iterator> c; c = f; ++c; return c == f + 1 ? 0 : 1;
#elif USE == 23
    std::uint16_t a = 0; bit_pointer<std::uint16_t> p(&a, 3); bit_pointer<const std::uint16_t> c; c = p; return c == p ? 0 : 1;
#elif USE == 25
    bit_vector<std::uint16_t> b(12, bit1); return b.debug_string(b.cbegin() + 1, b.cend()) == "11111111.111" ? 0 : 1;
#elif USE == 21
    const bit_vector<std::uint16_t> b(20, bit1); bool r = b[3] == bit1 && b.at(4) == bit1 && *b.begin() == bit1 && *b.cbegin() == bit1;
    return r ? 0 : 1;
#elif USE == 24
    bit_value x(1u); std::uint16_t a = 0; bit_reference<std::uint16_t> r(a, 2); x.swap(r); return a == 4 ? 0 : 1;
#elif USE == 33
    std::vector<std::uint8_t> n(4, 0); bit_iterator<std::vector<std::uint8_t>::iterator> i(n.begin(), 3);
    write_word<std::uint16_t>(0xffff, i, 11); return n[0] == 0xf8 && n[1] == 0x3f && n[2] == 0 ? 0 : 1;
#elif USE == 34
    auto o = overload_linearly([](int x) { return x + 1; }, [](int x, int y) { return x * y; }, [](std::unique_ptr<int> p) { return *p; }, [] { return 7; });
    return o(1) == 2 && o(2, 3) == 6 && o() == 7 && o(std::unique_ptr<int>(new int(9))) == 9 ? 0 : 1;
#elif USE == 35
    using V = bit_vector<std::uint16_t, Al<std::uint16_t>>; V a(Al<std::uint16_t>(1)); a.push_back(bit1); V b(a, Al<std::uint16_t>(2));
    return b.size() == 1 ? 0 : 1;
#endif
}
