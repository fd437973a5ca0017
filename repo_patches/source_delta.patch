From 5786e5053df5646917cfeb38285d6f07d40d4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 01/39] fix: _bitblend must not shift by the full word width

Blending a whole word evaluated 'one << len' with len equal to the number of
digits (undefined behaviour for 32 and 64-bit words), and a negative left
shift for narrow words. copy_backward, reverse and rotate reach it.
---
 include/bitlib/bit-iterator/bit_details.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..36b73dc 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -756,8 +756,10 @@ constexpr T _bitblend(T src0, T src1, T start, T len) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = ((one << len) * (len < digits) - one) << start;
-    return src0 ^ ((src0 ^ src1) & msk * (start < digits));
+    const T low = (len < digits) ? static_cast<T>((one << len) - one)
+                                 : static_cast<T>(~T());
+    const T msk = (start < digits) ? static_cast<T>(low << start) : T();
+    return src0 ^ ((src0 ^ src1) & msk);
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0


From 8cd267a16d3a4c008ca99afe57e1b52e1ff54136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 02/39] fix: count must not read past an empty range

An empty range at the end of its storage (or of an empty bit_vector) was
counted by reading the word that the end iterator points to.
---
 include/bitlib/bit-algorithms/count.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..1ce7ea2 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -48,6 +48,7 @@ count(
 
     // Initialization
     difference_type result = 0;
+    if (first == last) return result;
 
     // Computation when bits belong to several underlying words
     if (first.base() != last.base()) {
@@ -93,7 +94,9 @@ count(
             //);
 
             // libpopcnt
-            result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            if (it != last.base()) {
+                result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            }
         }
         if (last.position() != 0) {
             word_type last_value = *last.base() << (digits - last.position());
-- 
2.43.0


From 24e4a8920ff14c88d2e400a937f7519c31ec1637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 03/39] fix: rotate(first, last, last) is the identity and
 returns first

With the middle at the end, rotating one whole word shifted by the full word
width and returned last, and the other cases read the word past the range.
---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From 3c3c9940d5258c0452c8f7bf777bbec00e1ece3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 04/39] fix: shifts by out-of-range amounts must not form
 overflowing pointers

shift_left and shift_right offset an iterator by n before testing whether n
lies inside the range.
---
 include/bitlib/bit-algorithms/shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index e598e0c..cdb64d8 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -62,7 +62,6 @@ bit_iterator<RandomAccessIt> shift_left(
     auto d = bit::distance(first, last);
     const bool is_first_aligned = first.position() == 0;
     const bool is_last_aligned = last.position() == 0;
-    auto middle = first + n;
 
     // Out of range cases
     if (n <= 0) return last;
@@ -71,6 +70,7 @@ bit_iterator<RandomAccessIt> shift_left(
         //bit::fill(first, last, bit::bit0);    
         return first;
     }
+    auto middle = first + n;
 
     // Single word case
     // Triggered if all relevant bits are in first.base()
@@ -252,11 +252,11 @@ bit_iterator<RandomAccessIt> shift_right(
     const bool is_last_aligned = last.position() == 0;
     constexpr auto digits = binary_digits<word_type>::value;
     auto d = bit::distance(first, last);
-    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Out of range cases
     if (n <= 0) return first;
     else if (n >= d) return last;
+    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Single word case
     if (std::next(first.base(), is_last_aligned) == last.base()) {
-- 
2.43.0


From 061d27853f7c6f89cba69c1d21855078156e89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:33 +0000
Subject: [PATCH 05/39] fix: load unaligned words through memcpy when counting
 bits

Counting a range of 8, 16 or 32-bit words dereferenced misaligned pointers to
64-bit words, which is undefined behaviour (alignment and aliasing).
---
 include/bitlib/bit-algorithms/libpopcnt.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/libpopcnt.h b/include/bitlib/bit-algorithms/libpopcnt.h
index ffcd976..d6bcdd3 100644
--- a/include/bitlib/bit-algorithms/libpopcnt.h
+++ b/include/bitlib/bit-algorithms/libpopcnt.h
@@ -630,7 +630,11 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
     {
       /* We use unaligned memory accesses here to improve performance */
       for (; i < size - size % 8; i += 8)
-        cnt += popcnt64(*(const uint64_t*)(ptr + i));
+      {
+        uint64_t val;
+        memcpy(&val, ptr + i, sizeof(val));
+        cnt += popcnt64(val);
+      }
       for (; i < size; i++)
         cnt += popcnt64(ptr[i]);
 
@@ -645,7 +649,11 @@ static inline uint64_t popcnt(const void* data, uint64_t size)
    * We use unaligned memory accesses here to improve performance.
    */
   for (; i < size - size % 8; i += 8)
-    cnt += popcount64(*(const uint64_t*)(ptr + i));
+  {
+    uint64_t val;
+    memcpy(&val, ptr + i, sizeof(val));
+    cnt += popcount64(val);
+  }
 
   if (i < size)
   {
-- 
2.43.0


From b9d0d906d4c8e850ccaee852de72ad565c39ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 06/39] fix: _bextr must not shift by the full word width

Extracting a whole word, or starting at its end, evaluated a shift by the
number of digits (undefined behaviour for 32 and 64-bit words).
---
 include/bitlib/bit-iterator/bit_details.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 36b73dc..bf21b33 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -538,8 +538,9 @@ constexpr T _bextr(T src, T start, T len, X...) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = (one << len) * (len < digits) - one;
-    return (src >> start) & msk * (start < digits);
+    const T msk = (len < digits) ? static_cast<T>((one << len) - one)
+                                 : static_cast<T>(~T());
+    return (start < digits) ? static_cast<T>((src >> start) & msk) : T();
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0


From 3d40a24ac49ccfe6276acd299fdcece4b17dc90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 07/39] fix: _shld and _shrd by 0 or by two words must not
 shift by the word width

A count of 0 evaluated a shift by the number of digits (undefined behaviour
for 32 and 64-bit words; in practice the result was dst | src).
---
 include/bitlib/bit-iterator/bit_details.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index bf21b33..c287b78 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -861,10 +861,10 @@ constexpr T _shld(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt > 0 && cnt < digits) {
         dst = (dst << cnt) | (src >> (digits - cnt));
-    } else {
-        dst = (src << (cnt - digits)) * (cnt < digits + digits);
+    } else if (cnt > 0) {
+        dst = (cnt - digits < digits) ? static_cast<T>(src << (cnt - digits)) : T();
     }
     return dst;
 }
@@ -879,10 +879,10 @@ constexpr T _shrd(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt > 0 && cnt < digits) {
         dst = (dst >> cnt) | (src << (digits - cnt));
-    } else {
-        dst = (src >> (cnt - digits)) * (cnt < digits + digits);
+    } else if (cnt > 0) {
+        dst = (cnt - digits < digits) ? static_cast<T>(src >> (cnt - digits)) : T();
     }
     return dst;
 }
-- 
2.43.0


From 7f3cf121933678039ff100015d73d1eb044fa968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 08/39] fix: resize(count, value) must fill from the old end,
 not the new one

The new bits were never written: fill started at begin() + length_ after
length_ had already been set to the new size.
---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..321cbf0 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -621,7 +621,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From cb1f8e01f2d69f023eb21cf1ac827cbcbdbc1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 09/39] fix: resize(count) must append zero bits

Growing within the last partial word exposed whatever stale bits erase,
pop_back, a shrinking resize or a fill constructor had left there.
---
 include/bitlib/bit-containers/bit_vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 321cbf0..148f70d 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
-- 
2.43.0


From 84caff2c6e8a6481fe7614ad64341bef6f2a4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 10/39] fix: construct from bit, bool and string ranges with
 words for the bits

The length in bits was used as the number of words, so these vectors held
digits times the storage they need, and later insert/erase/pop_back treat
the surplus words inconsistently.
---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 148f70d..f850500 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -223,7 +223,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
         bit_iterator<RandomAccessIt> first,
         bit_iterator<RandomAccessIt> last,
         const Allocator& alloc)
-    : word_vector(distance(first, last), alloc), length_(distance(first, last)) {
+    : word_vector(word_count(distance(first, last)), alloc), length_(distance(first, last)) {
     copy(first, last, this->begin());
 }
 
@@ -275,7 +275,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::string_view s) {
     this->length_ = std::count(s.begin(), s.end(), '0') + std::count(s.begin(), s.end(), '1');
-    this->word_vector = std::vector<WordType, Allocator>(this->length_);
+    this->word_vector = std::vector<WordType, Allocator>(word_count(this->length_));
     size_type i = 0;
     for (char c : s) {
         if (c == '0') {
@@ -300,7 +300,7 @@ constexpr bit_vector<WordType, Allocator>::range_constructor(
         RandomAccessIt first,
         RandomAccessIt last,
         const Allocator& alloc) {
-    word_vector = std::vector<WordType, Allocator>(std::distance(first, last), alloc);
+    word_vector = std::vector<WordType, Allocator>(word_count(std::distance(first, last)), alloc);
     length_ = std::distance(first, last);
     std::transform(
             first,
-- 
2.43.0


From 843a2da8a36e7d0948b422fc75e991bd074e58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 11/39] fix: the move constructors must move

They took const bit_vector&&, so they copied the words: an allocation in a
noexcept function, and a source left unchanged.
---
 include/bitlib/bit-containers/bit_vector.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f850500..0770f18 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -112,8 +112,8 @@ class bit_vector {
                 const Allocator& alloc=Allocator());
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other) = default;
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc);
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept;
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
         constexpr bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<bool> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<WordType> init, const Allocator& alloc=Allocator());
@@ -242,12 +242,17 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 }
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
-    : word_vector(std::move(other.word_vector)), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
+    : word_vector(std::move(other.word_vector)), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
-    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
+    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {
+    other.word_vector.clear();
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
-- 
2.43.0


From 6c51b3b5685c7ec816b581c670e2342e3e7cb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 12/39] fix: count the words of a bit_vector in size_type

word_count took unsigned int, so 2^32 bits and more were given too few
words.
---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 0770f18..48fcf4f 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,8 +41,8 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
-            return ((num_bits + digits - 1) / digits);
+        constexpr std::size_t word_count(std::size_t num_bits) {
+            return num_bits / digits + (num_bits % digits != 0);
         }
 
         // Iterator pair constructor specializations
-- 
2.43.0


From c164e32c9b4b741cac3a0effc39f87d91b902b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 13/39] fix: insert must compute the available bits exactly

As a float the number of bits loses its low digits above 2^24, so insert
could add too few words and write past the storage.
---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 48fcf4f..ca76887 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -534,7 +534,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -557,7 +557,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    const size_type bits_available = word_vector.size()*digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From 27d7abe60cc603b8bc7608c9edea50e2095d9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 14/39] fix: copy_backward must not step before the first
 destination word

---
 include/bitlib/bit-algorithms/copy_backward.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 55bd6f6..42b4f5a 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -76,7 +76,6 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
             it = ::std::copy_backward(first.base() + 1, last.base(), it);
             last -= digits * N;
             remaining_bits_to_copy -= digits * N;
-            it--;
         } else {
             // TODO benchmark if its faster to ::std::copy the entire range then shift
             while (remaining_bits_to_copy >= digits) {
@@ -84,9 +83,9 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
                 remaining_bits_to_copy -= digits;
                 advance(last, -digits);
             }
-            it--;
         }
         if (remaining_bits_to_copy > 0) {
+            it--;
             *it = _bitblend<word_type>(
                     *it,
                     get_word<word_type>(last - remaining_bits_to_copy, remaining_bits_to_copy)
-- 
2.43.0


From ec7b93e69c5198c9d4c4a5824646f98a20c7522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 15/39] fix: shift_right must not form iterators before the
 first word

---
 include/bitlib/bit-algorithms/shift.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index cdb64d8..7fd850a 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -320,7 +320,7 @@ bit_iterator<RandomAccessIt> shift_right(
 #ifdef BITLIB_HWY
         // Align to 64 bit boundary
         const hn::ScalableTag<word_type> d;
-        while (std::prev(middle.base()) > first.base() && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
+        while (std::distance(first.base(), middle.base()) > hn::Lanes(d) + 1 && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
             *std::prev(last.base()) = _shrd<word_type>(*std::prev(middle.base()), *middle.base(), offset);
             last -= digits;
             middle -= digits;
@@ -341,24 +341,24 @@ bit_iterator<RandomAccessIt> shift_right(
         }
 #endif
 
-        auto last_base_prev   = std::prev(last.base());
-        auto middle_base_prev = std::prev(middle.base());
+        auto last_base   = last.base();
+        auto middle_base = middle.base();
 
-        while (middle_base_prev > first.base()) {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+        while (std::prev(middle_base) > first.base()) {
+            *std::prev(last_base) = _shrd<word_type>(*std::prev(middle_base), *middle_base, offset);
+            last_base--;
+            middle_base--;
         }
 
         if (first.position() <= middle.position())
         {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+            *std::prev(last_base) = _shrd<word_type>(*std::prev(middle_base), *middle_base, offset);
+            last_base--;
+            middle_base--;
         }
 
-        last = bit_iterator<RandomAccessIt>(std::next(last_base_prev), last.position());
-        middle = bit_iterator<RandomAccessIt>(std::next(middle_base_prev), middle.position());
+        last = bit_iterator<RandomAccessIt>(last_base, last.position());
+        middle = bit_iterator<RandomAccessIt>(middle_base, middle.position());
     }
 
     if (first.position() != middle.position())
-- 
2.43.0


From fdcd357aad3627fb5bb3d4601e18309e0d8f8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 16/39] fix: transform must not dereference the end of the
 destination

---
 include/bitlib/bit-algorithms/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index 8857788..7cde5e7 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -87,7 +87,7 @@ constexpr bit_iterator<RandomAccessIt> transform(
                     *it = unary_op(*firstIt);
                 }
 
-                bool out_is_aligned = is_aligned(&*it, 64);
+                bool out_is_aligned = firstIt != last.base() && is_aligned(&*it, 64);
 
                 constexpr hn::ScalableTag<word_type> d;
                 for (; std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
-- 
2.43.0


From c7faa5da860a12d6b3510e0b8e73d9dc3394282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 17/39] fix: erase(pos) must not return an iterator into a
 removed word

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index ca76887..d9c4e51 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -572,12 +572,13 @@ bit_vector<WordType, Allocator>::insert(
 template<class WordType, class Allocator>
 constexpr typename bit_vector<WordType, Allocator>::iterator
 bit_vector<WordType, Allocator>::erase(iterator pos) {
+    const auto d = distance(begin(), pos);
     shift_left(pos, begin() + length_, 1);
     length_ -= 1;
     if (length_ % digits == 0) {
         word_vector.pop_back();
     }
-    return pos;
+    return begin() + d;
 }
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 0d0e59f7ec5aae84a12c34bafa4150dfc02b37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 18/39] fix: shift words of raw pointer ranges before C++20

---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..c6e6fdf 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -279,11 +279,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_left(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
     if (n <= 0) return last;
-    if (n >= distance(first, last)) return first;
+    if (n >= std::distance(first, last)) return first;
     RandomAccessIt mid = first + n;
     auto ret = std::move(mid, last, first);
     return ret;
@@ -296,10 +296,10 @@ RandomAccessIt word_shift_left(RandomAccessIt first,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_right(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
-    auto d = distance(first, last);
+    auto d = std::distance(first, last);
     if (n <= 0) return first;
     if (n >= d) return last;
     std::move_backward(first, last-n, last);
-- 
2.43.0


From 180615e384faf700e4303b405d86e690060cef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 19/39] fix: treat words as contiguous only where the iterator
 guarantees it

count() handed &*it and a length to libpopcnt, and the highway paths loaded and
stored vectors through &*it, for every random access iterator. Over the words of
a std::deque these read and wrote outside its blocks.
---
 include/bitlib/bit-algorithms/count.hpp     | 10 ++++--
 include/bitlib/bit-algorithms/fill.hpp      |  2 +-
 include/bitlib/bit-algorithms/find.hpp      |  2 +-
 include/bitlib/bit-algorithms/shift.hpp     |  4 +--
 include/bitlib/bit-algorithms/transform.hpp |  2 +-
 include/bitlib/bit-iterator/bit_details.hpp | 39 +++++++++++++++++++++
 6 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1ce7ea2..44bba20 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -94,8 +94,14 @@ count(
             //);
 
             // libpopcnt
-            if (it != last.base()) {
-                result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            if constexpr (_is_contiguous_iterator<RandomAccessIt>::value) {
+                if (it != last.base()) {
+                    result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+                }
+            } else {
+                for (; it != last.base(); ++it) {
+                    result += _popcnt(*it);
+                }
             }
         }
         if (last.position() != 0) {
diff --git a/include/bitlib/bit-algorithms/fill.hpp b/include/bitlib/bit-algorithms/fill.hpp
index 08f9c61..5419e69 100644
--- a/include/bitlib/bit-algorithms/fill.hpp
+++ b/include/bitlib/bit-algorithms/fill.hpp
@@ -68,7 +68,7 @@ void fill(bit_iterator<RandomAccessIt> first, bit_iterator<RandomAccessIt> last,
         }
         const hn::ScalableTag<word_type> d;
         const auto fill_vec = bv == bit0 ? hn::Set(d, 0) : hn::Set(d, ones);
-        for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
+        for (; _is_contiguous_iterator<RandomAccessIt>::value && std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
         {
             hn::Store(fill_vec, d, &*it);
         }
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index b35583c..89e44d5 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -80,7 +80,7 @@ constexpr bit_iterator<RandomAccessIt> find(
     // SIMD
     hn::ScalableTag<word_type> d;
     const auto z = hn::Zero(d);
-    for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
+    for (; _is_contiguous_iterator<RandomAccessIt>::value && std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
     {
         auto v = hn::Load(d, &*it);
         if (bv == bit0)
diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index 7fd850a..6d69aab 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -192,7 +192,7 @@ bit_iterator<RandomAccessIt> shift_left(
     }
 
     const hn::ScalableTag<word_type> d_tag;
-    while (std::distance(middle.base(), last.base()) >= hn::Lanes(d_tag) + 10 + !is_last_aligned)
+    while (_is_contiguous_iterator<RandomAccessIt>::value && std::distance(middle.base(), last.base()) >= hn::Lanes(d_tag) + 10 + !is_last_aligned)
     {
         const auto v = hn::ShiftRightSame(hn::LoadU(d_tag, &*middle.base()), offset);
         const auto v_plus1 = hn::ShiftLeftSame(hn::LoadU(d_tag, &*(middle.base()+1)), digits - offset);
@@ -326,7 +326,7 @@ bit_iterator<RandomAccessIt> shift_right(
             middle -= digits;
         }
 
-        while (std::distance(first.base(), middle.base()) > hn::Lanes(d) + 1)
+        while (_is_contiguous_iterator<RandomAccessIt>::value && std::distance(first.base(), middle.base()) > hn::Lanes(d) + 1)
         {
             const auto v = hn::ShiftRightSame(
                     hn::LoadU(d, &*(middle.base() - hn::Lanes(d))),
diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index 7cde5e7..4eb00de 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -90,7 +90,7 @@ constexpr bit_iterator<RandomAccessIt> transform(
                 bool out_is_aligned = firstIt != last.base() && is_aligned(&*it, 64);
 
                 constexpr hn::ScalableTag<word_type> d;
-                for (; std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
+                for (; _is_contiguous_iterator<RandomAccessIt>::value && std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
                 {
                     const auto v = hn::Not(hn::Load(d, &*firstIt));
                     if (out_is_aligned)
diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index c287b78..d17dd0c 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -20,6 +20,7 @@
 #include <cassert>
 #include <cstdint>
 #include <utility>
+#include <vector>
 #include <iterator>
 #include <algorithm>
 #include <stdexcept>
@@ -94,6 +95,44 @@ struct _cv_iterator_traits
 
 
 
+/* ********** IMPLEMENTATION DETAILS: CONTIGUOUS ITERATOR DETECTION ********* */
+// Is contiguous iterator structure definition: whether the words after *it
+// can also be reached through a pointer to *it
+#if defined(__cpp_lib_concepts)
+template <class Iterator>
+struct _is_contiguous_iterator
+: std::integral_constant<bool, std::contiguous_iterator<Iterator>>
+{
+};
+#else
+template <class Iterator>
+struct _is_contiguous_iterator
+: std::integral_constant<
+    bool,
+    std::is_pointer<Iterator>::value
+    || std::is_same<Iterator, typename std::vector<
+        typename std::iterator_traits<Iterator>::value_type
+    >::iterator>::value
+    || std::is_same<Iterator, typename std::vector<
+        typename std::iterator_traits<Iterator>::value_type
+    >::const_iterator>::value
+>
+{
+};
+
+#if defined(__GLIBCXX__)
+// Is contiguous iterator structure specialization: libstdc++ vectors
+template <class Pointer, class Container>
+struct _is_contiguous_iterator<__gnu_cxx::__normal_iterator<Pointer, Container>>
+: std::is_pointer<Pointer>
+{
+};
+#endif
+#endif
+/* ************************************************************************** */
+
+
+
 /* *********** IMPLEMENTATION DETAILS: NARROWEST AND WIDEST TYPES *********** */
 // Narrowest type structure declaration
 template <class... T>
-- 
2.43.0


From fe216e5fcb60218750d20806a4ff5701aef7349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 20/39] fix: keep the other bits when writing a narrow word
 into wider ones

---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index c6e6fdf..ce6514f 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -222,18 +222,18 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             *dst_bit_it.base() = src;
         }
         else {
-            *dst_bit_it.base() = _bitblend<src_type>(
+            *dst_bit_it.base() = _bitblend<dst_type>(
                    *dst_bit_it.base(),
-                   src << dst_bit_it.position(),
+                   static_cast<dst_type>(src) << dst_bit_it.position(),
                    dst_bit_it.position(),
-                   std::min<src_type>(
+                   std::min<dst_type>(
                        dst_digits - dst_bit_it.position(),
                        len
                    )
             );
             if (len > dst_digits - dst_bit_it.position()) {
                 OutputIt overflow_dst = std::next(dst_bit_it.base());
-                *overflow_dst = _bitblend<src_type>(
+                *overflow_dst = _bitblend<dst_type>(
                         *overflow_dst,
                         src >> (dst_digits - dst_bit_it.position()),
                         0,
-- 
2.43.0


From 641c577f27f2a68739ff78b9dfc4fe5f1b0db463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 21/39] fix: let bit_vector be used with any allocator

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index d9c4e51..bf7ce7b 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -84,8 +84,8 @@ class bit_vector {
         using reference = bit_reference<WordType>;
         using const_reference = const reference;
         using pointer = bit_pointer<WordType>;
-        using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
+        using const_iterator = bit_iterator<const typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
-- 
2.43.0


From a08855da79ba09feb3b6a75970dc7919f3119368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 22/39] fix: define the copy constructor with an allocator

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index bf7ce7b..05d3630 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -241,6 +241,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {
-- 
2.43.0


From 7c6163e012d58e40263f44669933c9828b15e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 23/39] fix: construct from a range in the storage of the given
 allocator

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 05d3630..4a21939 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -233,7 +233,8 @@ template<class RandomAccessIt>
 constexpr bit_vector<WordType, Allocator>::bit_vector(
         RandomAccessIt first,
         RandomAccessIt last,
-        const Allocator& alloc) {
+        const Allocator& alloc)
+    : word_vector(alloc) {
     bit_vector<WordType, Allocator>::range_constructor(
         first,
         last,
-- 
2.43.0


From 89add63f5f0bb100d197b4b7d93beba3f466f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 24/39] fix: keep size and storage in step when moving between
 unequal allocators

---
 include/bitlib/bit-containers/bit_vector.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 4a21939..bb51bb1 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -130,7 +130,8 @@ class bit_vector {
          * Assignment
          */
         constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;
-        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other)
+                noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value);
 
 
         /*
@@ -352,9 +353,10 @@ constexpr bit_vector<WordType, Allocator>::~bit_vector() {
 // ------------------------ BIT VECTOR: ASSIGNMENT ------------------------ //
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>&
-bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other) noexcept {
-    length_ = other.length_;
+bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other)
+        noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value) {
     word_vector = std::move(other.word_vector);
+    length_ = other.length_;
     other.length_ = 0;
     return *this;
 }
-- 
2.43.0


From 49c09c09dfa2a71cca60e53b8a6865b3ad149997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 25/39] fix: keep size and storage in step when a propagating
 copy assignment fails

---
 include/bitlib/bit-containers/bit_vector.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index bb51bb1..3bff451 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -129,7 +129,7 @@ class bit_vector {
         /*
          * Assignment
          */
-        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;
+        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other);
         constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other)
                 noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value);
 
@@ -351,6 +351,20 @@ constexpr bit_vector<WordType, Allocator>::~bit_vector() {
 
 
 // ------------------------ BIT VECTOR: ASSIGNMENT ------------------------ //
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>&
+bit_vector<WordType, Allocator>::operator=(const bit_vector<WordType, Allocator>& other) {
+    if constexpr (std::allocator_traits<Allocator>::propagate_on_container_copy_assignment::value) {
+        if (word_vector.get_allocator() != other.word_vector.get_allocator()) {
+            // The words are released before new ones are allocated
+            length_ = 0;
+        }
+    }
+    word_vector = other.word_vector;
+    length_ = other.length_;
+    return *this;
+}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>&
 bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other)
-- 
2.43.0


From eeeb188478db24db48607bcea9054e45a61bd641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 26/39] fix: count the bits of a debug string without integer
 overflow

With 2^31 bits or more the counter overflowed (undefined behaviour), and
where it passed zero again a separator was missing.
---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 3bff451..9edf7c0 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -660,7 +660,7 @@ template<class WordType, class Allocator>
 constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
     iterator mem = first;
-    auto position = 0;
+    size_type position = 0;
     for (iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
@@ -680,7 +680,7 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string() {
     auto last = end();
     std::string ret = "";
     iterator mem = first;
-    auto position = 0;
+    size_type position = 0;
     for (iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
-- 
2.43.0


From b5c5e5022d0b2d21f6be18a17db9e703c3484f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 27/39] fix: refuse to insert more bits than can exist

---
 include/bitlib/bit-containers/bit_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 9edf7c0..95da268 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -18,6 +18,8 @@
 #include <string>
 #include <iostream>
 #include <algorithm>
+#include <limits>
+#include <stdexcept>
 #include <vector>
 #include <type_traits>
 // Project sources
@@ -555,6 +557,9 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
+    if (count > static_cast<size_type>(std::numeric_limits<difference_type>::max()) - length_) {
+        throw std::length_error("Too many bits to insert");
+    }
     const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
-- 
2.43.0


From 0b8d017dd4aae137679face947c1d1740a704330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 28/39] fix: let the elements of a const bit_vector be read

---
 include/bitlib/bit-containers/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 95da268..d96b170 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -84,10 +84,10 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
         using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType, Allocator>::const_iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
@@ -140,7 +140,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -386,7 +386,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
-- 
2.43.0


From f015648e549c366df3425def6934a45585bc38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 29/39] fix: let bits be read out of const words

---
 include/bitlib/bit-algorithms/copy.hpp          | 2 +-
 include/bitlib/bit-algorithms/copy_backward.hpp | 2 +-
 include/bitlib/bit-algorithms/equal.hpp         | 4 ++--
 include/bitlib/bit-algorithms/find.hpp          | 2 +-
 include/bitlib/bit-algorithms/move.hpp          | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy.hpp b/include/bitlib/bit-algorithms/copy.hpp
index 2d50751..bee95c4 100644
--- a/include/bitlib/bit-algorithms/copy.hpp
+++ b/include/bitlib/bit-algorithms/copy.hpp
@@ -35,7 +35,7 @@ constexpr bit_iterator<RandomAccessIt2> copy(bit_iterator<RandomAccessIt1> first
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 42b4f5a..fa16896 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -32,7 +32,7 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/equal.hpp b/include/bitlib/bit-algorithms/equal.hpp
index e3fb144..0fbcbda 100644
--- a/include/bitlib/bit-algorithms/equal.hpp
+++ b/include/bitlib/bit-algorithms/equal.hpp
@@ -34,8 +34,8 @@ constexpr bool equal(
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index 89e44d5..cbe59da 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -36,7 +36,7 @@ constexpr bit_iterator<RandomAccessIt> find(
         bit_iterator<RandomAccessIt> last, bit::bit_value bv
 ) {
 
-    using word_type = typename bit_iterator<RandomAccessIt>::word_type;
+    using word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt>::word_type>::type;
     using size_type = typename bit_iterator<RandomAccessIt>::size_type;
     const std::size_t digits = binary_digits<word_type>::value;
 
diff --git a/include/bitlib/bit-algorithms/move.hpp b/include/bitlib/bit-algorithms/move.hpp
index 401cbfd..3fa532d 100644
--- a/include/bitlib/bit-algorithms/move.hpp
+++ b/include/bitlib/bit-algorithms/move.hpp
@@ -30,7 +30,7 @@ constexpr bit_iterator<RandomAccessIt2> move(bit_iterator<RandomAccessIt1> first
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
-- 
2.43.0


From 2e1adf15d561a99c99a2f9ad3e0bdc3f2bef0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 30/39] fix: let a bit value be swapped with a reference

---
 include/bitlib/bit-iterator/bit_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_value.hpp b/include/bitlib/bit-iterator/bit_value.hpp
index 0fd6ee4..88dcba1 100644
--- a/include/bitlib/bit-iterator/bit_value.hpp
+++ b/include/bitlib/bit-iterator/bit_value.hpp
@@ -287,7 +287,7 @@ void bit_value::swap(
     bit_reference<T> other
 ) noexcept
 {
-    if (other != _value) {
+    if (other != *this) {
         flip();
         other.flip();
     }
-- 
2.43.0


From 94df5e67c2ad998a89edeec4c58af65579400f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 31/39] fix: leave a character that is not a bit in the stream

---
 include/bitlib/bit-iterator/bit_reference.hpp | 9 +++------
 include/bitlib/bit-iterator/bit_value.hpp     | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_reference.hpp b/include/bitlib/bit-iterator/bit_reference.hpp
index 9344158..ecf22d5 100644
--- a/include/bitlib/bit-iterator/bit_reference.hpp
+++ b/include/bitlib/bit-iterator/bit_reference.hpp
@@ -462,22 +462,19 @@ std::basic_istream<CharT, Traits>& operator>>(
     bit_value tmp = x;
     if (sentry) {
         try {
-            int_value = is.rdbuf()->sbumpc();
+            int_value = is.rdbuf()->sgetc();
             if (traits_type::eq_int_type(int_value, eof)) {
                 state |= ios_base::eofbit;
             } else {
                 char_value = traits_type::to_char_type(int_value);
                 if (traits_type::eq(char_value, is.widen(zero))) {
+                    is.rdbuf()->sbumpc();
                     tmp.reset();
                     ok = true;
                 } else if (traits_type::eq(char_value, is.widen(one))) {
+                    is.rdbuf()->sbumpc();
                     tmp.set();
                     ok = true;
-                } else {
-                    int_value = is.rdbuf()->sputbackc(char_value);
-                    if (traits_type::eq_int_type(int_value, eof)) {
-                        state |= ios_base::failbit;
-                    }
                 }
             }
         } catch(...) {
diff --git a/include/bitlib/bit-iterator/bit_value.hpp b/include/bitlib/bit-iterator/bit_value.hpp
index 88dcba1..1553b57 100644
--- a/include/bitlib/bit-iterator/bit_value.hpp
+++ b/include/bitlib/bit-iterator/bit_value.hpp
@@ -456,22 +456,19 @@ std::basic_istream<CharT, Traits>& operator>>(
     bit_value tmp = x;
     if (sentry) {
         try {
-            int_value = is.rdbuf()->sbumpc();
+            int_value = is.rdbuf()->sgetc();
             if (traits_type::eq_int_type(int_value, eof)) {
                 state |= ios_base::eofbit;
             } else {
                 char_value = traits_type::to_char_type(int_value);
                 if (traits_type::eq(char_value, is.widen(zero))) {
+                    is.rdbuf()->sbumpc();
                     tmp.reset();
                     ok = true;
                 } else if (traits_type::eq(char_value, is.widen(one))) {
+                    is.rdbuf()->sbumpc();
                     tmp.set();
                     ok = true;
-                } else {
-                    int_value = is.rdbuf()->sputbackc(char_value);
-                    if (traits_type::eq_int_type(int_value, eof)) {
-                        state |= ios_base::failbit;
-                    }
                 }
             }
         } catch(...) {
-- 
2.43.0


From 3c3ef734992fc1fa5e120613875e71a941ec7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 32/39] fix: write words into narrower words

---
 .../bit-algorithms/bit_algorithm_details.hpp  | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index ce6514f..b05d59e 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -244,16 +244,21 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
     } else {
         OutputIt it = dst_bit_it.base();
         if (dst_bit_it.position() != 0) {
-            *it = _bitblend(
+            const dst_type bits = std::min<src_type>(
+                    dst_digits - dst_bit_it.position(),
+                    len
+            );
+            *it = _bitblend<dst_type>(
                     *it,
-                    static_cast<dst_type>(src),
-                    static_cast<dst_type>(-1) << dst_bit_it.position()
+                    static_cast<dst_type>(src << dst_bit_it.position()),
+                    dst_bit_it.position(),
+                    bits
             );
-            len -= dst_digits - dst_bit_it.position();
+            len -= bits;
             // TODO would it be faster to jsut shift src every time it is
             // passed as an argument and keep track of how much we need to
             // shift?
-            src >>= dst_digits - dst_bit_it.position();
+            src >>= bits;
             ++it;
         }
         while (len >= dst_digits) {
@@ -263,10 +268,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             ++it;
         }
         if (len > 0 ) {
-            *it = _bitblend(
+            *it = _bitblend<dst_type>(
                     *it,
                     static_cast<dst_type>(src),
-                    (1 << len) - 1
+                    0,
+                    len
             );
         }
     }
-- 
2.43.0


From 735cea64acd77cf1116a7abef4720afe1f1034eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:13 +0000
Subject: [PATCH 33/39] fix: bitcmp gives 0 for equal fields

---
 include/bitlib/bit-iterator/bit_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index d17dd0c..9b76bab 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -887,7 +887,7 @@ template <class T>
 constexpr T _bitcmp(T src0, T src1, T start0, T start1, T len) noexcept
 {
     static_assert(binary_digits<T>::value, "");
-    return _bextr(src0, start0, len) == _bextr(src1, start1, len);
+    return _bextr(src0, start0, len) != _bextr(src1, start1, len);
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0


From 4d4878b18f5c7474356543adf4dba13cdeb0d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 34/39] fix: construct a bit_vector from a list of bit values

The constructor bound each bit value of the list to a const_reference, to
which a bit value does not convert, so that every use failed to compile.
---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index d96b170..cdf4ea9 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -265,7 +265,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Alloc
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
     : word_vector(alloc), length_(0) {
-    for (const_reference b : init) {
+    for (const bit_value& b : init) {
         this->push_back(b);
     }
 }
-- 
2.43.0


From 3aa0f397630903e908b074cf90edaed8340248c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 35/39] fix: assign a bit_iterator from one of another type

The converting assignment named the private members of a different class
and did not compile, e.g. for a const_iterator assigned from begin().
---
 include/bitlib/bit-iterator/bit_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_iterator.hpp b/include/bitlib/bit-iterator/bit_iterator.hpp
index 235d028..19c6b81 100644
--- a/include/bitlib/bit-iterator/bit_iterator.hpp
+++ b/include/bitlib/bit-iterator/bit_iterator.hpp
@@ -190,8 +190,8 @@ constexpr bit_iterator<Iterator>& bit_iterator<Iterator>::operator=(
     const bit_iterator<T>& other
 )
 {
-    _current = other._current;
-    _position = other._position;
+    _current = other.base();
+    _position = other.position();
     return *this;
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From 3d8cc3970a8fced39497dfdd359da381ea406314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 36/39] fix: assign a bit_pointer from one of another word type

The converting assignment uses private members of the reference of the
other word type, which befriended only its own pointer.
---
 include/bitlib/bit-iterator/bit_reference.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_reference.hpp b/include/bitlib/bit-iterator/bit_reference.hpp
index ecf22d5..b446db3 100644
--- a/include/bitlib/bit-iterator/bit_reference.hpp
+++ b/include/bitlib/bit-iterator/bit_reference.hpp
@@ -33,7 +33,7 @@ class bit_reference
 
     // Friendship
     template <class> friend class bit_reference;
-    friend class bit_pointer<WordType>;
+    template <class> friend class bit_pointer;
 
     // Types
     public:
-- 
2.43.0


From 35a4c5e7e03323de9fe1fb7b5f442afae6c8f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 37/39] fix: print a range of a bit_vector

debug_string(first, last) takes constant iterators and copied them to
mutable ones, which does not compile.
---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index cdf4ea9..0cdd5ea 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -664,9 +664,9 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 template<class WordType, class Allocator>
 constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
-    iterator mem = first;
+    const_iterator mem = first;
     size_type position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
-- 
2.43.0


From 23f410ec98f42f2c2b4fc06c742fc04e7f87a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 38/39] fix: swap ranges of different iterator types

The end of the second range was returned as an iterator of the first type.
---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 67cd5a0..9af430a 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -106,7 +106,7 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
                         last1.position()
                 );
             }
-            return bit_iterator<RandomAccessIt1>(it2, last1.position());
+            return bit_iterator<RandomAccessIt2>(it2, last1.position());
 
         // first1 range spans mutliple words and is not aligned with first2
         } else {
-- 
2.43.0


From 794e4dfc9978cee5a67acf6f74e0a7868a843ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:21 +0000
Subject: [PATCH 39/39] fix: keep max_size within what an iterator difference
 can express

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 0cdd5ea..c4de649 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -503,7 +503,9 @@ bit_vector<WordType, Allocator>::size() const noexcept {
 template<class WordType, class Allocator>
 constexpr typename bit_vector<WordType, Allocator>::size_type
 bit_vector<WordType, Allocator>::max_size() const noexcept {
-    return word_vector.max_size() * digits;
+    constexpr size_type limit = std::numeric_limits<difference_type>::max();
+    const size_type max_words = word_vector.max_size();
+    return max_words > limit / digits ? limit : max_words * digits;
 }
 
 template<class WordType, class Allocator>
-- 
2.43.0

