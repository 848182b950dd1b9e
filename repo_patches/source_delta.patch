From 3942915eda5eb9347811192c9d6486c50841bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 001/139] fix: vec(box) compiles, and does not adopt the
 storage of an empty box

---
 best/container/vec.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index be4e4aa..ec352a6 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -166,7 +166,12 @@ class vec final {
   /// allocation.
   vec(box<T[], alloc>&& box)
     : alloc_(best::in_place, BEST_MOVE(box.allocator())) {
-    raw_ = BEST_MOVE(box).leak();
+    // A box that owns no memory (e.g. a default-constructed or moved-from one)
+    // must not be freed, so we become an ordinary empty vector.
+    auto ptr = BEST_MOVE(box).leak();
+    if (ptr.raw() == best::ptr<T[]>::dangling().raw()) { return; }
+
+    std::construct_at(&raw_, *ptr);
     store_size(~raw_.size());
   }
 
-- 
2.43.0


From 7282266f317584893adc562bb78ea3707ddd1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 002/139] fix: moving an inlined vec of non-trivially
 relocatable elements keeps them

---
 best/container/vec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/vec.h b/best/container/vec.h
index ec352a6..4cb22e2 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -607,11 +607,13 @@ void vec<T, max_inline, A>::move_construct(vec&& that, bool assign) {
     } else {
       data().relo_assign(that.data(), new_size);
     }
+    set_size(unsafe("the elements were just relocated"), new_size);
   } else {
     destroy();
     auto new_size = that.size();
     reserve(new_size);
     data().relo(that.data(), new_size);
+    set_size(unsafe("the elements were just relocated"), new_size);
   }
 
   if (assign) { alloc_ = std::move(that.alloc_); }
-- 
2.43.0


From 452a2f7290b769fed802037a2ff4199b2b76c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 003/139] fix: overlapping relocation of non-trivially
 relocatable elements

---
 best/memory/ptr.h | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 5a43185..9115889 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -1031,22 +1031,17 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   // | xxxx | yyyyyyyyyyyy | yyyyyy | ------------ | xxxx |
   //        src            dst      src + count    dst + count
   //
-  // The moved part is subdivided as follows according to how it needs to be
-  // moved:
-  // | aaaa | bbbbbbbbbbbb | cccc |
-  // src    src + overlap  dst    src + count
-  //
-  // Where overlap = src + count - dst. The c part is move-constructed
-  // but not destroyed; then the b part is relocated, and the a part is
-  // move-assigned and then destroyed.
+  // Values that land beyond src + count are move-constructed, the rest are
+  // move-assigned over a value that has already been moved out of. This has to
+  // happen in backward order to avoid trampling.
   //
   // Overlapping backward shift. Happens when dst < src < dest + count, need to
   // destroy {.start = dst + count, .end = src + count }
   // | xxxx | ------------ | yyyyyy | yyyyyyyyyyyy | xxxx |
   //        dst            src      dst + count    src + count
   //
-  // The moved part is divided in the analogous way, but the move/relocate/
-  // assign regions are in the opposite order.
+  // This is analogous, but in forward order: values that land before src are
+  // move-constructed, the rest are move-assigned.
 
   // Non-overlapping case.
   if (src + count <= dst || dst + count <= src) {
@@ -1065,24 +1060,27 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
 
   // Forward case.
   if (src < dst && dst < src + count) {
-    size_t overlap0 = src + count - dst;
-    size_t overlap1 = dst - src;
-    // Need to make the copies in backward order to avoid trampling.
-    (dst + overlap1).move(src + overlap1, count - overlap1);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    dst.relo_assign(src, overlap0);
+    for (size_t i = count; i-- > 0;) {
+      if (dst + i < src + count) {
+        (dst + i).assign(BEST_MOVE((src + i).deref()));
+      } else {
+        (dst + i).construct(BEST_MOVE((src + i).deref()));
+      }
+    }
+    for (auto p = src; p < dst; ++p) { p.destroy(); }
     return;
   }
 
   // Backward case.
   if (dst < src && src < dst + count) {
-    size_t overlap0 = dst + count - src;
-    size_t overlap1 = src - dst;
-
-    dst.move(src, overlap0);
-    (dst + overlap0).relo(src + overlap0, overlap1 - overlap0);
-    (dst + overlap1).relo_assign(src + overlap1, count - overlap1);
-
+    for (size_t i = 0; i < count; ++i) {
+      if (dst + i < src) {
+        (dst + i).construct(BEST_MOVE((src + i).deref()));
+      } else {
+        (dst + i).assign(BEST_MOVE((src + i).deref()));
+      }
+    }
+    for (auto p = dst + count; p < src + count; ++p) { p.destroy(); }
     return;
   }
 }
-- 
2.43.0


From 1952033d4d670c128e24ab2df2354885e521f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 004/139] fix: vec::shrink_to_fit() releases the spare capacity

---
 best/container/vec.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index 4cb22e2..b64af5e 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -320,7 +320,12 @@ class vec final {
   /// Resizes the underlying allocation such that `capacity == size`.
   void shrink_to_fit() {
     if (size() == capacity() || !on_heap()) { return; }
-    spill_to_heap(size());
+    if (is_empty()) {
+      // Allocators need not support empty allocations.
+      destroy();
+      return;
+    }
+    spill_to_heap(size(), true);
   }
 
   /// # `vec::truncate()`.
-- 
2.43.0


From ef5a78f6730305377ec3216247d73d28ec2ec13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 005/139] fix: reserve the sign bit of the size of vectors with
 large inline capacities

---
 best/container/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/vec.h b/best/container/vec.h
index b64af5e..5ad1b9f 100644
--- a/best/container/vec.h
+++ b/best/container/vec.h
@@ -484,7 +484,7 @@ class vec final {
     size_t bits = best::bits_for(max_inline);
     // We need to pay one extra bit, which is the sign bit of the MSB of size_,
     // which is used to tell whether or not this is an inlined string or not.
-    return best::ceildiv(bits, 8).wrap();
+    return best::ceildiv(bits + 1, 8).wrap();
   }();
 
   /// The amount of padding after raw_ to get the total needed space for
-- 
2.43.0


From 211979dfc0ef44df3dd433faae837c834eca50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 006/139] fix: searching spans of multi-byte values skips
 unaligned matches correctly

---
 best/memory/internal/bytes.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 0595947..d042250 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -157,8 +157,7 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     if (!found) { return best::none; }
 
     // Found a potential match.
-    data = static_cast<const char*>(found);
-    size_t offset = data - start;
+    size_t offset = static_cast<const char*>(found) - start;
 
     // If the match is aligned to the stride of `T`, we're done.
     if (offset % sizeof(T) == 0) { return offset / sizeof(T); }
@@ -167,9 +166,14 @@ constexpr best::option<size_t> search_memmem(best::span<T> haystack,
     // not a striding search. Skip to the next few bytes so that we begin
     // searching at the next possible valid match, which is aligned with the
     // stride of T.
+    //
+    // `data` and `size` must move in lockstep, so that they always describe the
+    // same suffix of `haystack`.
     size_t misalign = sizeof(T) - offset % sizeof(T);
-    data += misalign;
-    size -= offset + misalign;
+    size_t skip = (start + offset + misalign) - data;
+    if (skip > size) { return best::none; }
+    data += skip;
+    size -= skip;
   }
 }
 
-- 
2.43.0


From 3b8185643b7e643b8d872435a9926df55b3b6b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 007/139] fix: span::find() of a pattern makes progress past a
 partial match

---
 best/memory/span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index fdfea2f..352e571 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1081,7 +1081,8 @@ constexpr best::option<size_t> span<T, n>::find(const R& needle) const
       if (next == haystack.size()) { return best::none; }
 
       // Skip forward.
-      haystack = at(unsafe("we just did a bounds check; avoid going through "
+      haystack =
+        haystack.at(unsafe("we just did a bounds check; avoid going through "
                            "best::option here for constexpr speed"),
                     {// SKip the first element for a speedier comparison.
                      .start = next + 1});
-- 
2.43.0


From dddadead8a5cd824df49df684532f567e05e5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 008/139] fix: span::split_once() and rsplit_once() compile for
 predicates

---
 best/memory/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 352e571..e788849 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1204,7 +1204,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::split_once(
   auto idx = find(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
@@ -1239,7 +1239,7 @@ constexpr best::option<best::row<span<T>, span<T>>> span<T, n>::rsplit_once(
   auto idx = rfind(pred);
   if (!idx) { return best::none; }
   return {{
-    best::span(data(), idx),
+    best::span(data(), *idx),
     best::span(data() + *idx + 1, size() - *idx - 1),
   }};
 }
-- 
2.43.0


From d7febd69e837a9077123310313a1e470b6a97cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 009/139] fix: unchecked subspans honour .including_end

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index e788849..9b2b5de 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1006,7 +1006,7 @@ constexpr best::span<T> span<T, n>::at(unsafe, best::bounds range) const {
   if (range.end) {
     count = *range.end - range.start;
   } else if (range.including_end) {
-    count = *range.end - range.start + 1;
+    count = *range.including_end - range.start + 1;
   } else if (range.count) {
     count = *range.count;
   }
-- 
2.43.0


From a7336e8fb9ce568546997c543cebca88c5385bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 010/139] fix: span::split_at() compiles for spans of static
 size

---
 best/memory/span.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 9b2b5de..eba0c20 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1032,10 +1032,7 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr best::option<std::array<best::span<T>, 2>> span<T, n>::split_at(
   size_t idx) const {
   if (auto prefix = at({.end = idx})) {
-    auto rest = *this;
-    rest.data_ += idx;
-    rest.size_ -= idx;
-    return {{*prefix, rest}};
+    return {{*prefix, as_dynamic(data() + idx, size() - idx)}};
   }
 
   return best::none;
-- 
2.43.0


From 9ea77b5bc483a6aa33da21e2226e2c3e5e1808a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 011/139] fix: fixed-size spans crash when constructed with the
 wrong size

---
 best/memory/span.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index eba0c20..e674f7c 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -845,8 +845,11 @@ template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr span<T, n>::span(best::ptr<T> data, size_t size, best::location loc)
   : data_(data) {
   if constexpr (is_static) {
-    best::bounds bounds_check = {.start = this->size(), .count = 0};
-    bounds_check.compute_count(this->size(), loc);
+    if (size != *n) {
+      best::crash_internal::crash(
+        {"wrong size for fixed-size span: %zu != %zu (expected)", loc}, size,
+        *n);
+    }
   } else {
     size_ = size;
   }
-- 
2.43.0


From 7db8f27d4d0655eba57524a6a018c650d1157cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 012/139] fix: order spans of multi-byte, signed and
 user-defined values by their elements

---
 best/memory/internal/bytes.h | 12 ++++++++++++
 best/memory/span.h           |  5 +++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index d042250..7857c1b 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -104,6 +104,18 @@ concept constexpr_byte_comparable = requires {
   requires bool(BEST_CONSTEXPR_MEMCMP_);
 };
 
+/// # `best::byte_ordered`
+///
+/// Whether a pair of types' ordering is modeled by `memcmp()`: this is only true
+/// of single unsigned bytes, which is how we order `char`s, too.
+template <typename T, typename U = T>
+concept byte_ordered = requires {
+  requires byte_comparable<T, U>;
+  requires is_char<T> && is_char<U>;
+  requires !best::same<best::as_auto<T>, signed char>;
+  requires !best::same<best::as_auto<U>, signed char>;
+};
+
 template <typename T, typename U>
 BEST_INLINE_ALWAYS constexpr bool equate(best::span<T> lhs, best::span<U> rhs) {
   if (lhs.size() != rhs.size()) { return false; }
diff --git a/best/memory/span.h b/best/memory/span.h
index e674f7c..81cb43e 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1418,11 +1418,12 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   requires best::comparable<T, U>
 {
   if (std::is_constant_evaluated()) {
-    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U>) {
+    if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U> &&
+                  best::bytes_internal::byte_ordered<T, U>) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   } else {
-    if constexpr (best::bytes_internal::byte_comparable<T, U>) {
+    if constexpr (best::bytes_internal::byte_ordered<T, U>) {
       return best::bytes_internal::compare(best::span(*this), best::span(that));
     }
   }
-- 
2.43.0


From 47064693097c59b8e6ac391142289d490871963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 013/139] fix: bounds that include the largest index are never
 in-bounds

---
 best/iter/bounds.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index 82efd80..de1df0f 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -364,6 +364,10 @@ constexpr int_range<Int>::opt_t int_range<Int>::try_compute_count(
 {
   if (!max_size && !end && !including_end && !count) { return {}; }
 
+  // This is the one range whose count does not fit in a size_t, which is never
+  // in-bounds.
+  if (start == 0 && !end && including_end == Max) { return {}; }
+
   auto count = normalize(max_size).count;
   if (!max_size) { return count; }
 
-- 
2.43.0


From 5008cd8537b5573fed89ebf4a53fe06c1a10751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 014/139] fix: exact size hints, counts and last elements for
 integer ranges

---
 best/iter/bounds.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.h b/best/iter/bounds.h
index de1df0f..f707bb5 100644
--- a/best/iter/bounds.h
+++ b/best/iter/bounds.h
@@ -255,15 +255,23 @@ struct int_range final {
     constexpr std::array<size_t, 2> size_hint() const {
       // TODO(mcyoung): This will overflow for uint64 ranges, need to return
       // something else.
-      return {count_, count_};
+      size_t size = unsigned_count() + size_t(plus_one_);
+      return {size, size};
     }
 
     constexpr size_t count() && {
       // We can just wrap here if count_ is larger than best::max_of<size_t>.
-      return size_t(count_) + size_t(plus_one_);
+      return unsigned_count() + size_t(plus_one_);
+    }
+
+    // The count of a wide range of a signed type does not fit in that type, so
+    // we need to interpret it as unsigned.
+    constexpr size_t unsigned_count() const {
+      return std::make_unsigned_t<Int>(count_);
     }
 
     constexpr best::option<Int> last() && {
+      if (count_ == 0 && !plus_one_) { return {}; }
       return (best::overflow(start_) + count_ + Int(plus_one_) - 1).wrap();
     }
   };
-- 
2.43.0


From c9f9259a22b5ee42116f21f57fc693ab58b8815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 015/139] fix: bounds-check failures print the offending end

---
 best/iter/bounds.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/iter/bounds.cc b/best/iter/bounds.cc
index eebbabb..77041bc 100644
--- a/best/iter/bounds.cc
+++ b/best/iter/bounds.cc
@@ -47,12 +47,12 @@ namespace best::bounds_internal {
 
   if (end && *end > len) {
     crash_internal::crash({"bounds-check failed: %zu (end) > %zu (len)", loc},
-                          end, len);
+                          *end, len);
   }
 
   if (including_end && *including_end >= len) {
     crash_internal::crash({"bounds-check failed: %zu (end) >= %zu (len)", loc},
-                          end, len);
+                          *including_end, len);
   }
 
   if (count && start + *count > len) {
-- 
2.43.0


From 721d0f8452684450f5db08d683dd8ab72b3295f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 016/139] fix: iter::take() yields no more than the underlying
 iterator does

---
 best/iter/iter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index d2c8d7b..c469f5b 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -449,7 +449,9 @@ class take final {
 
   constexpr best::size_hint size_hint() const {
     auto [min, max] = iter_.size_hint();
-    return {min, count_};
+    if (min > count_) { min = count_; }
+    if (!max || *max > count_) { max = count_; }
+    return {min, max};
   }
 
  private:
-- 
2.43.0


From 665c5dd37b08d40510145dcb9ae5ed74273c6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 017/139] fix: operator-> of a const option or choice compiles

---
 best/container/internal/choice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 50b350d..fcba448 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -239,7 +239,7 @@ class impl : public storage<Ts...> {
     return *get(u, i);
   }
   template <size_t n>
-  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<type<n>> ptr(
+  BEST_INLINE_SYNTHETIC constexpr best::as_raw_ptr<const type<n>> ptr(
     unsafe u, best::index_t<n> i = {}) const {
     return get(u, i).operator->();
   }
-- 
2.43.0


From d139579d7430317643f6083567d1ef6259fc6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 018/139] fix: span::split() compiles for range patterns

---
 best/memory/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 81cb43e..8df5cfd 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1260,7 +1260,7 @@ template <best::contiguous R>
 constexpr auto span<T, n>::split(const R& needle) const
   requires best::equatable<T, best::data_type<R>> && (!best::equatable<T, R>)
 {
-  return split_iter(split_impl<const R&>(needle, *this));
+  return split_iter<const R&>(split_impl<const R&>(needle, *this));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
-- 
2.43.0


From 468f324945a95d926deea8216a81983ad9429074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 019/139] fix: searching spans of any single-byte type compiles

---
 best/memory/internal/bytes.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/best/memory/internal/bytes.h b/best/memory/internal/bytes.h
index 7857c1b..9f3d750 100644
--- a/best/memory/internal/bytes.h
+++ b/best/memory/internal/bytes.h
@@ -41,10 +41,8 @@ size_t strlen(const char*) noexcept;
 
 #if BEST_CONSTEXPR_MEMCMP_
 #define BEST_memcmp_ __builtin_memcmp
-#define BEST_memchr_ __builtin_char_memchr
 #else
 #define BEST_memcmp_ best::bytes_internal::memcmp
-#define BEST_memchr_ best::bytes_internal::memchr
 #endif
 
 template <typename>
@@ -146,10 +144,19 @@ BEST_INLINE_ALWAYS constexpr best::ord compare(best::span<T> lhs,
 template <typename T, typename U>
 constexpr best::option<size_t> search_byte(best::span<T> haystack,
                                            best::span<U> needle) {
-  auto* found =
-    BEST_memchr_(haystack.data().raw(), *needle.data(), haystack.size());
-  if (!found) { return best::none; }
-  return found - haystack.data().raw();
+  T* data = haystack.data().raw();
+  if (!std::is_constant_evaluated()) {
+    // `memchr()` takes the value of the byte to find, whatever `U` may be.
+    auto* byte = reinterpret_cast<const unsigned char*>(needle.data().raw());
+    void* found = bytes_internal::memchr(data, *byte, haystack.size());
+    if (!found) { return best::none; }
+    return static_cast<T*>(found) - data;
+  } else {
+    for (size_t i = 0; i < haystack.size(); ++i) {
+      if (data[i] == *needle.data()) { return i; }
+    }
+    return best::none;
+  }
 }
 
 template <typename T, typename U>
@@ -212,8 +219,9 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search_constexpr(
     if (len < nz) { return best::none; }
 
     // Skip to the next possible candidate.
-    hp = (T*)BEST_memchr_(hp, first, len);
-    if (hp == nullptr) { return best::none; }
+    while (hp != end && *hp != first) { ++hp; }
+    if (hp == end) { return best::none; }
+    if (size_t(end - hp) < nz) { return best::none; }
 
     // Check if we actually found the string.
     if (BEST_memcmp_(hp, np, nz) == 0) { return hp - haystack.data().raw(); }
@@ -237,7 +245,6 @@ BEST_INLINE_ALWAYS constexpr best::option<size_t> search(best::span<T> haystack,
 }
 
 #undef BEST_memcmp_
-#undef BEST_memchr_
 }  // namespace best::bytes_internal
 
 #endif  // BEST_MEMORY_INTERNAL_BYTES_H_
-- 
2.43.0


From 53cb93f4e75cbf615c9aeb31e0f06644a7651349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 020/139] fix: fixed-size spans of bytes are orderable

---
 best/memory/span.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index 8df5cfd..aa8a1d5 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1420,11 +1420,13 @@ constexpr auto span<T, n>::operator<=>(span<U, m> that) const
   if (std::is_constant_evaluated()) {
     if constexpr (best::bytes_internal::constexpr_byte_comparable<T, U> &&
                   best::bytes_internal::byte_ordered<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   } else {
     if constexpr (best::bytes_internal::byte_ordered<T, U>) {
-      return best::bytes_internal::compare(best::span(*this), best::span(that));
+      return best::bytes_internal::compare(best::span<T>(*this),
+                                           best::span<U>(that));
     }
   }
 
-- 
2.43.0


From 5270805c68dc6d768f209a5f185fb7c525bc362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 021/139] fix: best::ptr can be ordered against nullptr

---
 best/memory/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 9115889..40fdc49 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -886,7 +886,7 @@ constexpr bool ptr<T>::operator==(U* that) const requires thin
 
 template <typename T>
 constexpr best::ord ptr<T>::operator<=>(std::nullptr_t) const {
-  return raw() <=> nullptr;
+  return raw() == nullptr ? best::ord::equal : best::ord::greater;
 }
 template <typename T>
 template <typename U>
-- 
2.43.0


From e44c8245ccacdda3a3c53f311e149e857eaadbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 022/139] fix: ptr::relo_assign() does not leak the overwritten
 values

---
 best/memory/ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 40fdc49..a1f7567 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -754,7 +754,7 @@ class ptr final {
     constexpr bool can_memcpy() const {
       return best::same<const best::pointee<T>, const best::pointee<U>> &&
              (best::copyable<T, trivially> ||
-              (best::relocatable<T, trivially> && kind == how::Relo));
+              (best::relocatable<T, trivially> && kind == how::Relo && !assign));
     }
 
     bool should_memcpy() const {
-- 
2.43.0


From f2dc71ce4f5cddcb00a76d621b8bb2d303145246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 023/139] fix: overlapping copies and moves of non-trivial
 elements forward

---
 best/memory/ptr.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index a1f7567..21c15e3 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -992,7 +992,11 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
     }
   }
 
-  for (size_t i = 0; i < count; ++i) {
+  // When shifting forward over ourselves, go backwards, so that we do not
+  // trample values that have not been copied yet.
+  bool backwards = how.overlapping && best::compare(raw(), that.raw()) > 0;
+  for (size_t j = 0; j < count; ++j) {
+    size_t i = backwards ? count - j - 1 : j;
     if constexpr (how.assign) {
       if constexpr (how.kind == how::Copy) {
         offset(i).assign(that.offset(i).deref());
-- 
2.43.0


From 125612bb496624d4b604940241b0b96507f90665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 024/139] fix: iter::inspect() yields the inspected values, not
 dangling references or copies

---
 best/iter/iter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index c469f5b..cfd2eff 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -389,7 +389,7 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void()> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](item&& value) -> item {
       best::call(cb);
       return BEST_FWD(value);
     },
@@ -400,9 +400,9 @@ template <typename Impl>
 constexpr auto iter<Impl>::inspect(best::callable<void(item&)> auto&& cb) && {
   return best::iter(iter_internal::map{
     std::move(*this),
-    [cb = BEST_FWD(cb)](auto&& value) -> decltype(auto) {
+    [cb = BEST_FWD(cb)](item&& value) -> item {
       best::call(cb, value);
-      return item(value);
+      return BEST_FWD(value);
     },
   });
 }
-- 
2.43.0


From 2b7c0abd80ab12956aae729ba9c93f9ce2693b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:07 +0000
Subject: [PATCH 025/139] fix: reversing a reversed iterator compiles

---
 best/iter/iter.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/iter/iter.h b/best/iter/iter.h
index cfd2eff..a4ad1d1 100644
--- a/best/iter/iter.h
+++ b/best/iter/iter.h
@@ -485,7 +485,7 @@ class rev_ final {
 
   constexpr best::size_hint size_hint() const { return iter_.size_hint(); }
 
-  constexpr auto rev() const { return iter_; }
+  constexpr auto rev() && { return BEST_MOVE(iter_); }
 
  private:
   constexpr explicit rev_(best::iter<Impl> iter) : iter_(BEST_MOVE(iter)) {}
@@ -498,8 +498,11 @@ class rev_ final {
 template <typename I>
 constexpr auto iter<I>::rev() && requires double_ended
 {
-  BEST_ITER_FWD(rev);
-  return best::iter(best::iter_internal::rev_(std::move(*this)));
+  if constexpr (requires { BEST_MOVE(impl_).rev(); }) {
+    return BEST_MOVE(impl_).rev();
+  } else {
+    return best::iter(best::iter_internal::rev_(std::move(*this)));
+  }
 }
 
 #undef BEST_ITER_FWD
-- 
2.43.0


From 72fdf9a95284e2ca5cc8780fa1c481b6f1a5829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 026/139] fix: mapping, chaining or permuting an expiring
 option, result or choice moves its value

---
 best/container/choice.h          |  2 +-
 best/container/internal/choice.h |  6 ++++--
 best/container/option.h          | 18 ++++++++----------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index e095b1d..a3840c2 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -305,7 +305,7 @@ class choice final {
 #undef BEST_CHOICE_CLANG_FORMAT_HACK_
     requires (inverse.has_value())
   {
-    return index_match([&](auto tag, auto&&... value) {
+    return BEST_MOVE(*this).index_match([&](auto tag, auto&&... value) {
       return best::choice<type<p>...>(best::index<(*inverse)[tag.value]>,
                                       BEST_FWD(value)...);
     });
diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index fcba448..7fc31a8 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -289,11 +289,13 @@ class impl : public storage<Ts...> {
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(
     F&& callback) const&& {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
   template <typename F>
   BEST_INLINE_SYNTHETIC constexpr decltype(auto) index_match(F&& callback) && {
-    return jump_table(make_index_match_arm(*this, BEST_FWD(callback)));
+    return jump_table(
+      make_index_match_arm(BEST_MOVE(*this), BEST_FWD(callback)));
   }
 
  private:
diff --git a/best/container/option.h b/best/container/option.h
index 57075e2..6beeade 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -943,20 +943,18 @@ constexpr option<T>& option<T>::inspect(auto&& f) & {
 }
 template <typename T>
 constexpr const option<T>&& option<T>::inspect(auto&& f) const&& {
-  BEST_MOVE(*this).impl().index_match([&](best::index_t<0>) {},
-                                      [&](best::index_t<1>, auto&&... args) {
-                                        best::call(BEST_FWD(f),
-                                                   BEST_FWD(args)...);
-                                      });
+  impl().index_match([&](best::index_t<0>) {},
+                     [&](best::index_t<1>, auto&&... args) {
+                       best::call(BEST_FWD(f), BEST_FWD(args)...);
+                     });
   return BEST_MOVE(*this);
 }
 template <typename T>
 constexpr option<T>&& option<T>::inspect(auto&& f) && {
-  BEST_MOVE(*this).impl().index_match([&](best::index_t<0>) {},
-                                      [&](best::index_t<1>, auto&&... args) {
-                                        best::call(BEST_FWD(f),
-                                                   BEST_FWD(args)...);
-                                      });
+  impl().index_match([&](best::index_t<0>) {},
+                     [&](best::index_t<1>, auto&&... args) {
+                       best::call(BEST_FWD(f), BEST_FWD(args)...);
+                     });
   return BEST_MOVE(*this);
 }
 
-- 
2.43.0


From 00aade17beb7d6a49f44ffb9717ac65661b9c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 027/139] fix: best::callable and best::call_result pass
 rvalues to callbacks as such

---
 best/func/internal/call.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index b9ba755..5f37184 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -112,7 +112,7 @@ constexpr bool can_call(tag<R(Args...), TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<F>, best::lie<Args>...))>;
+                                best::lie<F>, static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... TParams, typename R, typename... Args>
@@ -123,12 +123,13 @@ constexpr bool can_call(tag<R(Args...) const, TParams...>)
 {
   return best::is_void<R> ||
          best::convertible<R, decltype(call_internal::call<TParams...>(
-                                best::lie<const F>, best::lie<Args>...))>;
+                                best::lie<const F>, static_cast<Args&&>(best::lie<Args>)...))>;
 }
 
 template <typename F, typename... Args>
 auto call_result(tag<Args...>)
-  -> decltype(call_internal::call(best::lie<F>, best::lie<Args>...));
+  -> decltype(call_internal::call(best::lie<F>,
+                                  static_cast<Args&&>(best::lie<Args>)...));
 template <typename F, best::is_void V>
 auto call_result(tag<V>) -> decltype(call_internal::call(best::lie<F>));
 }  // namespace best::call_internal
-- 
2.43.0


From fb4f3fb20499aa62f0367b4160a7900dbaef6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 028/139] fix: decoding a truncated UTF-8 rune does not read
 past the input

---
 best/text/internal/utf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 1501dc2..77c6531 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -85,7 +85,9 @@ constexpr int32_t decode8_size(best::span<const char> input) {
   if (input.is_empty()) { return OutOfBounds; }
   uint32_t ones = best::leading_ones(uint8_t(*input.data()));
   if (ones == 1 || ones > 4) { return Invalid; }
-  return ones + (ones == 0);
+  uint32_t bytes = ones + (ones == 0);
+  if (input.size() < bytes) { return OutOfBounds; }
+  return bytes;
 }
 
 // This function is unfortunately a build-time hot-spot, so we can't use
-- 
2.43.0


From 75fbfc4a053315f34050e3ff1f295d1fa1776f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 029/139] fix: decoding UTF-8 backwards checks the length the
 leading byte asks for

---
 best/text/internal/utf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 77c6531..8455105 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -122,6 +122,10 @@ constexpr int32_t undecode8(best::span<const char>* input) {
     if (best::leading_ones(byte) != 1) { break; }
   }
   if (len == 5) { return Invalid; }
+
+  // The leading byte must ask for exactly the bytes we just skipped.
+  best::span<const char> last(input->data() + (input->size() - len), len);
+  if (decode8_size(last) != int32_t(len)) { return Invalid; }
   *input = {input->data(), input->size() - len};
 
   return decode8(input->data().offset(input->size()).raw(), len);
-- 
2.43.0


From 1519f4f4bd77e26bcbd449296e91725bf704699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 030/139] fix: validating UTF-8 rejects stray continuation
 bytes and over-long encodings

---
 best/text/internal/utf.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 8455105..7f5f057 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -39,6 +39,18 @@ namespace best::utf_internal {
 inline constexpr int32_t OutOfBounds = ~int32_t(encoding_error::OutOfBounds);
 inline constexpr int32_t Invalid = ~int32_t(encoding_error::Invalid);
 
+constexpr int32_t encode8_size(uint32_t rune) {
+  if (rune < 0x80) {
+    return 1;
+  } else if (rune < 0x800) {
+    return 2;
+  } else if (rune < 0x10000) {
+    return 3;
+  } else {
+    return 4;
+  }
+}
+
 constexpr bool validate_utf8_fast(const char* data, size_t len) {
   // This function is hit whenever we create a `best::str` from a literal, so
   // we need to avoid optional/span here.
@@ -52,7 +64,10 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     size_t bytes = best::leading_ones(uint8_t(value));
     value &= 0x7f >> bytes;
 
-    if (bytes > 4 || (end - data) < bytes - 1) { return false; }
+    if (bytes < 2 || bytes > 4 || size_t(end - data) < bytes - 1) {
+      return false;
+    }
+    size_t total = bytes;
     while (--bytes > 0) {
       char c = data[0];
       ++data;
@@ -65,20 +80,11 @@ constexpr bool validate_utf8_fast(const char* data, size_t len) {
     if (value >= 0x11'0000 || (value >= 0xd800 && value <= 0xdfff)) {
       return false;
     }
-  }
-  return true;
-}
 
-constexpr int32_t encode8_size(uint32_t rune) {
-  if (rune < 0x80) {
-    return 1;
-  } else if (rune < 0x800) {
-    return 2;
-  } else if (rune < 0x10000) {
-    return 3;
-  } else {
-    return 4;
+    // Reject oversized encodings.
+    if (total != encode8_size(value)) { return false; }
   }
+  return true;
 }
 
 constexpr int32_t decode8_size(best::span<const char> input) {
-- 
2.43.0


From fabeacd87077edad60aae479451e75fe4034ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 031/139] fix: decoding truncated or ill-formed UTF-16 is an
 error

---
 best/text/internal/utf.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/best/text/internal/utf.h b/best/text/internal/utf.h
index 7f5f057..cbcf358 100644
--- a/best/text/internal/utf.h
+++ b/best/text/internal/utf.h
@@ -169,10 +169,13 @@ constexpr bool is_low_surrogate(char16_t code) {
   return (code & 0xfc00) == Low;
 }
 
-constexpr size_t decode16_size(best::span<const char16_t> input) {
+constexpr int32_t decode16_size(best::span<const char16_t> input) {
   if (input.is_empty()) { return OutOfBounds; }
   auto value = input.data().raw()[0];
-  if (is_high_surrogate(value)) { return 2; }
+  if (is_high_surrogate(value)) {
+    if (input.size() < 2) { return OutOfBounds; }
+    return 2;
+  }
   if (is_low_surrogate(value)) { return Invalid; }
   return 1;
 }
-- 
2.43.0


From 640ff70eb5e6e1eb683c3f2fc55ef074da9c5817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 032/139] fix: UTF-8, UTF-16 and UTF-32 do not encode unpaired
 surrogates

---
 best/text/utf16.h | 1 +
 best/text/utf32.h | 1 +
 best/text/utf8.h  | 8 +++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/best/text/utf16.h b/best/text/utf16.h
index b0ebd93..106333b 100644
--- a/best/text/utf16.h
+++ b/best/text/utf16.h
@@ -55,6 +55,7 @@ struct utf16 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char16_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto size =
       best::utf_internal::encode16(output->data().raw(), output->size(), rune);
     if (size < 0) { return encoding_error(~size); }
diff --git a/best/text/utf32.h b/best/text/utf32.h
index 19079d7..ebe0f56 100644
--- a/best/text/utf32.h
+++ b/best/text/utf32.h
@@ -58,6 +58,7 @@ struct utf32 final {
   template <int = 0>
   static constexpr best::result<void, encoding_error> encode(
     best::span<char32_t>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     auto next = output->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
diff --git a/best/text/utf8.h b/best/text/utf8.h
index 53ba36c..12d1d1a 100644
--- a/best/text/utf8.h
+++ b/best/text/utf8.h
@@ -58,6 +58,7 @@ struct utf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
+    if (rune.is_unpaired_surrogate()) { return encoding_error::Invalid; }
     size_t bytes = best::utf_internal::encode8_size(rune);
     if (output->size() < bytes) { return encoding_error::OutOfBounds; }
     best::utf_internal::encode8(output->data().raw(), rune, bytes);
@@ -115,7 +116,12 @@ struct wtf8 final {
 
   static constexpr best::result<void, encoding_error> encode(
     best::span<char>* output, rune rune) {
-    return utf8::encode(output, rune);
+    size_t bytes = best::utf_internal::encode8_size(rune);
+    if (output->size() < bytes) { return encoding_error::OutOfBounds; }
+    best::utf_internal::encode8(output->data().raw(), rune, bytes);
+
+    *output = (*output)[{.start = bytes}];
+    return best::ok();
   }
 
   static constexpr best::result<rune, encoding_error> decode(
-- 
2.43.0


From 0ef2a1f702e2cbc1608f040f62997276180ef9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 033/139] fix: latin1 decodes the Latin1 Supplement

---
 best/text/ascii.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/text/ascii.h b/best/text/ascii.h
index 0309343..4c5f994 100644
--- a/best/text/ascii.h
+++ b/best/text/ascii.h
@@ -110,7 +110,8 @@ struct latin1 final {
     auto next = input->take_first(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   static constexpr best::result<rune, encoding_error> undecode(
@@ -118,7 +119,8 @@ struct latin1 final {
     auto next = input->take_last(1).ok_or(encoding_error::OutOfBounds);
     BEST_GUARD(next);
 
-    return rune::from_int((*next.ok())[0]).ok_or(encoding_error::Invalid);
+    return rune::from_int(best::to_unsigned((*next.ok())[0]))
+      .ok_or(encoding_error::Invalid);
   }
 
   constexpr bool operator==(const latin1&) const = default;
-- 
2.43.0


From 39b8790ddf545b4a02736b5531e4f761850c293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 034/139] fix: a default rune is NUL

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index 2c2760d..e631742 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -339,7 +339,7 @@ class rune final {
   static constexpr char Alphabet[] = "0123456789abcdefghijklmnopqrstuvwxyz";
   constexpr explicit rune(best::in_place_t, uint32_t value) : value_(value) {}
 
-  uint32_t value_;
+  uint32_t value_ = 0;
 };
 
 inline constexpr rune rune::Replacement = 0xfffd;
-- 
2.43.0


From 283b30be88abb8a926d90f87bad0485aedb120b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 035/139] fix: control characters are escaped in hexadecimal

---
 best/text/rune.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/rune.h b/best/text/rune.h
index e631742..67e2d40 100644
--- a/best/text/rune.h
+++ b/best/text/rune.h
@@ -456,7 +456,7 @@ void BestFmt(auto& fmt, const decltype(rune().escaped())& esc) {
   }
 
   if (esc._private.is_ascii_control()) {  // TODO: unicode is_control
-    fmt.format("\\x{:02}", esc._private.to_int());
+    fmt.format("\\x{:02x}", esc._private.to_int());
   } else if (esc._private == 0x200d) {
     // Handle the ZWJ explicitly for now, since it appears in some of our tests.
     fmt.write("\\u200D");
-- 
2.43.0


From 3f5ab4909c123d3d3d92cd92dacf7a81f44a2894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 036/139] fix: text::consume_suffix() strips the suffix instead
 of calling itself

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index e14f346..fbc2b3c 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -360,21 +360,21 @@ class text final {
   }
   constexpr bool consume_suffix(rune r) requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(r);
+    auto prefix = strip_suffix(r);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(const best::is_string auto& s)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(s);
+    auto prefix = strip_suffix(s);
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
   constexpr bool consume_suffix(best::callable<bool(rune)> auto&& p)
     requires (About.is_self_syncing)
   {
-    auto prefix = consume_suffix(BEST_FWD(p));
+    auto prefix = strip_suffix(BEST_FWD(p));
     if (prefix) { *this = *prefix; }
     return prefix.has_value();
   }
-- 
2.43.0


From f38d7dd7e35970883115ed814910c760d00eb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 037/139] fix: text::rune_indices() compiles

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index fbc2b3c..061d13f 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -912,12 +912,12 @@ class text<E>::rune_index_iter_impl final {
   /// # `iter->rest()`
   ///
   /// Returns the content not yet yielded.
-  constexpr pretext rest() const { return iter_->rest(); }
+  constexpr text rest() const { return iter_->rest(); }
 
   using BestIterArrow = void;
 
  private:
-  friend pretext;
+  friend text;
   friend best::iter<rune_index_iter_impl>;
   friend best::iter<rune_index_iter_impl&>;
 
-- 
2.43.0


From 4acc2a395e8a35d85f54ebfc78f4f1509f65c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 038/139] fix: text::from_partial() compiles and stops at the
 first error

---
 best/text/str.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 061d13f..3c03b43 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1230,10 +1230,10 @@ constexpr best::option<text<E>> text<E>::from(pretext data) {
 template <typename E>
 constexpr best::row<text<E>, pretext<E>> text<E>::from_partial(pretext data) {
   size_t split_at = 0;
-  auto runes = data.runes();
-  for (auto r : runes) {
+  auto runes = data.try_runes();
+  while (auto r = runes.next()) {
     if (r->err()) { break; }
-    split_at = data.size() - runes->rest();
+    split_at = data.size() - runes->rest().size();
   }
 
   unsafe u("the loop above did an implicit bounds check for us");
-- 
2.43.0


From 68f2650e1b72b24e8bbb681b425ea0a5ee98eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 039/139] fix: splitting text at an empty separator does not
 drop the text

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 3c03b43..46cdce8 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1090,7 +1090,7 @@ namespace str_internal {
 template <typename N, typename H>
 constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
                                        best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
@@ -1133,7 +1133,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
 template <typename N, typename H>
 constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
                                         best::pretext<H> needle) {
-  if (needle.is_empty()) { return {0, haystack.size()}; }
+  if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
                 haystack.About.is_self_syncing &&
-- 
2.43.0


From 35513b24a6e78ceae5c0b85f628ff036fdc3b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:24 +0000
Subject: [PATCH 040/139] fix: searching text rune by rune reports the right
 positions

The position before a match was forgotten after a partial match, the end of a
match at the very end of the text was reported as 0 when searching backwards,
and the search gave up at the first ill-formed code.
---
 best/text/str.h | 66 +++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 46cdce8..6d5b1ec 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1105,26 +1105,18 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
   auto needle_suf = needle.runes();
   auto first = *needle_suf.next();
 
-  while (!runes->rest().is_empty()) {
-    // We need to know what index we were at before we find `first` in
-    // runes, since that's the end of the prefix half.
-    size_t before = 0;
-    bool found = false;
-    while (auto next = runes.next()) {
-      if (!next->ok()) { return {-1, -1}; }
-      if (*next->ok() == first) {
-        found = true;
-        break;
+  // We need to know what index we were at before we find `first` in
+  // runes, since that's the end of the prefix half.
+  size_t before = 0;
+  while (auto next = runes.next()) {
+    if (next->ok() && *next->ok() == first) {
+      // Check if we found what we're looking for.
+      // TODO: Avoid strip_prefix here, since that instantiates option<pretext>.
+      if (auto suf = runes->rest().strip_prefix(needle_suf->rest())) {
+        return {before, haystack.size() - suf->size()};
       }
-      before = haystack.size() - runes->rest().size();
-    }
-    if (!found) { break; }
-
-    // Check if we found what we're looking for.
-    // TODO: Avoid strip_prefix here, since that instantiates option<pretext>.
-    if (auto suf = runes->rest().strip_prefix(needle_suf->rest())) {
-      return {before, haystack.size() - suf->size()};
     }
+    before = haystack.size() - runes->rest().size();
   }
 
   return {-1, -1};
@@ -1148,26 +1140,18 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
   auto needle_pre = needle.runes();
   auto last = *needle_pre.next_back();
 
-  while (!runes->rest().is_empty()) {
-    // We need to know what index we were at before we find `first` in
-    // runes, since that's the end of the prefix half.
-    size_t before = 0;
-    bool found = false;
-    while (auto next = runes.next_back()) {
-      if (!next->ok()) { return {-1, -1}; }
-      if (*next->ok() == last) {
-        found = true;
-        break;
+  // We need to know what index we were at before we find `last` in
+  // runes, since that's the start of the suffix half.
+  size_t before = haystack.size();
+  while (auto next = runes.next_back()) {
+    if (next->ok() && *next->ok() == last) {
+      // Check if we found what we're looking for.
+      // TODO: Avoid strip_suffix here, since that instantiates option<pretext>.
+      if (auto pre = runes->rest().strip_suffix(needle_pre->rest())) {
+        return {pre->size(), before};
       }
-      before = runes->rest().size();
-    }
-    if (!found) { break; }
-
-    // Check if we found what we're looking for.
-    // TODO: Avoid strip_prefix here, since that instantiates option<pretext>.
-    if (auto suf = runes->rest().strip_suffix(needle_pre->rest())) {
-      return {suf->size(), before};
     }
+    before = runes->rest().size();
   }
 
   return {-1, -1};
@@ -1197,8 +1181,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
   size_t before = 0;
   auto runes = haystack.try_runes();
   while (auto next = runes.next()) {
-    if (!*next) { break; }
-    if (best::call(pred, **next)) {
+    if (*next && best::call(pred, **next)) {
       return {{before, haystack.size() - runes->rest().size()}};
     }
     before = haystack.size() - runes->rest().size();
@@ -1209,11 +1192,12 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
 template <typename E>
 constexpr std::array<size_t, 2> rsplits(
   best::pretext<E> haystack, best::callable<bool(rune)> auto&& pred) {
-  size_t before = 0;
+  size_t before = haystack.size();
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
-    if (!*next) { break; }
-    if (best::call(pred, **next)) { return {{runes->rest().size(), before}}; }
+    if (*next && best::call(pred, **next)) {
+      return {{runes->rest().size(), before}};
+    }
     before = runes->rest().size();
   }
   return {-1, -1};
-- 
2.43.0


From 3cf410152f8b235395932877f3296ca56560a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:24 +0000
Subject: [PATCH 041/139] fix: searching text for a rune it cannot contain
 finds nothing

---
 best/text/str.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/text/str.h b/best/text/str.h
index 6d5b1ec..8cc4883 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1162,6 +1162,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
                                        best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::splits(haystack,
                               best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
@@ -1171,6 +1172,7 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<E> haystack,
                                         best::rune needle) {
   code<E> buf[E::About.max_codes_per_rune];
   auto encoded = needle.encode(buf, haystack.enc());
+  if (!encoded) { return {-1, -1}; }
   return str_internal::rsplits(haystack,
                                best::pretext<E>(*encoded.ok(), haystack.enc()));
 }
-- 
2.43.0


From 0998a31e760b05f7926b152f4b9aacd7e9bb539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:24 +0000
Subject: [PATCH 042/139] fix: text is greater than its own first rune, if
 there is more text

---
 best/text/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/text/str.h b/best/text/str.h
index 8cc4883..df877d1 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1745,7 +1745,7 @@ constexpr best::ord pretext<E>::operator<=>(rune r) const {
   auto iter = runes();
   if (auto result = *iter.next() <=> r; result != 0) { return result; }
 
-  return 0 <=> iter->rest().size();
+  return iter->rest().size() <=> 0;
 }
 
 template <typename E>
-- 
2.43.0


From 9eff2ddfbf7435bec4e1e00b697291ad4ad245c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 043/139] fix: split iterators keep a temporary predicate or
 pattern span

---
 best/memory/span.h | 8 +++++---
 best/text/str.h    | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/best/memory/span.h b/best/memory/span.h
index aa8a1d5..77fcd2e 100644
--- a/best/memory/span.h
+++ b/best/memory/span.h
@@ -1260,13 +1260,15 @@ template <best::contiguous R>
 constexpr auto span<T, n>::split(const R& needle) const
   requires best::equatable<T, best::data_type<R>> && (!best::equatable<T, R>)
 {
-  return split_iter<const R&>(split_impl<const R&>(needle, *this));
+  auto pat = best::span(needle);
+  return split_iter<decltype(pat)>(split_impl<decltype(pat)>(pat, *this));
 }
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
 constexpr auto span<T, n>::split(
   best::callable<void(const T&)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using P = best::select<best::is_lref<decltype(pred)>, decltype(pred),
+                         best::as_auto<decltype(pred)>>;
+  return split_iter<P>(split_impl<P>(BEST_FWD(pred), *this));
 }
 
 template <best::is_object T, best::option<best::dependent<size_t, T>> n>
diff --git a/best/text/str.h b/best/text/str.h
index df877d1..7b473c7 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1385,7 +1385,7 @@ constexpr auto text<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto text<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return text_.split(BEST_MOVE(pred)).map([](auto pre) {
+  return text_.split(BEST_FWD(pred)).map([](auto pre) {
     return text{unsafe("valid because text_ was already valid"), pre};
   });
 }
@@ -1724,8 +1724,9 @@ constexpr auto pretext<E>::split(const best::is_string auto& needle) const {
 }
 template <typename E>
 constexpr auto pretext<E>::split(best::callable<bool(rune)> auto&& pred) const {
-  return split_iter<decltype(pred)>(
-    split_impl<decltype(pred)>(BEST_FWD(pred), *this));
+  using P = best::select<best::is_lref<decltype(pred)>, decltype(pred),
+                         best::as_auto<decltype(pred)>>;
+  return split_iter<P>(split_impl<P>(BEST_FWD(pred), *this));
 }
 
 template <typename E>
-- 
2.43.0


From f3a200151afc010f5a3cda2404f31f3320203a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:25 +0000
Subject: [PATCH 044/139] fix: text is only compared code by code within one
 encoding

Encodings that share a code type, such as UTF-8 and Latin1, encode the same
rune differently; and not every encoding is ordered like its runes.
---
 best/text/str.h | 57 ++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index 7b473c7..d957751 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1093,12 +1093,12 @@ constexpr std::array<size_t, 2> splits(best::pretext<N> haystack,
   if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
-                haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
-    auto found = haystack.as_codes().find(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+                haystack.About.is_self_syncing && best::same<N, H>) {
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().find(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1128,12 +1128,12 @@ constexpr std::array<size_t, 2> rsplits(best::pretext<N> haystack,
   if (needle.is_empty()) { return {0, 0}; }
 
   if constexpr (best::bytes_internal::byte_comparable<code<H>> &&
-                haystack.About.is_self_syncing &&
-                best::same_encoding_code<decltype(haystack),
-                                         decltype(needle)>()) {
-    auto found = haystack.as_codes().rfind(needle.as_codes());
-    if (!found) { return {-1, -1}; }
-    return {{*found, *found + needle.size()}};
+                haystack.About.is_self_syncing && best::same<N, H>) {
+    if (best::same_encoding(haystack, needle)) {
+      auto found = haystack.as_codes().rfind(needle.as_codes());
+      if (!found) { return {-1, -1}; }
+      return {{*found, *found + needle.size()}};
+    }
   }
 
   auto runes = haystack.try_runes();
@@ -1406,10 +1406,10 @@ constexpr best::option<best::rune> text<E>::rune_iter_impl::next_back()
 {
   if (text_.is_empty()) { return best::none; }
   auto span = text_.as_codes();
-  rune next = rune::undecode(&span, encoding{})
+  rune next = rune::undecode(&span, text_.enc())
                 .ok()
                 .value(unsafe("text_ is well-encoded"));
-  text_ = text(unsafe("text_ is well-encoded"), {span});
+  text_ = text(unsafe("text_ is well-encoded"), {span, text_.enc()});
   return option(next);
 }
 template <typename E>
@@ -1479,7 +1479,7 @@ pretext<E>::rune_try_iter_impl::next_back() requires (About.is_self_syncing)
 {
   if (text_.is_empty()) { return best::none; }
 
-  auto next = rune::undecode(&text_.span_, encoding{});
+  auto next = rune::undecode(&text_.span_, text_.enc());
   if (!next) {
     // If we encountered an error, we can skip over a single code only if this
     // is a self-syncing encoding; otherwise we need to stop here.
@@ -1540,11 +1540,13 @@ template <typename E>
 constexpr best::option<pretext<E>> pretext<E>::strip_prefix(
   const best::is_string auto& s) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() &&
+    if constexpr (best::same<E, best::encoding_type<decltype(s)>> &&
                   About.is_self_syncing) {
-      auto rest = span_.strip_prefix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_prefix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
@@ -1565,11 +1567,12 @@ constexpr best::option<pretext<E>> pretext<E>::strip_suffix(
   const best::is_string auto& s) const requires (About.is_self_syncing)
 {
   if constexpr (best::is_pretext<best::as_auto<decltype(s)>>) {
-    if constexpr (best::same_encoding_code<pretext, decltype(s)>() /*&&
-                  About.is_self_syncing*/) {
-      auto rest = span_.strip_suffix(s.as_codes());
-      BEST_GUARD(rest);
-      return pretext{*rest, enc()};
+    if constexpr (best::same<E, best::encoding_type<decltype(s)>>) {
+      if (best::same_encoding(*this, s)) {
+        auto rest = span_.strip_suffix(s.as_codes());
+        BEST_GUARD(rest);
+        return pretext{*rest, enc()};
+      }
     }
 
     auto haystack = try_runes();
@@ -1754,9 +1757,9 @@ constexpr best::ord pretext<E>::operator<=>(
   const best::is_string auto& str) const {
   if constexpr (best::is_pretext<best::as_auto<decltype(str)>>) {
     if constexpr (best::bytes_internal::byte_comparable<code> &&
-                  About.is_self_syncing &&
-                  best::same_encoding_code<pretext, decltype(str)>()) {
-      return span_ <=> str.as_codes();
+                  About.is_self_syncing && About.is_lexicographic &&
+                  best::same<E, best::encoding_type<decltype(str)>>) {
+      if (best::same_encoding(*this, str)) { return span_ <=> str.as_codes(); }
     }
 
     auto lhs = runes();
-- 
2.43.0


From 9f9accc6ac49847cae55a1a0ecafa89938491471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:19 +0000
Subject: [PATCH 045/139] fix: searching text for a predicate compiles

---
 best/text/str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/text/str.h b/best/text/str.h
index d957751..758dfec 100644
--- a/best/text/str.h
+++ b/best/text/str.h
@@ -1183,7 +1183,7 @@ constexpr std::array<size_t, 2> splits(best::pretext<E> haystack,
   size_t before = 0;
   auto runes = haystack.try_runes();
   while (auto next = runes.next()) {
-    if (*next && best::call(pred, **next)) {
+    if (next->ok() && best::call(pred, *next->ok())) {
       return {{before, haystack.size() - runes->rest().size()}};
     }
     before = haystack.size() - runes->rest().size();
@@ -1197,7 +1197,7 @@ constexpr std::array<size_t, 2> rsplits(
   size_t before = haystack.size();
   auto runes = haystack.try_runes();
   while (auto next = runes.next_back()) {
-    if (*next && best::call(pred, **next)) {
+    if (next->ok() && best::call(pred, *next->ok())) {
       return {{runes->rest().size(), before}};
     }
     before = runes->rest().size();
-- 
2.43.0


From b155554408a1cf14148d14d54b6569bb899e2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 046/139] fix: text buffers can be made from pretexts, code
 vectors and NUL-terminated strings

These constructors did not compile, or dropped the allocator.
---
 best/text/strbuf.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 0b47589..60f6fdd 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -152,13 +152,15 @@ class textbuf final {
   explicit textbuf(unsafe, buf buf, encoding enc = {})
     : buf_(std::move(buf)), enc_(std::move(enc)) {}
   explicit textbuf(unsafe, pretext text)
-    : buf_(std::move(text)), enc_(std::move(text.enc())) {}
+    : buf_(alloc{}, text.as_codes()), enc_(text.enc()) {}
 
   /// # `textbuf::from()`
   ///
   /// Creates a new string by parsing it from a span of potentially invalid
   /// characters.
-  static best::option<textbuf> from(pretext text) { return from({}, text); }
+  static best::option<textbuf> from(pretext text) {
+    return from(alloc{}, text);
+  }
   static best::option<textbuf> from(alloc alloc, pretext text);
   static best::option<textbuf> from(buf data, encoding enc = {});
 
@@ -167,7 +169,7 @@ class textbuf final {
   /// Creates a new string by parsing it from a NUL-terminated string. It must
   /// end in `code{0}`. If `data == `nullptr`, returns an empty string.
   static best::option<textbuf> from_nul(const code* data, encoding enc = {}) {
-    return from_nul({}, data, std::move(enc));
+    return from_nul(alloc{}, data, std::move(enc));
   }
   static best::option<textbuf> from_nul(alloc alloc, const code* data,
                                         encoding enc = {}) {
@@ -215,8 +217,8 @@ class textbuf final {
   /// # `textbuf::allocator()`
   ///
   /// Returns a reference to his vector's allocator.
-  best::as_ref<const alloc> allocator() const { return buf_.alloc(); }
-  best::as_ref<alloc> allocator() { return buf_.alloc(); }
+  best::as_ref<const alloc> allocator() const { return buf_.allocator(); }
+  best::as_ref<alloc> allocator() { return buf_.allocator(); }
 
   /// # `textbuf::enc()`
   ///
@@ -361,14 +363,15 @@ best::option<textbuf<E, A>> textbuf<E, A>::from(alloc alloc, pretext t) {
   auto validated = text::from(t);
   BEST_GUARD(validated);
 
-  return textbuf(best::unsafe("just did validation above"), *validated);
+  return textbuf(std::move(alloc), *validated);
 }
 
 template <typename E, allocator A>
 best::option<textbuf<E, A>> textbuf<E, A>::from(buf data, encoding enc) {
   if (!rune::validate(data, enc)) { return best::none; }
 
-  return textbuf(best::in_place, std::move(data), std::move(enc));
+  return textbuf(best::unsafe("just did validation above"), std::move(data),
+                 std::move(enc));
 }
 
 template <typename E, allocator A>
-- 
2.43.0


From cfe44d99d96608845e762a6f4fff4fe32391253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 047/139] fix: a text buffer can be pushed onto itself

---
 best/text/strbuf.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 60f6fdd..343c07e 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -408,6 +408,8 @@ bool textbuf<E, A>::push(const best::is_string auto& that) {
       return false;
     }
     return true;
+  } else if constexpr (requires { that.as_text(); }) {
+    return push(that.as_text());
   } else {
     return push(best::pretext(that));
   }
@@ -453,6 +455,8 @@ void textbuf<E, A>::push_lossy(const best::is_string auto& that) {
         buf_.set_size(u, size() + codes.ok()->size());
       }
     }
+  } else if constexpr (requires { that.as_text(); }) {
+    push_lossy(that.as_text());
   } else {
     push_lossy(best::pretext(that));
   }
-- 
2.43.0


From 75907484bab9363f250923d47850b209fffbf3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:32 +0000
Subject: [PATCH 048/139] fix: pushing a rune onto a text buffer compiles

---
 best/text/strbuf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/text/strbuf.h b/best/text/strbuf.h
index 343c07e..a8f1b2b 100644
--- a/best/text/strbuf.h
+++ b/best/text/strbuf.h
@@ -378,7 +378,7 @@ template <typename E, allocator A>
 bool textbuf<E, A>::push(rune r) {
   code buf[About.max_codes_per_rune];
   if (auto codes = r.encode(buf, enc())) {
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
     return true;
   }
   return false;
@@ -419,12 +419,12 @@ template <typename E, allocator A>
 void textbuf<E, A>::push_lossy(rune r) {
   code buf[About.max_codes_per_rune];
   if (auto codes = r.encode(buf, enc())) {
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
   } else if (auto codes = rune::Replacement.encode(buf, enc())) {
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
   } else {
     codes = rune('?').encode(buf, enc());
-    buf_.append(*codes);
+    buf_.append(*codes.ok());
   }
 }
 
-- 
2.43.0


From beee5ca3784f9e443281299ef6b2b182a22bd1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 049/139] fix: converting an overflow<> only overflows if the
 value does not fit

---
 best/math/overflow.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index d7633ac..b58cd6d 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -186,9 +186,7 @@ struct overflow {
   template <typename J>
   constexpr overflow(overflow<J> that)
     : value(that.value),
-      overflowed(that.overflowed ||
-                 best::int_cmp(best::min_of<Int>, that.value) < 0 ||
-                 best::int_cmp(best::max_of<Int>, that.value) > 0) {}
+      overflowed(that.overflowed || !best::int_fits<Int>(that.value)) {}
 
   /// # `overflow::wrap()`
   ///
-- 
2.43.0


From 43e6703d2636d4c3dd346e2e6b59dfae447ee6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 050/139] fix: overflow<> arithmetic compiles for small
 integers

---
 best/math/overflow.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index b58cd6d..44f2aa0 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -60,8 +60,8 @@ BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
     return {{min_of<C>, true}, {min_of<C>, true}};
   }
 
-  return {{ca / cb, a.overflowed || b.overflowed},
-          {ca % cb, a.overflowed || b.overflowed}};
+  return {{C(ca / cb), a.overflowed || b.overflowed},
+          {C(ca % cb), a.overflowed || b.overflowed}};
 }
 template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
@@ -229,10 +229,10 @@ struct overflow {
   BEST_INLINE_ALWAYS constexpr friend overflow operator-(overflow a) {
     if (best::is_signed<Int>) {
       return a.value == min_of<Int> ? overflow{a.value, true}
-                                    : overflow{-a.value, a.overflowed};
+                                    : overflow{Int(-a.value), a.overflowed};
     }
 
-    return {-a.value, a.overflowed || a.value != 0};
+    return {Int(-a.value), a.overflowed || a.value != 0};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator-(
@@ -268,7 +268,7 @@ struct overflow {
   }
 
   BEST_INLINE_ALWAYS constexpr friend overflow operator~(overflow a) {
-    return {~a.value, a.overflowed};
+    return {Int(~a.value), a.overflowed};
   }
 
   template <best::is_int J>
@@ -277,7 +277,7 @@ struct overflow {
     using C = common_int<Int, J>;
     C ca = a.value, cb = b.value;
 
-    return {ca & cb, a.overflowed || b.overflowed};
+    return {C(ca & cb), a.overflowed || b.overflowed};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator|(
@@ -285,7 +285,7 @@ struct overflow {
     using C = common_int<Int, J>;
     C ca = a.value, cb = b.value;
 
-    return {ca | cb, a.overflowed || b.overflowed};
+    return {C(ca | cb), a.overflowed || b.overflowed};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator^(
@@ -293,20 +293,22 @@ struct overflow {
     using C = common_int<Int, J>;
     C ca = a.value, cb = b.value;
 
-    return {ca ^ cb, a.overflowed || b.overflowed};
+    return {C(ca ^ cb), a.overflowed || b.overflowed};
   }
 
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<Int> operator<<(overflow a,
                                                                overflow<J> b) {
     auto shamt = b.value & (bits_of<Int> - 1);
-    return {a.value << shamt, a.overflowed || b.overflowed || b.value != shamt};
+    return {Int(a.value << shamt),
+            a.overflowed || b.overflowed || b.value != shamt};
   }
   template <best::is_int J>
   BEST_INLINE_ALWAYS constexpr friend overflow<Int> operator>>(overflow a,
                                                                overflow<J> b) {
     auto shamt = b.value & (bits_of<Int> - 1);
-    return {a.value >> shamt, a.overflowed || b.overflowed || b.value != shamt};
+    return {Int(a.value >> shamt),
+            a.overflowed || b.overflowed || b.value != shamt};
   }
 
 #define BEST_OF_BOILERPLATE_(op_, opeq_)                                       \
-- 
2.43.0


From 2b58fad0062300e83463688f6445a03de76cec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 051/139] fix: count_zeros() and rotations compile for small
 and signed integers

---
 best/math/bit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 0265da6..efa43aa 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -38,7 +38,7 @@ namespace best {
 ///
 /// Returns the number of zeros in the binary representation of `x`.
 BEST_INLINE_ALWAYS constexpr uint32_t count_zeros(best::is_int auto x) {
-  return std::popcount(~to_unsigned(x));
+  return best::bits_of<decltype(x)> - std::popcount(to_unsigned(x));
 }
 
 /// # `best::count_ones()`
@@ -129,7 +129,7 @@ BEST_INLINE_ALWAYS constexpr Int shift_sign(Int x, uint32_t shamt) {
 /// Rotates `x`'s bits to the left (towards high-order bits) by shamt bits.
 template <best::is_int Int>
 BEST_INLINE_ALWAYS constexpr Int rotate_left(Int x, uint32_t shamt) {
-  return std::rotl(x, shamt);
+  return std::rotl(best::to_unsigned(x), shamt);
 }
 
 /// # `best::rotate_right()`
@@ -137,7 +137,7 @@ BEST_INLINE_ALWAYS constexpr Int rotate_left(Int x, uint32_t shamt) {
 /// Rotates `x`'s bits to the right (towards low-order bits) by shamt bits.
 template <best::is_int Int>
 BEST_INLINE_ALWAYS constexpr Int rotate_right(Int x, uint32_t shamt) {
-  return std::rotr(x, shamt);
+  return std::rotr(best::to_unsigned(x), shamt);
 }
 
 /// # `best::is_pow2()`
-- 
2.43.0


From a0764eea3c4694020afe6eeee0f21b2029029e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 052/139] fix: shift_sign() saturates to the sign bit of
 unsigned integers, too

---
 best/math/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index efa43aa..5b08c4a 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -119,7 +119,7 @@ BEST_INLINE_ALWAYS constexpr Int shift_right(Int x, uint32_t shamt) {
 template <best::is_int Int>
 BEST_INLINE_ALWAYS constexpr Int shift_sign(Int x, uint32_t shamt) {
   auto mask = bits_of<Int> - 1;
-  if (shamt != (shamt & mask)) { return -(x < 0); }
+  if (shamt != (shamt & mask)) { return -(best::to_signed(x) < 0); }
 
   return best::to_signed(x) >> shamt;
 }
-- 
2.43.0


From 29072f9ae8678a02ddd41df154cdea7042767d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 053/139] fix: the next power of two of small integers
 overflows where it should

---
 best/math/bit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/math/bit.h b/best/math/bit.h
index 5b08c4a..d7cef0b 100644
--- a/best/math/bit.h
+++ b/best/math/bit.h
@@ -162,7 +162,7 @@ BEST_INLINE_ALWAYS constexpr Int next_pow2_minus1(Int x) {
 /// Returns the next positive power of two, or zero on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).wrap();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).wrap();
 }
 
 /// # `best::checked_next_pow2()`
@@ -170,7 +170,7 @@ BEST_INLINE_ALWAYS constexpr Int wrapping_next_pow2(Int x) {
 /// Returns the next positive power of two; returns `best::none` on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).checked();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).checked();
 }
 
 /// # `best::next_pow2()`
@@ -178,7 +178,7 @@ BEST_INLINE_ALWAYS constexpr best::option<Int> checked_next_pow2(Int x) {
 /// Returns the next positive power of two; returns crashes on overflow.
 template <best::is_unsigned Int>
 BEST_INLINE_ALWAYS constexpr Int next_pow2(Int x) {
-  return (best::next_pow2_minus1(x) + best::overflow(1)).strict();
+  return (best::next_pow2_minus1(x) + best::overflow<Int>(1)).strict();
 }
 
 /// # `best::bits_for()`
-- 
2.43.0


From e4d11ddb01a0be9d4807778f5ca8629f5f139e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 054/139] fix: atoi() of a negative number is not a large
 unsigned number

---
 best/math/conv.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index 47d472c..f618226 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -82,7 +82,8 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
     size_t maximum_codes_without_overflow =
       sizeof(Int) * 2 - best::is_signed<Int>;
     size_t cannot_overflow =
-      radix <= 16 && total_codes <= maximum_codes_without_overflow;
+      radix <= 16 && total_codes <= maximum_codes_without_overflow &&
+      (best::is_signed<Int> || !is_negative);
 
 #define BEST_ATOI_LOOP_(result_, op_)                             \
   do {                                                            \
-- 
2.43.0


From c3f12a7db75aa4b1b80af178681aa6bf7ee072f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:18 +0000
Subject: [PATCH 055/139] fix: atoi_with_sign() of any string type respects the
 sign

---
 best/math/conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/conv.h b/best/math/conv.h
index f618226..b572c55 100644
--- a/best/math/conv.h
+++ b/best/math/conv.h
@@ -123,7 +123,7 @@ constexpr best::result<Int, best::atoi_error> atoi_with_sign(
 
 #undef BEST_ATOI_LOOP_
   } else {
-    return best::atoi<Int>(best::pretext(str), radix);
+    return best::atoi_with_sign<Int>(best::pretext(str), is_negative, radix);
   }
 }
 
-- 
2.43.0


From 3fc7d7b01bcf866eb45365a944ec0835a452eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 056/139] fix: comparing overflow<> with an integer compiles

---
 best/math/overflow.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 44f2aa0..806fc4d 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -345,17 +345,17 @@ struct overflow {
 #undef BEST_OF_BOILERPLATE_
 
   template <best::is_int J>
-  BEST_INLINE_ALWAYS constexpr bool operator==(overflow<J> that)
+  BEST_INLINE_ALWAYS constexpr bool operator==(overflow<J> that) const
     requires best::equatable<Int, J>
   {
     return value == that.value && overflowed == that.overflowed;
   }
 
   template <best::is_int J>
-  BEST_INLINE_ALWAYS constexpr bool operator==(J that)
+  BEST_INLINE_ALWAYS constexpr bool operator==(J that) const
     requires best::equatable<Int, J>
   {
-    return value == that.value && !overflowed;
+    return value == that && !overflowed;
   }
 };
 
-- 
2.43.0


From e56ed3e7684a3434812710b87fbc314c8638793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:45 +0000
Subject: [PATCH 057/139] fix: dividing overflow<>s of different types compiles

---
 best/math/overflow.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 806fc4d..28ea402 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -256,15 +256,25 @@ struct overflow {
     return {c, a.overflowed || b.overflowed || of};
   }
 
+  BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, Int>> operator/(
+    best::track_location<overflow> a, overflow b) {
+    return best::div(*a, b, a).quot;
+  }
   template <best::is_int J>
+    requires (!best::same<Int, J>)
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator/(
-    best::track_location<overflow> a, overflow<J> b) {
-    return best::div(*a, b, a).quot;
+    overflow a, overflow<J> b) {
+    return best::div(a, b).quot;
+  }
+  BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, Int>> operator%(
+    best::track_location<overflow> a, overflow b) {
+    return best::div(*a, b, a).rem;
   }
   template <best::is_int J>
+    requires (!best::same<Int, J>)
   BEST_INLINE_ALWAYS constexpr friend overflow<common_int<Int, J>> operator%(
-    best::track_location<overflow> a, overflow<J> b) {
-    return best::div(*a, b, a).rem;
+    overflow a, overflow<J> b) {
+    return best::div(a, b).rem;
   }
 
   BEST_INLINE_ALWAYS constexpr friend overflow operator~(overflow a) {
-- 
2.43.0


From d75f84acfc46da4407a4620d3a099d6096e43931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 058/139] fix: ceildiv() converts its divisor to the common
 type

---
 best/math/overflow.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 28ea402..5e5f0eb 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -76,7 +76,8 @@ template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr overflow<best::common_int<A, B>> ceildiv(
   overflow<A> a, overflow<B> b) {
   auto [q, r] = best::div(a, b);
-  if ((r.value > 0 && b.value > 0) || (r.value < 0 && b.value < 0)) {
+  auto cb = best::common_int<A, B>(b.value);
+  if ((r.value > 0 && cb > 0) || (r.value < 0 && cb < 0)) {
     return q + 1;
   }
   return q;
-- 
2.43.0


From e97360cb7a382d17e6ebf0980384ee99f97f9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 059/139] fix: the smallest signed integers are printed
 correctly

---
 best/text/internal/format_impls.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 2caee1f..5ffc76a 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -141,19 +141,21 @@ void BestFmt(auto& fmt, best::is_int auto value) {
       break;
   }
 
+  // The magnitude of the smallest value of a signed type does not fit in it.
   bool negative = value < 0;
-  if (negative) { value = -value; }
+  auto magnitude = best::to_unsigned(value);
+  if (negative) { magnitude = -magnitude; }
 
   // Construct the actual digits.
   char buf[128];
   size_t count = 0;
   do {
-    rune r = *rune::from_digit(value % base, base);
+    rune r = *rune::from_digit(magnitude % base, base);
     if (uppercase) { r = r.to_ascii_upper(); }
 
     buf[128 - count++ - 1] = r;
-    value /= base;
-  } while (value != 0);
+    magnitude /= base;
+  } while (magnitude != 0);
 
   best::str digits(unsafe("all characters are ascii"),
                    best::span(buf + 128 - count, count));
-- 
2.43.0


From e0116eb30d2c1048a50f25a06e4431a62d6337c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 060/139] fix: formatting a string with precision 0 prints none
 of it

---
 best/text/internal/format_impls.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 5ffc76a..03413a0 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -218,10 +218,7 @@ void BestFmt(auto& fmt, const best::is_string auto& s) {
     if (auto prec = spec.prec) {
       size_t max = *prec;
       auto runes = str.runes();
-      for (auto r : runes) {
-        (void)r;
-        if (--max == 0) { break; }
-      }
+      while (max > 0 && runes.next()) { --max; }
       str = str[{.end = str.size() - runes->rest().size()}];
     }
 
-- 
2.43.0


From d4eca6e8dbb383fa9edf0d37fd5a34173b6c3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 061/139] fix: bools and characters can be formatted without
 {:?}

---
 best/text/internal/format_impls.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/best/text/internal/format_impls.h b/best/text/internal/format_impls.h
index 03413a0..4ef92fa 100644
--- a/best/text/internal/format_impls.h
+++ b/best/text/internal/format_impls.h
@@ -34,14 +34,12 @@ namespace best {
 void BestFmt(auto& fmt, bool value) {
   value ? fmt.write("true") : fmt.write("false");
 }
-template <typename T>
 constexpr void BestFmtQuery(auto& query, bool* range) {
   query.requires_debug = false;
   query.supports_width = true;
 }
 
 void BestFmt(auto& fmt, char8_t value) { fmt.format(*rune::from_int(value)); }
-template <typename T>
 constexpr void BestFmtQuery(auto& query, char8_t* range) {
   query.requires_debug = false;
   query.supports_width = true;
@@ -50,7 +48,6 @@ constexpr void BestFmtQuery(auto& query, char8_t* range) {
 void BestFmt(auto& fmt, char16_t value) {
   fmt.format(*rune::from_int_allow_surrogates(value));
 }
-template <typename T>
 constexpr void BestFmtQuery(auto& query, char16_t* range) {
   query.requires_debug = false;
   query.supports_width = true;
@@ -65,7 +62,6 @@ void BestFmt(auto& fmt, char32_t value) {
     fmt.format("<U+{:X}>", unsigned(value));
   }
 }
-template <typename T>
 constexpr void BestFmtQuery(auto& query, char32_t* range) {
   query.requires_debug = false;
   query.supports_width = true;
-- 
2.43.0


From badaccb355394da2807dc8def23649339dcae375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 062/139] fix: {:p} prints the address of a box

---
 best/container/box.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 7327f45..db5fe1c 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -246,8 +246,10 @@ class BEST_RELOCATABLE box final {
 
   friend void BestFmt(auto& fmt, const box& box) {
     if constexpr (requires { fmt.format(*box); }) {
-      if (fmt.current_spec().method != 'p') { fmt.format(*box); }
-      return;
+      if (fmt.current_spec().method != 'p') {
+        fmt.format(*box);
+        return;
+      }
     }
     fmt.format(box.as_ptr());
   }
-- 
2.43.0


From cb6d849a981afb30a5f0f2494e9ee39262ff326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 063/139] fix: unterminated and overlong numbers in format
 templates are rejected

---
 best/text/internal/format_parser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 02ab19b..3265e82 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -145,12 +145,14 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       auto count = find(data, len, [](char c) { return c < '0' || c > '9'; });
       // We should find a non-digit rune, because otherwise this is an invalid
       // string.
-      if (count == -1) { -1; }
+      if (count == -1 || count == 0) { return -1; }
 
-      uint32_t result = 0;
+      uint64_t result = 0;
       for (size_t i = 0; i < count; ++i) {
         result *= 10;
         result += data[i] - '0';
+        // Numbers that do not fit are invalid.
+        if (result >= uint32_t(-1)) { return -1; }
       }
       data += count;
       len -= count;
@@ -162,8 +164,9 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
       cur_idx = idx++;
     } else {
       // Parse digits for an explicit index.
-      cur_idx = atoi();
-      if (cur_idx == -1) { return false; }
+      uint32_t parsed = atoi();
+      if (parsed == uint32_t(-1)) { return false; }
+      cur_idx = parsed;
 
       // The next rune must be either ':' or '}'. If it's ':' we consume it.
       if (!consume_prefix(data, len, ':')) {
-- 
2.43.0


From 5e85197265e6ad8710bb72fd8b2e57a34a2338a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 064/139] fix: {0:!} forwards the specifier of the argument
 with that index

---
 best/text/internal/format_parser.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/best/text/internal/format_parser.h b/best/text/internal/format_parser.h
index 3265e82..92d3f81 100644
--- a/best/text/internal/format_parser.h
+++ b/best/text/internal/format_parser.h
@@ -180,8 +180,7 @@ constexpr bool visit_template(const char* data, size_t len, Print print,
     if (consume_prefix(data, len, '!')) {
       args.pass_through = true;
       args.debug = true;
-      if (!best::call(interpolate, idx++, args)) { return false; }
-      continue;
+      if (len == 0) { return false; }
     }
 
     bool have_align = false;
-- 
2.43.0


From 93862c616174027d326a7e53d8d6c2461667ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 065/139] fix: indented output is neither cut short nor given
 extra newlines

---
 best/text/format.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index 155d79f..d481e5f 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -427,20 +427,23 @@ void formatter::format(const best::format_spec& spec,
 
 void formatter::write(const best::is_string auto& string) {
   if constexpr (best::is_pretext<decltype(string)>) {
+    if (string.is_empty()) { return; }
     if (indent_ == 0) {
       out_->push_lossy(string);
+      at_new_line_ = string.ends_with('\n');
       return;
     }
 
     size_t watermark = 0;
     for (auto [idx, r] : string.rune_indices()) {
       if (r != '\n') { continue; }
-      if (idx != watermark + 1 && idx > 0) {
+      if (idx > watermark) {
         update_indent();
-        out_->push_lossy(string[{.start = watermark, .end = idx - 1}]);
+        out_->push_lossy(string[{.start = watermark, .end = idx}]);
       }
 
-      watermark = idx;
+      // All encodings represent a newline as a single code.
+      watermark = idx + 1;
       out_->push_lossy("\n");
       at_new_line_ = true;
     }
-- 
2.43.0


From 82842adbe87c45be6fc83a59055b2e65e1b9ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 066/139] fix: a block that was finished explicitly is not
 closed twice

---
 best/text/format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/text/format.cc b/best/text/format.cc
index 3f8e7ab..ccce376 100644
--- a/best/text/format.cc
+++ b/best/text/format.cc
@@ -71,6 +71,7 @@ void formatter::block::finish() {
   if (uses_indent_ && entries_ > 0) { fmt_->write(",\n"); }
   if (uses_indent_) { --fmt_->indent_; }
   fmt_->write(config_.close);
+  fmt_ = nullptr;
 }
 
 void formatter::block::advise_size(size_t n) {
-- 
2.43.0


From 16b6c9deb58349dc1d16397d8697461c289bc975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 067/139] fix: moving a member of a const object compiles

---
 best/meta/traits/refs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/traits/refs.h b/best/meta/traits/refs.h
index 74ada7b..86f31d3 100644
--- a/best/meta/traits/refs.h
+++ b/best/meta/traits/refs.h
@@ -48,7 +48,7 @@ namespace best {
 /// Intended to improve compile times and gdb debugging by eliminating an
 /// extremely common function that must be inlined.
 #define BEST_MOVE(expr_) \
-  (static_cast<::best::as_rref<::best::un_ref<decltype(expr_)>>>(expr_))
+  (static_cast<::best::as_rref<::best::un_ref<decltype((expr_))>>>(expr_))
 
 /// # `best::ref_kind`
 ///
-- 
2.43.0


From a7f6fa617ccf1451277c913f3f13312092229100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 068/139] fix: choice::object() of an expiring choice returns
 the object

---
 best/container/choice.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index a3840c2..d9b6faf 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -477,14 +477,18 @@ constexpr best::option<
   const best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
-  return BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 template <typename... A>
 template <size_t n>
 constexpr best::option<best::object<typename choice<A...>::template type<n>>&&>
 choice<A...>::object(best::index_t<n> i) && {
   if (which() != n) { return {}; }
-  BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i));
+  return best::option(
+    best::bind,
+    BEST_MOVE(impl().object(unsafe{"checked which() before this"}, i)));
 }
 
 template <typename... A>
-- 
2.43.0


From 1b4e30f13fd70c8ecb632bd096025b6005e76678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 069/139] fix: option::ok_or() and err_or() do not move out of
 an lvalue

---
 best/container/option.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 6beeade..80058d5 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -562,12 +562,12 @@ class option final {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_ok(); return best::err(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto ok_or(auto&& arg) & -> best::result<T, best::as_auto<decltype(arg)>>
+  constexpr auto ok_or(auto&& arg) const&& -> best::result<T, best::as_auto<decltype(arg)>>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(BEST_FWD(arg));
   }
@@ -581,12 +581,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto ok_or(best::callable<void()> auto&& arg) &
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, ref> {
     if (has_value()) return make_ok(); return best::err(best::call(BEST_FWD(arg)));
   }
-  constexpr auto ok_or(best::callable<void()> auto&& arg) &
+  constexpr auto ok_or(best::callable<void()> auto&& arg) const&&
   -> best::result<T, decltype(best::call(BEST_FWD(arg)))>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_ok(); return best::err(best::call(BEST_FWD(arg)));
@@ -624,13 +624,13 @@ class option final {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) const&&
+  constexpr auto err_or(auto&& arg) &
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, ref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return make_err(); return best::ok(BEST_FWD(arg));
   }
   template <int&... deduction_barrier>
-  constexpr auto err_or(auto&& arg) &
+  constexpr auto err_or(auto&& arg) const&&
   -> best::result<best::as_auto<decltype(arg)>, T>
   requires best::constructible<T, crref> && (!best::callable<decltype(arg), void()>) {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(BEST_FWD(arg));
@@ -646,12 +646,12 @@ class option final {
   requires best::constructible<T, cref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
+  constexpr auto err_or(best::callable<void()> auto&& arg) &
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, ref> {
     if (has_value()) return make_err(); return best::ok(best::call(BEST_FWD(arg)));
   }
-  constexpr auto err_or(best::callable<void()> auto&& arg) &
+  constexpr auto err_or(best::callable<void()> auto&& arg) const&&
   -> best::result<decltype(best::call(BEST_FWD(arg))), T>
   requires best::constructible<T, crref> {
     if (has_value()) return BEST_MOVE(*this).make_err(); return best::ok(best::call(BEST_FWD(arg)));
-- 
2.43.0


From 75195ab8a5a7f0ada2f0edf88fc3d2f7092a350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:07 +0000
Subject: [PATCH 070/139] fix: assigning a choice of non-assignable types to
 itself

---
 best/container/internal/choice.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/internal/choice.h b/best/container/internal/choice.h
index 7fc31a8..a59b29c 100644
--- a/best/container/internal/choice.h
+++ b/best/container/internal/choice.h
@@ -182,6 +182,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(const impl& that) requires (!info.trivial_copy())
   {
+    if (this == best::addr(that)) { return *this; }
     that.index_match(
       [&](auto tag, auto&... value) { emplace<tag.value>(value...); });
     return *this;
@@ -200,6 +201,7 @@ class impl : public storage<Ts...> {
   = default;
   constexpr impl& operator=(impl&& that) requires (!info.trivial_move())
   {
+    if (this == best::addr(that)) { return *this; }
     that.index_match([&](auto tag, auto&... value) {
       emplace<tag.value>(BEST_MOVE(value)...);
     });
-- 
2.43.0


From 51957b6f8040754050700d71d81526b8761e323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 071/139] fix: copying a box into a moved-from box

---
 best/container/box.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/best/container/box.h b/best/container/box.h
index db5fe1c..4d4aeae 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -327,7 +327,10 @@ template <typename T, typename A>
 constexpr box<T, A>& box<T, A>::operator=(const box& that)
   requires requires(ptr p) { p.copy_assign(p); }
 {
-  if (layout() != that.layout()) {
+  if (best::equal(this, &that)) { return *this; }
+  // A moved-from box has no value to assign to.
+  bool moved_from = ptr_.raw() == best::ptr<T>::dangling().raw();
+  if (moved_from || layout() != that.layout()) {
     this->~box();
     return *new (this) box(that);
   } else {
-- 
2.43.0


From b74d9190dc9f27fe50ea8d5fe7d8d077ab5fee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 072/139] fix: comparing a full option of a reference with
 nullptr

---
 best/container/option.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/option.h b/best/container/option.h
index 80058d5..05127fa 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -719,8 +719,8 @@ class option final {
   template <best::equatable<T> U>
   constexpr bool operator==(const U* u) const requires best::is_ref<T>
   {
-    return (!has_value() && u == nullptr) ||
-           (has_value() && value(unsafe("just checked has_value()")) == *u);
+    if (u == nullptr) { return !has_value(); }
+    return has_value() && value(unsafe("just checked has_value()")) == *u;
   }
   constexpr bool operator==(const best::none_t&) const { return is_empty(); }
 
-- 
2.43.0


From 6ea6f021ee5ec71c27d71d36940804ec25ac8cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:47 +0000
Subject: [PATCH 073/139] fix: options of options of types with a niche

---
 best/container/option.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/option.h b/best/container/option.h
index 05127fa..bcbf49a 100644
--- a/best/container/option.h
+++ b/best/container/option.h
@@ -24,6 +24,7 @@
 #include <type_traits>
 
 #include "best/base/fwd.h"
+#include "best/base/niche.h"
 #include "best/base/tags.h"
 #include "best/container/choice.h"
 #include "best/log/internal/crash.h"
@@ -130,6 +131,7 @@ class option final {
   template <typename U>
   static constexpr bool not_forbidden_conversion =
     (!best::same<best::in_place_t, best::as_auto<U>>)&&  //
+    (!best::same<best::niche, best::as_auto<U>>)&&       //
     (!best::same<option, best::as_auto<U>>)&&            //
     (!best::same<bool, best::un_qual<T>>);
 
-- 
2.43.0


From 87a8e2d596b10b016d758a8cc77a9b7f0cfb978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 074/139] fix: ordering a result against a value, ok() or err()

---
 best/container/result.h | 48 +++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/best/container/result.h b/best/container/result.h
index c329ba2..408729d 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -333,34 +333,44 @@ class [[nodiscard(
     const best::result<U, F>& that) const {
     return impl() <=> that.impl();
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<T> auto& u) const {
-    if (auto v = ok()) { return v <=> u; }
-    return best::ord::less;
-  }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(
-    const best::comparable<E> auto& u) const {
-    if (auto v = err()) { return v <=> u; }
-    return best::ord::greater;
-  }
+  ///
+  /// As with choices, any ok value compares as less than any error value.
   template <best::comparable<T> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
-    return best::ord::less;
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    const U& u) const {
+    if (is_ok()) { return impl()[best::index<0>] <=> u; }
+    return best::ord::greater;
   }
   template <best::comparable<E> U>
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<U> u) const {
-    if (auto v = ok()) { return v <=> u.args.args[best::index<0>]; }
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    const U& u) const {
+    if (is_err()) { return impl()[best::index<1>] <=> u; }
     return best::ord::less;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::ok<> u) const {
-    if (ok()) { return best::ord::equal; }
+  template <best::comparable<T> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<T, U> operator<=>(
+    best::ok<U> u) const {
+    if (is_ok()) {
+      return impl()[best::index<0>] <=> u.args.row[best::index<0>];
+    }
+    return best::ord::greater;
+  }
+  template <best::comparable<E> U>
+  BEST_INLINE_SYNTHETIC constexpr best::order_type<E, U> operator<=>(
+    best::err<U> u) const {
+    if (is_err()) {
+      return impl()[best::index<1>] <=> u.args.row[best::index<0>];
+    }
     return best::ord::less;
   }
-  BEST_INLINE_SYNTHETIC constexpr auto operator<=>(best::err<> u) const {
-    if (err()) { return best::ord::equal; }
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::ok<> u) const {
+    if (is_ok()) { return best::ord::equal; }
     return best::ord::greater;
   }
+  BEST_INLINE_SYNTHETIC constexpr best::ord operator<=>(best::err<> u) const {
+    if (is_err()) { return best::ord::equal; }
+    return best::ord::less;
+  }
 
   friend void BestFmt(auto& fmt, const result& res) requires requires {
     fmt.format(res.ok());
-- 
2.43.0


From 287740604340b945f78e0d25ef4c6043552fbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 075/139] fix: taking a void alternative of an expiring choice
 compiles

---
 best/container/choice.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/best/container/choice.h b/best/container/choice.h
index d9b6faf..136761b 100644
--- a/best/container/choice.h
+++ b/best/container/choice.h
@@ -439,9 +439,11 @@ constexpr best::option<typename choice<A...>::template crref<n>>
 choice<A...>::at(best::index_t<n> i) const&& {
   if (which() != n) { return {}; }
   return best::call_devoid([&]() -> decltype(auto) {
-    return best::option(
-      best::bind, static_cast<crref<n>>(
-                    impl().deref(unsafe{"checked which() before this"}, i)));
+    if constexpr (!best::is_void<type<n>>) {
+      return best::option(
+        best::bind, static_cast<crref<n>>(impl().deref(
+                      unsafe{"checked which() before this"}, i)));
+    }
   });
 }
 template <typename... A>
@@ -450,9 +452,11 @@ constexpr best::option<typename choice<A...>::template rref<n>>
 choice<A...>::at(best::index_t<n> i) && {
   if (which() != n) { return {}; }
   return best::call_devoid([&]() -> decltype(auto) {
-    return best::option(
-      best::bind, static_cast<rref<n>>(
-                    impl().deref(unsafe{"checked which() before this"}, i)));
+    if constexpr (!best::is_void<type<n>>) {
+      return best::option(
+        best::bind, static_cast<rref<n>>(impl().deref(
+                      unsafe{"checked which() before this"}, i)));
+    }
   });
 }
 
-- 
2.43.0


From 76359f34c395dc4e5bb0434feb4a72be7e0f6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 076/139] fix: the value of a result with a void error can be
 taken

---
 best/text/format.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/best/text/format.h b/best/text/format.h
index d481e5f..cdba879 100644
--- a/best/text/format.h
+++ b/best/text/format.h
@@ -595,9 +595,13 @@ struct fmt final {
   template <typename T, typename E>
   BEST_INLINE_SYNTHETIC static void check_ok(const best::result<T, E>* result) {
     if (auto err = result->err()) {
-      auto message = best::format("unwrapped a best::err({:?})",
-                                  best::make_formattable(*err));
-      best::crash_internal::crash("%.*s", message.size(), message.data());
+      if constexpr (best::is_void<E>) {
+        best::crash_internal::crash("unwrapped a best::err(void)");
+      } else {
+        auto message = best::format("unwrapped a best::err({:?})",
+                                    best::make_formattable(*err));
+        best::crash_internal::crash("%.*s", message.size(), message.data());
+      }
     }
   }
 };
-- 
2.43.0


From 3a458e0283e32973e6e4451ad235d9cd1a7ecd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 077/139] fix: crash messages longer than the buffer are cut,
 not overread

---
 best/log/internal/crash.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/log/internal/crash.cc b/best/log/internal/crash.cc
index 80ff887..c0fed4d 100644
--- a/best/log/internal/crash.cc
+++ b/best/log/internal/crash.cc
@@ -61,6 +61,8 @@ inline constexpr char Red[] = "\N{ESCAPE}[31m";
   va_start(va, fmt);
   die(fmt.location(), [&](char* scratch, size_t scratch_len, auto write) {
     size_t len = ::vsnprintf(scratch, scratch_len, *fmt, va);
+    // vsnprintf() returns the length of the whole message, not of what it wrote.
+    if (len >= scratch_len) { len = scratch_len - 1; }
     write(scratch, len);
   });
   va_end(va);
-- 
2.43.0


From 8a134460e7881b45cad73f45f0c6d0d35d0c838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:59 +0000
Subject: [PATCH 078/139] fix: only arguments that start with a dash are parsed
 as flags

---
 best/cli/parser.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 257eb2a..86dee82 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -382,8 +382,8 @@ best::result<void, cli::error> cli::parse(
   auto iter = argv.iter();
   while (auto next = iter.next()) {
     ctx.cur = ctx.sub;
-    if (!done_with_flags) {
-      bool is_flag = next->starts_with("-");
+    // A lone `-` is not a flag: it conventionally names stdin.
+    if (!done_with_flags && next->starts_with("-") && next != "-") {
       bool is_letter = !next->starts_with("--");
 
       if (next == "--") {
@@ -403,7 +403,7 @@ best::result<void, cli::error> cli::parse(
       auto token = flag;
       if (is_letter) {
         flag = flag[{.start = 1}];
-      } else if (is_flag) {
+      } else {
         flag = flag[{.start = 2}];
       }
 
@@ -506,8 +506,8 @@ best::result<void, cli::error> cli::parse(
       }
 
       ctx.token = *next;
-      while (is_flag) {  // This needs to be in a loop to handle nested group
-                         // calls.
+      while (true) {  // This needs to be in a loop to handle nested group
+                      // calls.
         if (auto e = ctx.cur->impl_->find_flag(flag)) {
           if (e->is_group) {
             BEST_GUARD(push_group(e->idx));
-- 
2.43.0


From 52f629b7764869962d37a9c4c9312bf156a247ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:59 +0000
Subject: [PATCH 079/139] fix: flags of a group inside of a group can be set
 one argument at a time

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 86dee82..238af7a 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -438,7 +438,7 @@ best::result<void, cli::error> cli::parse(
         }
 
         // And nest.
-        ctx.cur = ctx.sub->impl_->groups[idx].child;
+        ctx.cur = ctx.cur->impl_->groups[idx].child;
         return best::ok();
       };
 
-- 
2.43.0


From 3facc53b77b5eb20500e21017d8ef28c029c2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:59 +0000
Subject: [PATCH 080/139] fix: help for a group inside of a group is that of
 the inner group

---
 best/cli/parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 238af7a..a056499 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -272,7 +272,8 @@ void cli::init() {
         if (entry.magic == entry.Ordinary) {
           entry.idx += entry.is_group ? group_offset : flag_offset;
         } else {
-          entry.idx = idx;
+          // Help for a nested group stays help for that group.
+          entry.idx = entry.idx == -1 ? idx : entry.idx + group_offset;
         }
 
         entry.is_letter |= is_letter;
-- 
2.43.0


From 7eee2699539f21fbf50c60c59dbedb3096b3890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:59 +0000
Subject: [PATCH 081/139] fix: a subcommand's positionals do not depend on its
 parent's

---
 best/cli/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index a056499..dc85827 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -567,6 +567,7 @@ best::result<void, cli::error> cli::parse(
     // Look for a relevant subcommand.
     if (auto e = ctx.cur->impl_->find_sub(*next)) {
       ctx.sub = ctx.cur->impl_->subs[e->idx].child;
+      ctx.next_positional = 0;
       goto again;
     }
 
-- 
2.43.0


From 41f499656da8f2337b2763c3f582d0c511ae0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 082/139] fix: the message for a bad positional shows the
 error, not the last flag

---
 best/cli/parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.h b/best/cli/parser.h
index e44e7a5..269135f 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -192,7 +192,7 @@ void cli::type_erase_field(auto f) {
         if (result) { return best::ok(); }
 
         return best::err(best::format("{}: fatal: could not parse argument: {}",
-                                      ctx.exe, ctx.token, *result.err()),
+                                      ctx.exe, *result.err()),
                          /*is_fatal=*/true);
       });
   }
-- 
2.43.0


From cd9c2045960c088def3ebb47697f3cf27c717edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 083/139] fix: a named group inside of a flattened group has a
 help flag

---
 best/cli/parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index dc85827..50a52c7 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -267,7 +267,9 @@ void cli::init() {
 
       auto copy_vis = merge(vis, is_flatten ? Public : Hidden);
       for (auto entry : g->child->impl_->sorted_flags) {
-        if (is_flatten && entry.magic != entry.Ordinary) { continue; }
+        if (is_flatten && entry.magic != entry.Ordinary && entry.idx == -1) {
+          continue;
+        }
 
         if (entry.magic == entry.Ordinary) {
           entry.idx += entry.is_group ? group_offset : flag_offset;
-- 
2.43.0


From e0e507ad0a95ed5f2299254805dfbf1feb574f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 084/139] fix: flags and subcommands can be spelled with
 underscores

---
 best/cli/parser.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 50a52c7..ee0c1e2 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -93,16 +93,25 @@ struct cli::impl {
   /// Pointers to all required flags.
   std::unordered_map<const flag*, best::strbuf> required;
 
+  // Keys spell all of their underscores as dashes, see `normalize()` below.
+  static best::vec<char> to_key(best::pretext<wtf8> tok) {
+    best::vec<char> key;
+    for (char c : tok.as_codes()) { key.push(c == '_' ? '-' : c); }
+    return key;
+  }
+
   best::option<const entry&> find_flag(best::pretext<wtf8> tok) const {
+    auto key = to_key(tok);
     return sorted_flags.as_span()
-      .bisect(tok, &entry::key)
+      .bisect(best::pretext<wtf8>(key), &entry::key)
       .ok()
       .map([&](size_t idx) -> auto&& { return sorted_flags[idx]; });
   }
 
   best::option<const entry&> find_sub(best::pretext<wtf8> tok) const {
+    auto key = to_key(tok);
     return sorted_subs.as_span()
-      .bisect(tok, &entry::key)
+      .bisect(best::pretext<wtf8>(key), &entry::key)
       .ok()
       .map([&](size_t idx) -> auto&& { return sorted_subs[idx]; });
   }
-- 
2.43.0


From e46ea88c947b0dc0ae8a42ae6610dbe391479812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 085/139] fix: required flags of a subcommand are required

---
 best/cli/parser.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index ee0c1e2..51382b3 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -596,11 +596,14 @@ best::result<void, cli::error> cli::parse(
   again:;
   }
 
-  for (const auto& [req, name] : impl_->required) {
-    if (!seen.contains(req)) {
-      return best::err(
-        best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
-        /*is_fatal=*/true);
+  // Check each command on the way to the one that was actually selected.
+  for (auto* cmd = &*ctx.sub->impl_; cmd != nullptr; cmd = cmd->parent) {
+    for (const auto& [req, name] : cmd->required) {
+      if (!seen.contains(req)) {
+        return best::err(
+          best::format("{0}: fatal: missing flag --{1}", ctx.exe, name),
+          /*is_fatal=*/true);
+      }
     }
   }
 
-- 
2.43.0


From 67e604a2d1bbe48e73a3896d5d0d5b7617c626d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 086/139] fix: a deleted flag is not required

---
 best/cli/parser.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 51382b3..b566426 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -318,10 +318,14 @@ void cli::init() {
   // Pull out all of the required flags.
   for (const auto& f : impl_->flags) {
     if (f.get_count() != Required) { continue; }
-    auto name = f.tag->letter != '\0' ? f.about.names[1].first()
-                                      : f.about.names[0].first();
+    auto names = f.about.names[{.start = f.tag->letter != '\0' ? 1 : 0}];
 
-    impl_->required.emplace(f.tag, name);
+    // Note that a flag that is completely deleted can't be provided.
+    for (const auto& [name, vis] : names) {
+      if (vis == Delete) { continue; }
+      impl_->required.emplace(f.tag, name);
+      break;
+    }
   }
 
   // Add magic flags.
-- 
2.43.0


From d056e64141908170f79cf2ca3114ea7a442a4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 087/139] fix: required positionals are required

---
 best/cli/parser.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index b566426..81d6b87 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -394,6 +394,8 @@ best::result<void, cli::error> cli::parse(
   // Pointers to the entries of flags and such that we have seen. This enables
   // us to generate errors for e.g. flag duplication or missing flags.
   std::unordered_set<const flag*> seen;
+  // Same, but for positionals.
+  std::unordered_set<const impl::p*> seen_args;
 
   auto iter = argv.iter();
   while (auto next = iter.next()) {
@@ -589,6 +591,7 @@ best::result<void, cli::error> cli::parse(
     // If not, this is definitely a positional.
     if (auto p = ctx.cur->impl_->args.at(ctx.next_positional)) {
       BEST_GUARD(p->parse(ctx, *next));
+      seen_args.insert(&*p);
       if (p->get_count() != Repeated) { ++ctx.next_positional; }
       goto again;
     }
@@ -609,6 +612,17 @@ best::result<void, cli::error> cli::parse(
           /*is_fatal=*/true);
       }
     }
+
+    if (cmd->parent_group) { continue; }  // These don't have positionals.
+    for (auto [idx, p] : cmd->args.iter().enumerate()) {
+      if (p.get_count() != Required || seen_args.contains(&p)) { continue; }
+
+      auto name = p.tag->name.is_empty() ? best::format("ARG{}", idx + 1)
+                                         : best::strbuf(p.tag->name);
+      return best::err(
+        best::format("{0}: fatal: missing argument <{1}>", ctx.exe, name),
+        /*is_fatal=*/true);
+    }
   }
 
   return best::ok();
-- 
2.43.0


From 85a4021feb2a24f81eddec10bff3a1a854fbf6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 088/139] fix: hidden groups are hidden from help

---
 best/cli/parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 81d6b87..92413a7 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -267,6 +267,7 @@ void cli::init() {
           .is_group = true,
           .is_letter = is_letter,
           .is_alias = name_idx > size_t(has_letter),
+          .vis = vis,
         });
 
         // Letter names for groups are parsed in a different way that does not
-- 
2.43.0


From 54b21735d6665338637705e06dde6e42e8eeccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 089/139] fix: print_and_exit() exits with the code it is given

---
 best/cli/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/cli.cc b/best/cli/cli.cc
index dbbd9ea..02882f3 100644
--- a/best/cli/cli.cc
+++ b/best/cli/cli.cc
@@ -31,7 +31,7 @@ inline constexpr best::str Red = "\N{ESCAPE}[31m";
 void cli::error::print_and_exit(int bad_exit) const {
   if (is_fatal()) {
     best::eprintln("{}{}{}", Red, message(), Reset);
-    std::exit(128);
+    std::exit(bad_exit);
   } else {
     best::println("{}", message());
     std::exit(0);
-- 
2.43.0


From 3b4b91787a397437737d4b631c5a60bd5607eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 090/139] fix: groups can have a letter and no name

---
 best/cli/parser.cc | 6 ++++--
 best/cli/parser.h  | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index 92413a7..a62c502 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -811,7 +811,9 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
     }];
     // Chop off everything past the last `.` to make the prefix.
 
-    auto names = about->names[{.start = has_letter ? 1 : 0}].iter();
+    // Groups may have nothing but a letter.
+    bool skip_letter = has_letter && about->names.size() > 1;
+    auto names = about->names[{.start = skip_letter ? 1 : 0}].iter();
     auto helps = help.split("\n");
     bool first = true;
     for (auto [name, vis] : names) {
@@ -895,7 +897,7 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
     bool has_letter = false;
     if (e.is_group) {
       const auto& g = impl_->groups[e.idx];
-      has_letter = g.tag->letter != '\0';
+      has_letter = g.tag->letter != '\0' && g.about.names.size() > 1;
     }
 
     // This makes us prefer to alphabetize by name.
diff --git a/best/cli/parser.h b/best/cli/parser.h
index 269135f..7000efd 100644
--- a/best/cli/parser.h
+++ b/best/cli/parser.h
@@ -146,7 +146,10 @@ void cli::type_erase_field(auto f) {
       about.names.push(best::format("{}", group.letter), group.vis);
     }
 
-    about.names.push(best::strbuf(group.name), group.vis);
+    // A group with only a letter has no other name.
+    if (group.letter == '\0' || !group.name.is_empty()) {
+      about.names.push(best::strbuf(group.name), group.vis);
+    }
   }
 
   aliases.each([&](auto alias) {
-- 
2.43.0


From 5908129258f90c1ef51c190d716ff27a65dfbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:02 +0000
Subject: [PATCH 091/139] fix: flags without a name are reported, not ignored

---
 best/cli/parser.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index a62c502..cecf670 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -520,8 +520,6 @@ best::result<void, cli::error> cli::parse(
           BEST_GUARD(f.parse(ctx, ""));
           flag = runes->rest();
         }
-
-        if (flag.is_empty()) { goto again; }
       }
 
       ctx.token = *next;
-- 
2.43.0


From d9357972d872e4060b6cb438d0b8c2db4edcd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:59 +0000
Subject: [PATCH 092/139] fix: the usage line does not list hidden subcommands

---
 best/cli/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/cli/parser.cc b/best/cli/parser.cc
index cecf670..4da99b5 100644
--- a/best/cli/parser.cc
+++ b/best/cli/parser.cc
@@ -693,7 +693,7 @@ best::strbuf cli::usage(best::pretext<wtf8> exe, bool hidden) const {
   // Append all of the subcommands.
   bool first = true;
   for (const auto& s : cmd->sorted_subs) {
-    if (s.is_alias) { continue; }
+    if (s.is_alias || !visible(s.vis, hidden)) { continue; }
     if (std::exchange(first, false)) {
       out.push(" [");
     } else {
-- 
2.43.0


From a4fbfede37497aa8069e8705cd7bc99ab0fd4c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 093/139] fix: resizing over-aligned allocations

---
 best/memory/allocator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/best/memory/allocator.cc b/best/memory/allocator.cc
index fec2148..5d4c753 100644
--- a/best/memory/allocator.cc
+++ b/best/memory/allocator.cc
@@ -131,11 +131,15 @@ best::ptr<void> malloc::zalloc(best::layout layout) {
 best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
                                 best::layout layout) {
   check_addr(ptr);
-  check_layout(ptr, old);
+  auto block = ptr;
+  auto old_actual = old;
+  check_layout(block, old_actual);
   auto actual = UseCookies ? embiggen(layout) : layout;
 
-  if (actual.align() <= MaxAlign) {
-    void* p = ::realloc(ptr.raw(), actual.size());
+  // If either alignment is large, the cookies might not have the same size,
+  // and ::realloc() does not respect the alignment.
+  if (old_actual.align() <= MaxAlign && actual.align() <= MaxAlign) {
+    void* p = ::realloc(block.raw(), actual.size());
     if (best::unlikely(p == nullptr)) {
       best::crash_internal::crash(
         "realloc() returned a null pointer on layout %zu:%zu -> %zu:%zu",
@@ -151,7 +155,7 @@ best::ptr<void> malloc::realloc(best::ptr<void> ptr, best::layout old,
   auto p = alloc(layout);
   size_t common = best::min(old.size(), layout.size());
   std::memcpy(p.raw(), ptr.raw(), common);
-  dealloc(ptr, layout);
+  dealloc(ptr, old);
   return p;
 }
 
-- 
2.43.0


From 3ef9fe74392c0ae95d7c4f13eda53dca751b7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:58 +0000
Subject: [PATCH 094/139] fix: pointers to and boxes of const interfaces can be
 made and destroyed

---
 best/func/dyn.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 5ea68ac..8b75c37 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -427,7 +427,8 @@ class dyn<I...>::meta {
   template <typename P>
   constexpr meta(best::tlist<P>, const typename P::metadata&)
     requires (P::is_thin() && (best::implements<typename P::pointee, I> && ...))
-    : vt_(&best::itable<I...>::of(best::types<typename P::pointee>)) {}
+    : vt_(&best::itable<best::un_const<I>...>::of(
+        best::types<typename P::pointee>)) {}
 
   constexpr best::layout layout() const { return vt_->layout(); }
   constexpr auto deref(pointee* ptr) const { return accessor(ptr, vt_); }
@@ -435,7 +436,7 @@ class dyn<I...>::meta {
   template <typename T>
   static constexpr meta meta_for(T&&) requires (best::implements<T, I> && ...)
   {
-    return &best::itable<I...>::of(best::types<T>);
+    return &best::itable<best::un_const<I>...>::of(best::types<T>);
   }
   template <typename T>
   static constexpr void construct(pointee* dst, bool assign, T&& arg) {
@@ -447,10 +448,12 @@ class dyn<I...>::meta {
 
   constexpr void copy(pointee* dst, pointee* src, bool assign) const {
     if (assign) { destroy(dst); }
-    vt_->copy(dst, src);
+    vt_->copy(const_cast<void*>(dst), const_cast<void*>(src));
   }
 
-  constexpr void destroy(pointee* ptr) const { vt_->destroy(ptr); }
+  constexpr void destroy(pointee* ptr) const {
+    vt_->destroy(const_cast<void*>(ptr));
+  }
 
  private:
   metadata vt_ = nullptr;
-- 
2.43.0


From 2d9657a0144885161be4c42bb1efc07dd8a4b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:58 +0000
Subject: [PATCH 095/139] fix: a dyn can be constructed from an lvalue, and
 assigning destroys the old value

---
 best/func/dyn.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 8b75c37..0b8c4a2 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -434,13 +434,18 @@ class dyn<I...>::meta {
   constexpr auto deref(pointee* ptr) const { return accessor(ptr, vt_); }
 
   template <typename T>
-  static constexpr meta meta_for(T&&) requires (best::implements<T, I> && ...)
+  static constexpr meta meta_for(T&&)
+    requires (best::implements<best::as_auto<T>, I> && ...)
   {
-    return &best::itable<best::un_const<I>...>::of(best::types<T>);
+    return &best::itable<best::un_const<I>...>::of(
+      best::types<best::as_auto<T>>);
   }
   template <typename T>
-  static constexpr void construct(pointee* dst, bool assign, T&& arg) {
-    new (dst) T(BEST_FWD(arg));
+  constexpr void construct(pointee* dst, bool assign, T&& arg) const
+    requires (best::implements<best::as_auto<T>, I> && ...)
+  {
+    if (assign) { destroy(dst); }
+    new (const_cast<void*>(dst)) best::as_auto<T>(BEST_FWD(arg));
   }
 
   static constexpr bool is_statically_copyable() { return false; }
-- 
2.43.0


From 608d0fa2b7db0f4e05dd8708665a4ac4a3a95596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:58 +0000
Subject: [PATCH 096/139] fix: const functions of interfaces can have default
 implementations

---
 best/func/internal/dyn.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index 1875ee0..b14a40f 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -194,7 +194,8 @@ class binder_impl {
                 args_)) -> decltype(auto)                                  \
       {                                                                    \
         BEST_IFACE_CONST_(__VA_ARGS__) BEST_This_ BEST_dyn_(               \
-          ::best::addr(BEST_this_),                                        \
+          const_cast<void*>(                                               \
+            static_cast<const void*>(::best::addr(BEST_this_))),           \
           ::best::itable<BEST_This_>::of(::best::types<BEST_T_>).operator->()); \
         return BEST_dyn_.name_(                                            \
           BEST_IFACE_ARGS_(::best::defaulted{}, args_)                     \
-- 
2.43.0


From 92ffba2bea9ea91f8897c66fa7836662d543493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:58 +0000
Subject: [PATCH 097/139] fix: boxes of const values and of references can be
 destroyed

---
 best/container/box.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/box.h b/best/container/box.h
index 4d4aeae..0273eaa 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -144,7 +144,7 @@ class BEST_RELOCATABLE box final {
     if (ptr_.raw() == best::ptr<T>::dangling().raw()) { return; }
 
     ptr_.destroy();
-    allocator().dealloc(ptr_.raw(), ptr_.layout());
+    allocator().dealloc((void*)ptr_.raw(), ptr_.layout());
   }
 
   /// # `box::as_ptr()`
-- 
2.43.0


From 1dd6c817e3e58727502f27a62db954309018c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:58 +0000
Subject: [PATCH 098/139] fix: dereferencing an expiring box of an array does
 not dangle

---
 best/container/box.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 0273eaa..01e09fe 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -186,9 +186,19 @@ class BEST_RELOCATABLE box final {
   constexpr decltype(auto) operator*() const& { return *ptr_.as_const(); }
   constexpr decltype(auto) operator*() & { return *ptr_; }
   constexpr decltype(auto) operator*() const&& {
-    return BEST_MOVE(*ptr_.as_const());
+    if constexpr (best::is_ref<decltype(*ptr_.as_const())>) {
+      return BEST_MOVE(*ptr_.as_const());
+    } else {
+      return *ptr_.as_const();
+    }
+  }
+  constexpr decltype(auto) operator*() && {
+    if constexpr (best::is_ref<decltype(*ptr_)>) {
+      return BEST_MOVE(*ptr_);
+    } else {
+      return *ptr_;
+    }
   }
-  constexpr decltype(auto) operator*() && { return BEST_MOVE(*ptr_); }
   constexpr auto operator->() const { return ptr_.as_const().operator->(); }
   constexpr auto operator->() { return ptr_.operator->(); }
 
-- 
2.43.0


From f8a000b2b8b7d42884ff35217ab4ae4701d99702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:56 +0000
Subject: [PATCH 099/139] fix: interfaces with default implementations can be
 combined with others

---
 best/func/dyn.h          | 5 +++++
 best/func/internal/dyn.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/best/func/dyn.h b/best/func/dyn.h
index 0b8c4a2..874e97c 100644
--- a/best/func/dyn.h
+++ b/best/func/dyn.h
@@ -404,6 +404,11 @@ template <typename T>
 constexpr const itable<I...>& itable<I...>::of(best::tlist<T>)
   requires (best::implements<T, I> && ...)
 {
+  // Default implementations refer to the itable of their own interface, which
+  // must not happen in the middle of instantiating this one.
+  if constexpr (sizeof...(I) > 1) {
+    ((void)best::dyn_internal::impl<best::un_ref<T>, best::as_auto<I>>, ...);
+  }
   return best::dyn_internal::impl<best::un_ref<T>, best::as_auto<I>...>;
 }
 
diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index b14a40f..b10f96b 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -43,7 +43,7 @@ struct access {
 };
 
 template <typename I, typename T>
-constexpr auto apply_vtable_defaults(auto vt) {
+constexpr I::BestVtable apply_vtable_defaults(typename I::BestVtable vt) {
   if constexpr (requires {
                   { I::template BestFuncDefaults<T>(vt) };
                 }) {
-- 
2.43.0


From dd35ccb54ae492fec8aca9896a9bfc3d612ce301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:09 +0000
Subject: [PATCH 100/139] fix: indexing a const box of an array does not give
 mutable access

---
 best/container/box.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 01e09fe..18afa98 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -207,11 +207,11 @@ class BEST_RELOCATABLE box final {
   /// If the pointee of this `box` is indexable or callable, these functions
   /// will forward to it.
   // clang-format off
-  constexpr decltype(auto) operator[](size_t i) const requires requires { as_ptr()[i]; } { return as_ptr()[i]; }
+  constexpr decltype(auto) operator[](size_t i) const requires requires { as_ptr()[i]; } { return as_ptr().as_const()[i]; }
   constexpr decltype(auto) operator[](size_t i) requires requires { as_ptr()[i]; } { return as_ptr()[i]; }
-  constexpr decltype(auto) operator[](bounds i) const requires requires { as_ptr()[i]; } { return as_ptr()[i]; }
+  constexpr decltype(auto) operator[](bounds i) const requires requires { as_ptr()[i]; } { return as_ptr().as_const()[i]; }
   constexpr decltype(auto) operator[](bounds i) requires requires { as_ptr()[i]; } { return as_ptr()[i]; }
-  constexpr decltype(auto) operator[](auto&& i) const requires requires { as_ptr()[i]; } { return as_ptr()[i]; }
+  constexpr decltype(auto) operator[](auto&& i) const requires requires { as_ptr()[i]; } { return as_ptr().as_const()[i]; }
   constexpr decltype(auto) operator[](auto&& i) requires requires { as_ptr()[i]; } { return as_ptr()[i]; }
   constexpr decltype(auto) operator()(auto&&... args) const requires requires { as_ptr()(BEST_FWD(args)...); } {
     return as_ptr()(BEST_FWD(args)...);
-- 
2.43.0


From b6f599285d4def0fb52a27aafa29c3841b6d88c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:09 +0000
Subject: [PATCH 101/139] fix: ptr::try_copy_assign() destroys a value of
 another dynamic type as such

---
 best/memory/ptr.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 21c15e3..4392708 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -650,6 +650,14 @@ class ptr final {
   BEST_INLINE_ALWAYS constexpr ptr
   try_copy_assign(ptr from) const {
     if (!from.can_copy()) { return nullptr; }
+    if constexpr (!thin && requires { meta() != from.meta(); }) {
+      // The new value may have another dynamic type or length, in which case
+      // the old one cannot be assigned to.
+      if (meta() != from.meta()) {
+        destroy();
+        return try_copy(from);
+      }
+    }
     from.meta_().copy(raw(), from.raw(), true);
     return ptr{raw(), from.meta()};
   }
-- 
2.43.0


From 5649fa04576ae33a309aa8bd35433cf452345b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:24 +0000
Subject: [PATCH 102/139] fix: functions of interfaces can return references

---
 best/func/internal/dyn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/internal/dyn.h b/best/func/internal/dyn.h
index b10f96b..6b4fceb 100644
--- a/best/func/internal/dyn.h
+++ b/best/func/internal/dyn.h
@@ -90,7 +90,7 @@ class binder_impl {
   constexpr binder_impl(std::nullptr_t){};
 
   constexpr binder_impl(no_captures auto closure)
-    : fnptr_(+[](ptr self, Args... args) {
+    : fnptr_(+[](ptr self, Args... args) -> R {
         decltype(closure) closure;
         return closure(ptr_cast{.ptr = self}, BEST_FWD(args)...);
       }) {}
-- 
2.43.0


From 0c9a7758c5d70683fcae8b51f87a5b7267be454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 103/139] fix: box::try_copy() compiles for allocators with
 state

---
 best/container/box.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/best/container/box.h b/best/container/box.h
index 18afa98..e5b876d 100644
--- a/best/container/box.h
+++ b/best/container/box.h
@@ -368,12 +368,13 @@ constexpr best::option<box<T, A>> box<T, A>::try_copy() const
 {
   if (!as_ptr().can_copy()) { return best::none; }
 
+  alloc alloc = allocator();
   best::ptr<T> copy{
-    allocator().alloc(as_ptr().layout()).cast(best::types<pointee>),
+    alloc.alloc(as_ptr().layout()).cast(best::types<pointee>),
     {},
   };
-  return box(best::unsafe("raw has been appropriately allocated"), allocator(),
-             copy.try_copy(as_ptr()));
+  return box(best::unsafe("raw has been appropriately allocated"),
+             BEST_MOVE(alloc), copy.try_copy(as_ptr()));
 }
 
 }  // namespace best
-- 
2.43.0


From 1e786a00111f0fe6a38b9286d71d20a0346e896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 104/139] fix: copying and moving references through pointers
 compiles

---
 best/memory/ptr.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/best/memory/ptr.h b/best/memory/ptr.h
index 4392708..bc9c3a5 100644
--- a/best/memory/ptr.h
+++ b/best/memory/ptr.h
@@ -557,7 +557,7 @@ class ptr final {
   BEST_INLINE_ALWAYS void fill(uint8_t byte, size_t count = 1) const
     requires thin
   {
-    best::ptr_internal::memset(raw(), byte, count * layout().size());
+    best::ptr_internal::memset((void*)raw(), byte, count * layout().size());
   }
 
   /// # `ptr::copy()`, `ptr::move()`, ptr::relo()`
@@ -983,16 +983,16 @@ BEST_INLINE_SYNTHETIC constexpr void ptr<T>::copy_impl(ptr<U> that,
     if (how.should_memcpy()) {
       auto len = count * sizeof(pointee);
       if constexpr (how.overlapping) {
-        best::ptr_internal::memmove(raw(), that.raw(), len);
+        best::ptr_internal::memmove((void*)raw(), that.raw(), len);
       } else {
-        best::ptr_internal::memcpy(raw(), that.raw(), len);
+        best::ptr_internal::memcpy((void*)raw(), that.raw(), len);
       }
 
       // Even when relocating we shouldn't run destructors here. However, we
       // can still clobber the moved-from bytes.
       if constexpr (how.kind == how::Relo) {
         if (!std::is_constant_evaluated() && best::is_debug()) {
-          best::ptr_internal::memset(that.raw(), Magic, len);
+          best::ptr_internal::memset((void*)that.raw(), Magic, len);
         }
       }
 
@@ -1065,7 +1065,7 @@ BEST_INLINE_ALWAYS constexpr void ptr<T>::relo_overlapping(ptr<T> that,
   if constexpr (how.template can_memcpy<T>()) {
     if (how.should_memcpy()) {
       auto len = count * sizeof(pointee);
-      best::ptr_internal::memmove(raw(), that.raw(), len);
+      best::ptr_internal::memmove((void*)raw(), that.raw(), len);
       return;
     }
   }
-- 
2.43.0


From a8b2c7094ce7a406688a05d8a3d9aed91202b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 105/139] fix: tap[x] indexes with x, not with the tapped value

---
 best/func/tap.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index fd62e71..9408aa4 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -175,27 +175,27 @@ constexpr auto tap<Guard, Cb>::operator()(auto&&... args) && {
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) & {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) & {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->**this)[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->**this)[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) const&& {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) const&& {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 template <typename Guard, typename Cb>
-constexpr auto tap<Guard, Cb>::operator[](auto&& arg) && {
+constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
   return best::tap([&](auto&& arg) -> decltype(auto) {
-    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(arg)];
+    return ((BEST_FWD(arg))->*BEST_MOVE(*this))[BEST_FWD(idx)];
   });
 }
 
-- 
2.43.0


From bfc368bdc557278190c562af7a097eba845e572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 106/139] fix: best::inspect() returns its argument

---
 best/func/tap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 9408aa4..425856c 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -202,13 +202,13 @@ constexpr auto tap<Guard, Cb>::operator[](auto&& idx) && {
 constexpr auto inspect(auto&& cb) {
   return best::tap([cb = BEST_FWD(cb)](auto&& arg) -> decltype(auto) {
     (void)best::call(cb, BEST_FWD(arg));
-    BEST_FWD(arg);
+    return BEST_FWD(arg);
   });
 }
 constexpr auto inspect(best::bind_t, auto&& cb) {
   return best::tap([&](auto&& arg) -> decltype(auto) {
     (void)best::call(BEST_FWD(cb), BEST_FWD(arg));
-    BEST_FWD(arg);
+    return BEST_FWD(arg);
   });
 }
 }  // namespace best
-- 
2.43.0


From 1a5feca985c120781f7d3aa59cbee05ef837a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 107/139] fix: a defer that runs itself does not run its
 callback again

---
 best/func/defer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/defer.h b/best/func/defer.h
index 5c87e3b..e8164c2 100644
--- a/best/func/defer.h
+++ b/best/func/defer.h
@@ -64,8 +64,8 @@ class [[nodiscard(
   /// Forcibly runs the defer. Further calls to run() will have no effect.
   constexpr void run() {
     if (!cancelled_) {
-      best::call(cb_);
       cancel();
+      best::call(cb_);
     }
   }
 
-- 
2.43.0


From 30fd00e5117e3d773586084d9d7bd6042dbd977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 108/139] fix: fnref of a function returning a reference
 compiles

---
 best/func/internal/fnref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 22f5a56..1f31990 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -65,7 +65,7 @@ class impl {
     constexpr bound(std::nullptr_t){};
 
     constexpr bound(no_captures auto closure)
-      : pc_(+[](ptr thiz, Args... args) {
+      : pc_(+[](ptr thiz, Args... args) -> R {
           decltype(closure) closure;
           return closure(ptr_cast{.ptr = thiz}, BEST_FWD(args)...);
         }) {}
-- 
2.43.0


From 190ca424d7b495941754d68d4cbf5b6325e53ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 109/139] fix: best::call() can call functions and members that
 want an rvalue

---
 best/func/internal/call.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/func/internal/call.h b/best/func/internal/call.h
index 5f37184..c5eb57b 100644
--- a/best/func/internal/call.h
+++ b/best/func/internal/call.h
@@ -38,7 +38,7 @@ BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(
   best::is_func auto Class::*member, auto&& self, auto&&... args)
   requires requires {
     requires sizeof...(Ts) == 0;
-    (self.*member)(BEST_FWD(args)...);
+    (BEST_FWD(self).*member)(BEST_FWD(args)...);
   }
 {
   return (BEST_FWD(self).*member)(BEST_FWD(args)...);
@@ -77,7 +77,7 @@ template <typename... Args>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(Args) == 0;
-    func(BEST_FWD(args)...);
+    BEST_FWD(func)(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func)(BEST_FWD(args)...);
@@ -86,7 +86,7 @@ template <typename... Args>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(Args) > 0;
-    func.template operator()<Args...>(BEST_FWD(args)...);
+    BEST_FWD(func).template operator()<Args...>(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func).template operator()<Args...>(BEST_FWD(args)...);
@@ -96,7 +96,7 @@ template <auto... targs>
 BEST_INLINE_SYNTHETIC constexpr decltype(auto) call(auto&& func, auto&&... args)
   requires requires {
     requires sizeof...(targs) > 0;
-    func.template operator()<targs...>(BEST_FWD(args)...);
+    BEST_FWD(func).template operator()<targs...>(BEST_FWD(args)...);
   }
 {
   return BEST_FWD(func).template operator()<targs...>(BEST_FWD(args)...);
-- 
2.43.0


From 5f008d210971af6d48e5c03d41469254a2e0a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 110/139] fix: deref_arrow() follows the operator->s of every
 type

---
 best/func/arrow.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/best/func/arrow.h b/best/func/arrow.h
index 5b3b275..a88dc54 100644
--- a/best/func/arrow.h
+++ b/best/func/arrow.h
@@ -58,20 +58,30 @@
 //! full expression, so the pointer that the final `->b` offsets will be valid.
 
 namespace best {
+namespace arrow_internal {
+template <typename A>
+constexpr bool can_deref() {
+  if constexpr (best::is_raw_ptr<best::as_auto<A>>) {
+    return true;
+  } else if constexpr (requires(A a) { static_cast<A&&>(a).operator->(); }) {
+    return can_deref<decltype(static_cast<A&&>(best::lie<A>).operator->())>();
+  } else {
+    return false;
+  }
+}
+}  // namespace arrow_internal
+
 /// # `best::deref_arrow()`
 ///
 /// Runs an `operator->` deref sequence to completion, simulating the result
 /// of doing `x->y`, without the final "real" `->y` part.
 template <typename A>
-auto* deref_arrow(A&& ptr) requires (best::is_raw_ptr<best::as_auto<A>> ||
-                                     requires {
-                                       { deref_arrow(ptr.operator->()) };
-                                     })
+constexpr auto* deref_arrow(A&& ptr) requires (arrow_internal::can_deref<A>())
 {
   if constexpr (best::is_raw_ptr<best::as_auto<A>>) {
     return ptr;
   } else {
-    return deref_arrow(BEST_MOVE(ptr).operator->());
+    return best::deref_arrow(BEST_FWD(ptr).operator->());
   }
 }
 
-- 
2.43.0


From 06b91edc0150faf9cad28662dfdc7e05b2f8348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:18 +0000
Subject: [PATCH 111/139] fix: fnref<R(...)> can be made from a const function
 object

---
 best/func/internal/fnref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/func/internal/fnref.h b/best/func/internal/fnref.h
index 1f31990..ef8af72 100644
--- a/best/func/internal/fnref.h
+++ b/best/func/internal/fnref.h
@@ -93,7 +93,7 @@ class impl {
   constexpr impl(const auto& fn)
     requires best::callable<decltype(fn), R(Args...)> &&
                (!no_captures<decltype(fn)>)
-    : ptr_(best::addr(fn)),
+    : ptr_(const_cast<ptr>(static_cast<const void*>(best::addr(fn)))),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
           best::call(f, BEST_FWD(args)...);
@@ -104,7 +104,7 @@ class impl {
 
   constexpr impl(best::callable<R(Args...)> auto&& fn)
     requires (!best::is_const_func<Func>) && (!no_captures<decltype(fn)>)
-    : ptr_(best::addr(fn)),
+    : ptr_(const_cast<ptr>(static_cast<const void*>(best::addr(fn)))),
       fnptr_{.bound = [](decltype(fn)& f, Args... args) -> R {
         if constexpr (best::is_void<R>) {
           best::call(f, BEST_FWD(args)...);
-- 
2.43.0


From 3d6ed2f854cdaaac5a7c5622f7a998598731dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:38 +0000
Subject: [PATCH 112/139] fix: a temporary tap bound to an lvalue can be called

---
 best/func/tap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/func/tap.h b/best/func/tap.h
index 425856c..dd5bef0 100644
--- a/best/func/tap.h
+++ b/best/func/tap.h
@@ -93,8 +93,10 @@ class [[nodiscard(
   /// Gets a reference to the wrapped callback.
   constexpr const Cb& callback() const& { return cb_; }
   constexpr Cb& callback() & { return cb_; }
-  constexpr const Cb&& callback() const&& { return BEST_MOVE(cb_); }
-  constexpr Cb&& callback() && { return BEST_MOVE(cb_); }
+  constexpr const Cb&& callback() const&& {
+    return static_cast<const Cb&&>(cb_);
+  }
+  constexpr Cb&& callback() && { return static_cast<Cb&&>(cb_); }
 
   /// # `tap()`, `tap[]`
   ///
-- 
2.43.0


From 973b4450ac4d1cecea62e00fc15e772cba51c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:32 +0000
Subject: [PATCH 113/139] fix: row::selectable compiles

---
 best/container/row.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/row.h b/best/container/row.h
index 922c1b7..4771da4 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -158,7 +158,7 @@ class row final
   /// such that `U::BestRowKey` is `T`.
   template <typename T>
   static constexpr bool selectable =
-    row_internal::lookup<T>.template count<T>() > 0;
+    row_internal::lookup<T, Elems...>[0] > 0;
 
  private:
   using impl = row_internal::impl<decltype(indices), Elems...>;
-- 
2.43.0


From 888ba3a03a74fa32933ea7538f1306763fd7510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:32 +0000
Subject: [PATCH 114/139] fix: rows can be ordered

---
 best/container/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 4771da4..65ca404 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -521,13 +521,13 @@ class row final
   }
 
   template <typename... Us>
-  constexpr auto operator<=>(const choice<Us...>& that) const
+  constexpr auto operator<=>(const row<Us...>& that) const
     requires (best::comparable<Elems, Us> && ...)
   {
     using Output = best::common_ord<best::order_type<Elems, Us>...>;
     Output result = Output::equivalent;
 
-    return indices.each([&](auto i) {
+    indices.each([&](auto i) {
       if (result == 0) { result = get(i) <=> that.get(i); }
     });
 
-- 
2.43.0


From f62fc5daa3436de17b9842c303edd28b254fb461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:32 +0000
Subject: [PATCH 115/139] fix: row::scatter() uses the types it is given

---
 best/container/row.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/container/row.h b/best/container/row.h
index 65ca404..524d53d 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -1345,7 +1345,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const& {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1354,7 +1354,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) & {
-  return row_internal::scatter<n...>(*this, those.types, BEST_FWD(those));
+  return row_internal::scatter<n...>(*this, those_types, BEST_FWD(those));
 }
 
 template <typename... A>
@@ -1363,7 +1363,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) const&& {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
@@ -1373,7 +1373,7 @@ BEST_ROW_MUST_USE(scatter)
 constexpr auto row<A...>::scatter(best::tlist<Ts...> those_types,
                                   best::is_row auto&& those,
                                   best::vlist<n...>) && {
-  return row_internal::scatter<n...>(BEST_MOVE(*this), those.types,
+  return row_internal::scatter<n...>(BEST_MOVE(*this), those_types,
                                      BEST_FWD(those));
 }
 
-- 
2.43.0


From 4b8e8f0462ccfada64d87cad0a4f3e9340693d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:32 +0000
Subject: [PATCH 116/139] fix: row::scatter() moves out of the row it is given

---
 best/container/internal/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/internal/row.h b/best/container/internal/row.h
index 19295ed..ec43ff6 100644
--- a/best/container/internal/row.h
+++ b/best/container/internal/row.h
@@ -200,9 +200,9 @@ constexpr auto scatter(auto&& row, auto those_types, auto&& those)
       ((i < lut.size() ? lut[i] = n++ : 0), ...);
       return lut;
     }();
-    return those.apply([&](auto&&... args) {
+    return BEST_FWD(those).apply([&](auto&&... args) {
       return Out{best::row{best::bind, BEST_FWD(row)[J{}],
-                           args...}[best::index<lut[J::value]>]...};
+                           BEST_FWD(args)...}[best::index<lut[J::value]>]...};
     });
   });
 }
-- 
2.43.0


From 0f9010bf33c4ea44456dfd32f95321a36982923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:32 +0000
Subject: [PATCH 117/139] fix: rows with void elements can be gathered and
 scattered

---
 best/container/internal/row.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/internal/row.h b/best/container/internal/row.h
index ec43ff6..8a42f35 100644
--- a/best/container/internal/row.h
+++ b/best/container/internal/row.h
@@ -177,7 +177,7 @@ constexpr auto gather(auto&& row)
 {
   using Out =
     decltype(row.types.template gather<i...>().template apply<best::row>());
-  return Out{BEST_FWD(row)[best::index<i>]...};
+  return Out{BEST_FWD(row).get(best::index<i>)...};
 }
 template <size_t... i>
 constexpr auto scatter(auto&& row, auto those_types, auto&& those)
@@ -201,7 +201,7 @@ constexpr auto scatter(auto&& row, auto those_types, auto&& those)
       return lut;
     }();
     return BEST_FWD(those).apply([&](auto&&... args) {
-      return Out{best::row{best::bind, BEST_FWD(row)[J{}],
+      return Out{best::row{best::bind, BEST_FWD(row).get(J{}),
                            BEST_FWD(args)...}[best::index<lut[J::value]>]...};
     });
   });
-- 
2.43.0


From 2b856b4a0489da0a42a99783246b2627ebb77f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:42 +0000
Subject: [PATCH 118/139] fix: objects of rvalue references can be assigned

---
 best/container/object.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/container/object.h b/best/container/object.h
index f1cd2d5..192d89f 100644
--- a/best/container/object.h
+++ b/best/container/object.h
@@ -113,7 +113,7 @@ class object final {
   ///
   /// Assigns to the wrapped value via `ptr::assign()`'s semantics.
   template <typename Arg>
-  constexpr object& operator=(Arg&& arg) requires best::assignable<T, Arg>
+  constexpr object& operator=(Arg&& arg) requires best::assignable<T, Arg&&>
   {
     as_ptr().assign(BEST_FWD(arg));
     return *this;
-- 
2.43.0


From cb4062ec6ca16d0d2a497f8a9946afc30f1b6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 119/139] fix: objects of arrays destroy the
 default-constructed elements they replace

---
 best/container/object.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/best/container/object.h b/best/container/object.h
index 192d89f..bd25f12 100644
--- a/best/container/object.h
+++ b/best/container/object.h
@@ -98,6 +98,8 @@ class object final {
     requires best::constructible<T, Args&&...> &&
              (!best::is_object<T> || std::is_array_v<T>)
   {
+    // Members of array type have been default-constructed at this point.
+    if constexpr (std::is_array_v<T>) { as_ptr().destroy(); }
     as_ptr().construct(BEST_FWD(args)...);
   }
   template <typename... Args>
-- 
2.43.0


From 61a0e3493573af7dc3834232c939a65275e340c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 120/139] fix: puns with references are copied with the
 reference

---
 best/container/internal/pun.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/best/container/internal/pun.h b/best/container/internal/pun.h
index e081760..dd1266c 100644
--- a/best/container/internal/pun.h
+++ b/best/container/internal/pun.h
@@ -39,12 +39,12 @@ struct info_t {
 };
 template <typename... Ts>
 inline constexpr info_t info = {
-  ((std::is_void_v<Ts> || std::is_trivially_default_constructible_v<Ts>)&&...),
-  ((std::is_void_v<Ts> || std::is_trivially_copyable_v<Ts>)&&...),
-  ((std::is_void_v<Ts> || (std::is_trivially_move_constructible_v<Ts> &&
-                           std::is_trivially_move_assignable_v<Ts>)) &&
+  (std::is_trivially_default_constructible_v<best::object<Ts>> && ...),
+  (std::is_trivially_copyable_v<best::object<Ts>> && ...),
+  ((std::is_trivially_move_constructible_v<best::object<Ts>> &&
+    std::is_trivially_move_assignable_v<best::object<Ts>>) &&
    ...),
-  ((std::is_void_v<Ts> || std::is_trivially_destructible_v<Ts>)&&...),
+  (std::is_trivially_destructible_v<best::object<Ts>> && ...),
 };
 
 // A raw union.
-- 
2.43.0


From 63f08abfe6d2626a17af40338fefcc5351927982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:16 +0000
Subject: [PATCH 121/139] fix: puns that cannot be copied delete their copy
 operations

---
 best/container/internal/pun.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/container/internal/pun.h b/best/container/internal/pun.h
index dd1266c..749f8ca 100644
--- a/best/container/internal/pun.h
+++ b/best/container/internal/pun.h
@@ -57,8 +57,8 @@ union impl;
                                                                                           \
   constexpr impl(const impl&) requires (info.trivial_copy()) = default;                     \
   constexpr impl& operator=(const impl&) requires (info.trivial_copy()) = default;          \
-  constexpr impl(const impl&) requires (!info.trivial_copy()) {}                            \
-  constexpr impl& operator=(const impl&) requires (!info.trivial_copy()) { return *this; }  \
+  constexpr impl(const impl&) requires (!info.trivial_copy()) = delete;                     \
+  constexpr impl& operator=(const impl&) requires (!info.trivial_copy()) = delete;          \
                                                                                           \
   constexpr impl(impl&&) requires (info.trivial_move()) = default;                          \
   constexpr impl& operator=(impl&&) requires (info.trivial_move()) = default;               \
-- 
2.43.0


From 6c58aa2241885f1075286339f2245ba336e6aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:18 +0000
Subject: [PATCH 122/139] fix: BEST_GUARD moves errors out of expiring results

---
 best/base/guard.h       | 3 ++-
 best/container/result.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/best/base/guard.h b/best/base/guard.h
index f06b29b..952f694 100644
--- a/best/base/guard.h
+++ b/best/base/guard.h
@@ -73,7 +73,8 @@ struct impl {
     return BestGuardResidual(best::ftadle{}, BEST_FWD(result));
   }
   constexpr decltype(auto) operator,(auto&& residual) {
-    return BestGuardReturn(best::ftadle{}, BEST_FWD(result), residual);
+    return BestGuardReturn(best::ftadle{}, BEST_FWD(result),
+                           BEST_FWD(residual));
   }
   constexpr explicit operator bool() { return static_cast<bool>(result); }
 
diff --git a/best/container/result.h b/best/container/result.h
index 408729d..5a6f402 100644
--- a/best/container/result.h
+++ b/best/container/result.h
@@ -640,7 +640,7 @@ constexpr auto result<T, E>::then(auto&& f) && {
 }
 
 constexpr decltype(auto) BestGuardResidual(auto&&, is_result auto&& r) {
-  return *r.err();
+  return *BEST_FWD(r).err();
 }
 constexpr auto BestGuardReturn(auto&&, is_result auto&&, auto&& e) {
   return best::err(BEST_FWD(e));
-- 
2.43.0


From 400cc45448d5f94e80dc9daf3133ffa551ed83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 123/139] fix: best::op::Xor is exclusive or

---
 best/meta/internal/ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/internal/ops.h b/best/meta/internal/ops.h
index 46aedb9..762db06 100644
--- a/best/meta/internal/ops.h
+++ b/best/meta/internal/ops.h
@@ -43,7 +43,7 @@ BEST_OP_FOLD_CASE_(Rem, %)
 BEST_OP_FOLD_CASE_(AndAnd, &&)
 BEST_OP_FOLD_CASE_(OrOr, ||)
 
-BEST_OP_FOLD_CASE_(Xor, +)
+BEST_OP_FOLD_CASE_(Xor, ^)
 BEST_OP_FOLD_CASE_(And, &)
 BEST_OP_FOLD_CASE_(Or, |)
 BEST_OP_FOLD_CASE_(Shl, <<)
-- 
2.43.0


From 9c7691106f3ff451913b4db8581d110ec756dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 124/139] fix: best::op::Lt and Le, Gt and Ge are not swapped

---
 best/meta/internal/ops.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/best/meta/internal/ops.h b/best/meta/internal/ops.h
index 762db06..76a4a03 100644
--- a/best/meta/internal/ops.h
+++ b/best/meta/internal/ops.h
@@ -51,10 +51,10 @@ BEST_OP_FOLD_CASE_(Shr, >>)
 
 BEST_OP_FOLD_CASE_(Eq, ==)
 BEST_OP_FOLD_CASE_(Ne, !=)
-BEST_OP_FOLD_CASE_(Le, <)
-BEST_OP_FOLD_CASE_(Lt, <=)
-BEST_OP_FOLD_CASE_(Ge, >)
-BEST_OP_FOLD_CASE_(Gt, >=)
+BEST_OP_FOLD_CASE_(Lt, <)
+BEST_OP_FOLD_CASE_(Le, <=)
+BEST_OP_FOLD_CASE_(Gt, >)
+BEST_OP_FOLD_CASE_(Ge, >=)
 
 BEST_OP_FOLD_CASE_(Comma, , )
 
-- 
2.43.0


From 5e6b1d3bbfc75d44c758168457503dbf99a35a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 125/139] fix: tlist::update() replaces the element instead of
 inserting before it

---
 best/meta/tlist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 3d8d93c..f056aae 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -538,13 +538,13 @@ template <typename... Elems>
 template <size_t n, typename T>
 BEST_TLIST_MUST_USE(update)
 constexpr auto tlist<Elems...>::update() {
-  return splice<bounds{.start = n, .count = 0}, tlist>(best::types<T>);
+  return splice<bounds{.start = n, .count = 1}, tlist>(best::types<T>);
 }
 template <typename... Elems>
 template <size_t n, auto v>
 BEST_TLIST_MUST_USE(update)
 constexpr auto tlist<Elems...>::update() {
-  return splice<bounds{.start = n, .count = 0}, tlist>(best::vals<v>);
+  return splice<bounds{.start = n, .count = 1}, tlist>(best::vals<v>);
 }
 
 template <typename... Elems>
-- 
2.43.0


From 3260d3d53b770768e7a65b0d8205f266b859999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 126/139] fix: tlist::map() with a trait of values compiles

---
 best/meta/tlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index f056aae..9f92289 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -473,7 +473,7 @@ constexpr decltype(auto) tlist<Elems...>::map() {
 template <typename... Elems>
 template <template <auto> typename Trait>
 constexpr decltype(auto) tlist<Elems...>::map() {
-  return types<Trait<Elems::values>...>;
+  return types<Trait<Elems::value>...>;
 }
 
 template <typename... Elems>
-- 
2.43.0


From 091205b88c0a7c5e8aad13d5cc342f9d56c80500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 127/139] fix: tlist::operator+ can be used on constants

---
 best/meta/tlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 9f92289..25dcae1 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -192,7 +192,7 @@ class tlist final {
   /// `operator+` here is quadratic; you should generally prefer `join()` for
   /// variadic cases.
   static constexpr auto join(best::is_tlist auto... those);
-  auto operator+(best::is_tlist auto that) { return join(that); }
+  constexpr auto operator+(best::is_tlist auto that) const { return join(that); }
 
   /// # `tlist::push()`
   ///
-- 
2.43.0


From 1b437245eba26cc3067df65392e6f4345145d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 128/139] fix: tlist::value uses its default

---
 best/meta/tlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 25dcae1..3f768fc 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -172,7 +172,7 @@ class tlist final {
   template <size_t n, auto default_ = strict{}>
   static constexpr auto value =
     type<n, best::select<tlist_internal::not_strict<decltype(default_)>,
-                         tlist_internal::strict, val<default_>>>::value;
+                         val<default_>, tlist_internal::strict>>::value;
 
   /// # `tlist::at()`
   ///
-- 
2.43.0


From e8f1c247bd1db9cd4b6ba878800799a750feba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 129/139] fix: tlist::trim_suffix() removes suffixes

---
 best/meta/tlist.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 3f768fc..1358da2 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -434,13 +434,6 @@ class tlist final {
     return {};
   }
   static constexpr void remove_prefix_from(auto) {}
-
-  template <typename... Extra>
-  static constexpr tlist<Extra...> remove_suffix_from(
-    tlist<Extra..., Elems...>) {
-    return {};
-  }
-  static constexpr void remove_suffix_from(auto) {}
 };
 }  // namespace best
 
@@ -578,11 +571,15 @@ template <typename Default>
 BEST_TLIST_MUST_USE(trim_suffix)
 constexpr auto tlist<Elems...>::trim_suffix(best::is_tlist auto list) {
   using D = best::select<tlist_internal::not_strict<Default>, Default, tlist>;
-  using Out = decltype(list.remove_suffix_from(tlist{}));
-  if constexpr (std::is_void_v<Out>) {
+  if constexpr (list.size() > size()) {
     return D{};
   } else {
-    return Out{};
+    constexpr size_t n = size() - list.size();
+    if constexpr (at<bounds{.start = n}>() == list) {
+      return at<bounds{.count = n}>();
+    } else {
+      return D{};
+    }
   }
 }
 
-- 
2.43.0


From 4d5ab82a10868917ae99cf889e08b6024228fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 130/139] fix: tlist::find() is not ambiguous on empty lists

---
 best/meta/tlist.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/best/meta/tlist.h b/best/meta/tlist.h
index 1358da2..2f766cf 100644
--- a/best/meta/tlist.h
+++ b/best/meta/tlist.h
@@ -310,7 +310,8 @@ class tlist final {
     return find([]<typename U> { return Trait<U>::value; });
   }
   static constexpr auto find(auto value)
-    requires (best::equatable<decltype(value), decltype(Elems::value)> && ...)
+    requires (sizeof...(Elems) > 0) &&
+             (best::equatable<decltype(value), decltype(Elems::value)> && ...)
   {
     return find([&](auto that) { return value == that.value; });
   }
@@ -343,7 +344,8 @@ class tlist final {
     return find_unique([]<typename U> { return Trait<U>::value; });
   }
   static constexpr auto find_unique(auto value)
-    requires (best::equatable<decltype(value), decltype(Elems::value)> && ...)
+    requires (sizeof...(Elems) > 0) &&
+             (best::equatable<decltype(value), decltype(Elems::value)> && ...)
   {
     return find_unique([&](auto that) { return value == that.value; });
   }
-- 
2.43.0


From 91e87f6dacb02b1c4e04341eec9db95162ad54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 131/139] fix: tlist::scatter() discards out-of-bounds writes

---
 best/meta/internal/tlist.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/best/meta/internal/tlist.h b/best/meta/internal/tlist.h
index 2c3059c..30d468c 100644
--- a/best/meta/internal/tlist.h
+++ b/best/meta/internal/tlist.h
@@ -175,14 +175,12 @@ auto gather_impl(tlist<Ts...>) {
 template <typename Default, typename Pack, size_t... i>
 using gather = decltype(gather_impl<Default, i...>(best::lie<Pack>));
 
-template <size_t... i, size_t... j, typename... Ts,
-          typename... Us>
-requires ((i < sizeof...(Ts)) && ...)  // Fast path for no out-of-bounds.
+template <size_t... i, size_t... j, typename... Ts, typename... Us>
 auto scatter_impl(std::index_sequence<j...>, tlist<Ts...>, tlist<Us...>) {
   constexpr auto lut = [] {
     std::array<size_t, sizeof...(Ts)> lut{(j - j)...};
     size_t n = 1;
-    ((i < lut.size() ? lut[i] = n++ : 0), ...);
+    ((i < lut.size() ? lut[i] = n : 0, ++n), ...);
     return lut;
   }();
 
-- 
2.43.0


From 29d1edebb1214f6f094f78d84b24718783c4a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:57 +0000
Subject: [PATCH 132/139] fix: the names of types nested in templates are
 theirs

---
 best/meta/names.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/best/meta/names.h b/best/meta/names.h
index cfc910a..f93e400 100644
--- a/best/meta/names.h
+++ b/best/meta/names.h
@@ -112,11 +112,22 @@ BEST_POP_GCC_DIAGNOSTIC()
 namespace best {
 constexpr type_names::type_names(names_internal::priv, best::str name)
   : full_name_(name) {
-  first_angle_ = full_name_.find('<').value_or(full_name_.size());
+  // Find the last `::` that is not part of a template parameter; the identifier
+  // follows it.
+  auto codes = full_name_.as_codes();
+  size_t depth = 0;
+  last_colcol_ = 0;
+  for (size_t i = 0; i < codes.size(); ++i) {
+    char c = codes[i];
+    if (c == '<' || c == '(') { ++depth; }
+    if (c == '>' || c == ')') { --depth; }
+    if (depth == 0 && c == ':' && i > 0 && codes[i - 1] == ':') {
+      last_colcol_ = i + 1;
+    }
+  }
 
-  last_colcol_ =
-    first_angle_ -
-    names_internal::remove_namespace(full_name_[{.end = first_angle_}]).size();
+  auto angle = full_name_[{.start = last_colcol_}].find('<');
+  first_angle_ = angle ? last_colcol_ + *angle : full_name_.size();
 }
 
 }  // namespace best
-- 
2.43.0


From a827af09fd402cddcde0c6c2b83f177e319bc56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:57 +0000
Subject: [PATCH 133/139] fix: enums in anonymous namespaces can be reflected

---
 best/meta/internal/names.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/best/meta/internal/names.h b/best/meta/internal/names.h
index 51479b7..32a10c0 100644
--- a/best/meta/internal/names.h
+++ b/best/meta/internal/names.h
@@ -205,7 +205,11 @@ constexpr best::option<best::str> parse() {
                 .count = raw.size() - offsets.prefix - offsets.suffix,
               }]);
 
-  if (name.starts_with('(')) { return best::none; }
+  // Values that are not enumerators are printed as casts; `(` may also be the
+  // start of the name of an enum in an anonymous namespace.
+  if (name.starts_with('(') && !name.starts_with("(anonymous namespace)::")) {
+    return best::none;
+  }
   // `name` is going to be scoped, so we need to strip off a leading path.
   return names_internal::remove_namespace(name);
   BEST_POP_GCC_DIAGNOSTIC()
-- 
2.43.0


From 2fda2ca9dcbf0f70ef50537a12915f8f3e35317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:07 +0000
Subject: [PATCH 134/139] fix: empty rows can be constructed with best::bind

---
 best/container/row.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/best/container/row.h b/best/container/row.h
index 524d53d..89d71a7 100644
--- a/best/container/row.h
+++ b/best/container/row.h
@@ -194,7 +194,6 @@ class row final
              (!best::same<decltype(args), best::as_rref<Elems>> || ...)
     : impl{{best::object<Elems>(best::in_place, BEST_FWD(args))}...} {}
   constexpr row(best::bind_t, devoid<Elems>&&... args)
-    requires (sizeof...(args) > 0)
     : impl{{best::object<Elems>(best::in_place, BEST_FWD(args))}...} {}
 
   /// # `row::size()`
-- 
2.43.0


From 2b4b04b57ed396cef086641d161b4ab9512daefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:07 +0000
Subject: [PATCH 135/139] fix: types without fields or values can be matched on

---
 best/meta/reflect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index f97d63b..2ae7cd4 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -348,7 +348,7 @@ class reflected_type final {
   static constexpr auto Name2Index = [] {
     auto array = T{}.apply([](auto... values) {
       size_t i = 0;
-      return std::array{entry{values.name(), ++i}...};
+      return std::array<entry, sizeof...(values)>{entry{values.name(), ++i}...};
     });
     best::span(array).sort(&entry::k);
     return array;
-- 
2.43.0


From c57bf82083b2c4fc85803635cd50207ee44bdc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:34 +0000
Subject: [PATCH 136/139] fix: matching on a value that is not an enumerator
 does not read past the end of the table

---
 best/meta/reflect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/best/meta/reflect.h b/best/meta/reflect.h
index 2ae7cd4..b78cbc3 100644
--- a/best/meta/reflect.h
+++ b/best/meta/reflect.h
@@ -479,8 +479,8 @@ constexpr decltype(auto) reflected_type<desc_>::match(reflected value,
 {
   auto choice = apply([&](auto... values) {
     size_t idx = 0;
-    ((value == values.value ? true : (++idx, false)) || ...);
-    return ChoiceTable<>[idx + 1];
+    bool found = ((++idx, value == values.value) || ...);
+    return ChoiceTable<>[found ? idx : 0];
   });
   return choice.match(BEST_FWD(cases)...);
 }
-- 
2.43.0


From 54ffc061325978ab407801413bec9b75f0845ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:53 +0000
Subject: [PATCH 137/139] fix: bounds checks that overflow have a message

---
 best/iter/bounds.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/iter/bounds.cc b/best/iter/bounds.cc
index 77041bc..cafdf61 100644
--- a/best/iter/bounds.cc
+++ b/best/iter/bounds.cc
@@ -55,7 +55,7 @@ namespace best::bounds_internal {
                           *including_end, len);
   }
 
-  if (count && start + *count > len) {
+  if (count && *count > len - start) {
     crash_internal::crash(
       {"bounds-check failed: %zu + %zu (start + count) > %zu (len)", loc},
       start, *count, len);
-- 
2.43.0


From 85be3547c1e87429b3b1281b8c2b955ceda9bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:22 +0000
Subject: [PATCH 138/139] fix: copying a tracked argument does not change its
 location

---
 best/log/location.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/best/log/location.h b/best/log/location.h
index 4b2da81..8210d10 100644
--- a/best/log/location.h
+++ b/best/log/location.h
@@ -54,7 +54,8 @@ class track_location {
   template <typename Arg = T>
   constexpr track_location(
     Arg&& arg, std::source_location loc = std::source_location::current())
-    requires std::convertible_to<Arg, T>
+    requires std::convertible_to<Arg, T> &&
+             (!std::same_as<std::remove_cvref_t<Arg>, track_location>)
     : value_(BEST_FWD(arg)), impl_(loc) {}
 
   /// Constructs a new location from the given location.
-- 
2.43.0


From c6d5f1164ce03dfd971e9b19e8c47ca0f70404f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:15 +0000
Subject: [PATCH 139/139] fix: best::div() of integers reports the location it
 is given

---
 best/math/overflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/best/math/overflow.h b/best/math/overflow.h
index 5e5f0eb..2019c5f 100644
--- a/best/math/overflow.h
+++ b/best/math/overflow.h
@@ -66,7 +66,7 @@ BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
 template <best::is_int A, best::is_int B>
 BEST_INLINE_ALWAYS constexpr best::div_t<common_int<A, B>> div(
   A a, B b, best::location loc = best::here) {
-  return best::div(overflow(a), overflow(b));
+  return best::div(overflow(a), overflow(b), loc);
 }
 
 /// # `best::ceildiv()`
-- 
2.43.0

