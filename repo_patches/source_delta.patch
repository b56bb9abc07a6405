From 8c3b006ce9b6c10f9055d02bc4d32124fbd82c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 01/62] fix: LimitedVector copy assignment copies the elements

The assignment of the storage array did not compile.
---
 mbo/container/limited_vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5efcb89..a0ab8d4 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -146,8 +146,9 @@ class LimitedVector final {
   constexpr LimitedVector& operator=(const LimitedVector& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
-- 
2.43.0


From dda65796647ef47e0938a2cabb862e623cc7f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 02/62] fix: LimitedVector destroys the elements it moved out
 of the source

Move construction, move assignment and swap dropped moved-from elements
without destroying them.
---
 mbo/container/limited_vector.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index a0ab8d4..099c301 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -158,7 +158,7 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedVector& operator=(LimitedVector&& other) noexcept {
@@ -167,7 +167,7 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -229,7 +229,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   template<types::ConstructibleInto<T> U, auto OtherN>
@@ -241,7 +241,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -285,8 +285,12 @@ class LimitedVector final {
     for (; pos < other.size(); ++pos) {
       emplace_back(std::move(other.at(pos)));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    while (size_ > other_size) {
+      pop_back();
+    }
+    while (other.size_ > this_size) {
+      other.pop_back();
+    }
   }
 
   template<typename... Args>
-- 
2.43.0


From 12e91739673a6f5cf61a4fe034d2419eecffb86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 03/62] fix: LimitedVector insert and erase respect element
 lifetimes

emplace assigned to the uninitialized end, erase assigned to destroyed
elements and leaked the last one, insert constructed over live elements and
read arguments that refer to own elements only after moving them. The capacity
check of insert by count could overflow.
---
 mbo/container/limited_vector.h | 59 ++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 099c301..c305182 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -297,25 +297,18 @@ class LimitedVector final {
   constexpr iterator emplace(const_iterator pos, Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos <= &values_[size_].data, "Invalid `pos`.");
-    iterator dst = end();
-    for (; dst > pos; --dst) {
-      *dst = std::move(*std::prev(dst));
-    }
-    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::forward<Args>(args)...);
-    ++size_;
+    std::remove_const_t<T> value(std::forward<Args>(args)...);  // `args` may refer to own elements.
+    const auto dst = const_cast<iterator>(pos);                 // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    move_backward(dst, 1);
+    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::move(value));
     return dst;
   }
 
   constexpr iterator erase(const_iterator pos) noexcept(!kRequireThrows) {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos < &values_[size_].data, "Invalid `pos`.");
-    auto dst = const_cast<iterator>(pos);
-    --size_;
-    std::destroy_at(dst);
-    for (; dst < end(); ++dst) {
-      *dst = std::move(*std::next(dst));
-    }
-    return pos > end() ? end() : const_cast<iterator>(pos);
+    move_forward(pos, 1);
+    return const_cast<iterator>(pos);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
 
@@ -325,15 +318,9 @@ class LimitedVector final {
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
     std::size_t deleted = 0;
     for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
       ++deleted;
     }
-    auto dst = const_cast<iterator>(first);
-    auto src = const_cast<iterator>(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
+    move_forward(first, deleted);
     return const_cast<iterator>(first);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
@@ -395,22 +382,24 @@ class LimitedVector final {
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
     // Clang does not like `std::distance`. The issue is that the iterators point into the union.
     // That makes them technically not point into an array AND that is indeed not allowed by C++.
-    const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    std::remove_const_t<T> new_value(std::forward<U>(value));  // `value` may refer to an own element.
+    const auto dst = const_cast<iterator>(pos);                // NOLINT(cppcoreguidelines-pro-type-const-cast)
     move_backward(dst, 1);
-    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::forward<U>(value));
+    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::move(new_value));
     return dst;
   }
 
   constexpr iterator insert(const_iterator pos, size_type count, const T& value) {
-    MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
+    MBO_CONFIG_REQUIRE(count <= Capacity - size_, "Called `insert` at capacity.");
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
     if (count == 0) {
       return dst;
     }
+    const std::remove_const_t<T> new_value(value);  // `value` may refer to an own element.
     std::size_t index = move_backward(dst, count);
     while (count > 0) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), value);
+      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), new_value);
       ++index;
       --count;
     }
@@ -510,16 +499,38 @@ class LimitedVector final {
   constexpr const_pointer data() const noexcept { return &values_[0].data; }
 
  private:
+  // Moves the elements starting at `dst` by `count` to the back. That leaves a gap of `count` uninitialized elements.
   constexpr std::size_t move_backward(iterator dst, std::size_t count) {
     std::size_t pos = size_;
     while (dst < &values_[pos].data) {
       --pos;
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos + count].data), std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
     size_ += count;
     return pos;
   }
 
+  // Destroys `count` elements starting at `dst` and moves the elements that follow into their place.
+  constexpr void move_forward(const_iterator dst, std::size_t count) {
+    if (count == 0) {
+      return;
+    }
+    std::size_t pos = size_;
+    while (dst < &values_[pos].data) {
+      --pos;
+    }
+    for (std::size_t idx = pos; idx < pos + count; ++idx) {
+      std::destroy_at(&values_[idx].data);
+    }
+    for (std::size_t idx = pos + count; idx < size_; ++idx) {
+      std::construct_at(
+          const_cast<std::remove_const_t<T>*>(&values_[idx - count].data), std::move(values_[idx].data));
+      std::destroy_at(&values_[idx].data);
+    }
+    size_ -= count;
+  }
+
   std::size_t size_{0};
   // Array would be better but that does not work with ASAN builds.
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
-- 
2.43.0


From aa7745d42be0636e7dc9290465aa2797c5e55158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 04/62] fix: LimitedSet and LimitedMap copy assignment,
 key_comp and erase by const_iterator

None of these compiled. Erasing also left the last, moved-from element
undestroyed.
---
 mbo/container/internal/limited_ordered.h | 54 +++++++++++++-----------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 7c3b545..b3b7a43 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -426,8 +426,9 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered& operator=(const LimitedOrdered& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
@@ -919,30 +920,17 @@ class [[nodiscard]] LimitedOrdered {
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
-    auto dst = to_iterator(pos);
-    --size_;
-    std::destroy_at(&*dst);
-    for (; dst < end(); ++dst) {
-      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
-    }
-    return pos > end() ? end() : to_iterator(pos);
+    const iterator dst = to_iterator(pos);
+    MBO_CONFIG_REQUIRE(begin() <= dst && dst < end(), "Invalid `pos`.");
+    close_gap(dst, 1);
+    return dst;
   }
 
   constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= first && first <= last && last <= end(), "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
-    auto dst = to_iterator(first);
-    auto src = to_iterator(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
-    return to_iterator(first);
+    MBO_CONFIG_REQUIRE(cbegin() <= first && first <= last && last <= cend(), "Invalid `first` or `last`.");
+    const iterator dst = to_iterator(first);
+    close_gap(dst, static_cast<std::size_t>(last - first));
+    return dst;
   }
 
   constexpr size_type erase(const Key& key) {
@@ -1146,14 +1134,14 @@ class [[nodiscard]] LimitedOrdered {
 
   // Observers
 
-  constexpr key_compare key_comp() const noexcept { return key_comp; }
+  constexpr key_compare key_comp() const noexcept { return key_comp_; }
 
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
  protected:
   static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
 
-  static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
+  constexpr iterator to_iterator(const const_iterator& pos) noexcept { return begin() + (pos - cbegin()); }
 
   // NOLINTNEXTLINE(bugprone-return-const-ref-from-parameter)
   static constexpr const Key& GetKey(const Key& key) noexcept { return key; }
@@ -1173,6 +1161,22 @@ class [[nodiscard]] LimitedOrdered {
   }
 
  private:
+  // Destroys `count` elements starting at `dst` and moves the elements that follow into their place.
+  constexpr void close_gap(iterator dst, std::size_t count) noexcept {
+    if (count == 0) {
+      return;
+    }
+    const std::size_t pos = static_cast<std::size_t>(dst - begin());
+    for (std::size_t idx = pos; idx < pos + count; ++idx) {
+      std::destroy_at(&values_[idx].data);
+    }
+    for (std::size_t idx = pos + count; idx < size_; ++idx) {
+      std::construct_at(&values_[idx - count].data, std::move(values_[idx].data));
+      std::destroy_at(&values_[idx].data);
+    }
+    size_ -= count;
+  }
+
   std::size_t size_{0};
 
   // Array would be better but that does not work with ASAN builds.
-- 
2.43.0


From e3e7e8fa2d236b276d993b02d4124e2701078931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 05/62] fix: LimitedSet and LimitedMap destroy the elements
 they moved from

Move construction, move assignment, swap and the insertions left moved-from
elements undestroyed.
---
 mbo/container/internal/limited_ordered.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index b3b7a43..c67d0e9 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -437,7 +437,7 @@ class [[nodiscard]] LimitedOrdered {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
@@ -445,7 +445,7 @@ class [[nodiscard]] LimitedOrdered {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -897,8 +897,12 @@ class [[nodiscard]] LimitedOrdered {
     for (; pos < other.size(); ++pos) {
       emplace(std::move(other.values_[pos].data));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    while (size_ > other_size) {
+      std::destroy_at(&values_[--size_].data);
+    }
+    while (other.size_ > this_size) {
+      std::destroy_at(&other.values_[--other.size_].data);
+    }
   }
 
   template<typename... Args>
@@ -911,6 +915,7 @@ class [[nodiscard]] LimitedOrdered {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      std::destroy_at(&*std::prev(next));
     }
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
@@ -1025,6 +1030,7 @@ class [[nodiscard]] LimitedOrdered {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      std::destroy_at(&*std::prev(next));
     }
     std::construct_at(
         const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
@@ -1044,6 +1050,7 @@ class [[nodiscard]] LimitedOrdered {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      std::destroy_at(&*std::prev(next));
     }
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
@@ -1063,6 +1070,7 @@ class [[nodiscard]] LimitedOrdered {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      std::destroy_at(&*std::prev(next));
     }
     std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
     ++size_;
@@ -1080,6 +1088,7 @@ class [[nodiscard]] LimitedOrdered {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      std::destroy_at(&*std::prev(next));
     }
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
     ++size_;
-- 
2.43.0


From d8a6bb5b77867b05489666da982b6c0e31cb4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 06/62] fix: Copies of a LimitedSet or LimitedMap keep the
 comparator

---
 mbo/container/internal/limited_ordered.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index c67d0e9..57ecc18 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -417,7 +417,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
 
-  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept {
+  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
     }
@@ -433,7 +433,7 @@ class [[nodiscard]] LimitedOrdered {
     return *this;
   }
 
-  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept {
+  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-- 
2.43.0


From 2d937b941eae3abd9fed25aa4a8ef030ae4de7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 07/62] fix: LimitedMap try_emplace and operator[] keep an
 existing value

Both replaced the mapped value of an existing key. Arguments that refer to own
elements were read after those had been moved.
---
 mbo/container/internal/limited_ordered.h | 25 ++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 57ecc18..39ecfea 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -1024,17 +1024,17 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(const Key& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
+    // The arguments may refer to own elements, so use them before any element gets moved.
+    RawValue new_val(
+        std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...));
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
       std::destroy_at(&*std::prev(next));
     }
-    std::construct_at(
-        const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
-        std::forward_as_tuple(std::forward<Args>(args)...));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1044,17 +1044,18 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(Key&& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
+    // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
+    // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
+    // The arguments may refer to own elements, so use them before any element gets moved.
+    RawValue new_val(std::move(key), Mapped(std::forward<Args>(args)...));
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
       std::destroy_at(&*std::prev(next));
     }
-    // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
-    // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1068,11 +1069,13 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
+    // The arguments may refer to own elements, so use them before any element gets moved.
+    RawValue new_val(key, std::forward<V>(value));
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
       std::destroy_at(&*std::prev(next));
     }
-    std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1086,11 +1089,13 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
+    // The arguments may refer to own elements, so use them before any element gets moved.
+    RawValue new_val(std::move(key), std::forward<V>(value));
     for (iterator next = end(); next > dst; --next) {
       std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
       std::destroy_at(&*std::prev(next));
     }
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
-- 
2.43.0


From 997f246beb12bc2b0bd2c34787a4e11803cd0051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 08/62] fix: LimitedSet and LimitedMap emplace moves the new
 value

Move-only types did not compile.
---
 mbo/container/internal/limited_ordered.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 39ecfea..52159ff 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -907,7 +907,7 @@ class [[nodiscard]] LimitedOrdered {
 
   template<typename... Args>
   constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept(!kRequireThrows) {
-    const RawValue new_val(std::forward<Args>(args)...);
+    RawValue new_val(std::forward<Args>(args)...);
     const iterator dst = lower_bound(GetKey(new_val));
     if (dst != end() && !key_comp_(GetKey(*dst), GetKey(new_val)) && !key_comp_(GetKey(new_val), GetKey(*dst))) {
       return std::make_pair(dst, false);
-- 
2.43.0


From 0f6a22a79aa217e28e5d9278e655176ad1eb6b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 09/62] fix: Sorted input of LimitedSet and LimitedMap respects
 capacity, duplicates and maps

The constructors wrote past the capacity, kept duplicates and did not compile
for maps.
---
 mbo/container/internal/limited_ordered.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 52159ff..c831a5c 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -456,11 +456,21 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : key_comp_(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      if constexpr (kKeyOnly) {
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      } else {
+        const auto less = [this](const auto& lhs, const auto& rhs) { return key_comp_(lhs.first, rhs.first); };
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, less), "Flag `kRequireSortedInput` violated.");
+      }
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-        std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
+        RawValue new_val(*first);
+        if (size_ == 0 || key_comp_(GetKey(values_[size_ - 1]), GetKey(new_val))) {
+          MBO_CONFIG_REQUIRE(size_ < Capacity, "Called with sorted input beyond capacity.");
+          std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(new_val));
+          ++size_;
+        }
       } else {
         emplace(*first);
       }
-- 
2.43.0


From ba2041701b1c35afef6e78c03da9c6b9184423e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 10/62] fix: LimitedSet and LimitedMap erase by the key of an
 own element

---
 mbo/container/internal/limited_ordered.h | 27 ++++++++----------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index c831a5c..f234ada 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -948,16 +948,11 @@ class [[nodiscard]] LimitedOrdered {
     return dst;
   }
 
+  // `key` may refer to an element of this container: It must not be read after erasing.
   constexpr size_type erase(const Key& key) {
-    size_type count = 0;
-    while (true) {
-      auto pos = find(key);
-      if (pos == end()) {
-        break;
-      }
-      erase(pos);
-      ++count;
-    }
+    const auto [first, last] = equal_range(key);
+    const auto count = static_cast<size_type>(last - first);
+    close_gap(first, count);
     return count;
   }
 
@@ -978,15 +973,11 @@ class [[nodiscard]] LimitedOrdered {
     if constexpr (kTransparent) {
       // Nothing to convert: `find` compares the foreign key directly, so no `Key` is
       // ever built. `key` is therefore never forwarded - there is no target to move
-      // into - which is what the NOLINT above is about.
-      while (true) {
-        auto pos = find(key);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      // into - which is what the NOLINT above is about. The key may refer into the element
+      // it matches, so it must not be read after erasing.
+      const auto [first, last] = equal_range(key);
+      count = static_cast<size_type>(last - first);
+      close_gap(first, count);
     } else {
       // A `Key` has to be materialised, because the comparator can only compare keys.
       //
-- 
2.43.0


From 0578ab13865b0f7195d4e468d3155850f7598a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 11/62] fix: AnyScan iterators are equal when they refer to the
 same element

---
 mbo/container/any_scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 019a4f0..3fdfdd8 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -470,7 +470,7 @@ class AnyScanImpl {
       if constexpr (kAccessByRef) {
         // Approximate equal address means equal iterator. That is not always correct as a container
         // might have the same element reference twice.
-        return &funcs_.curr() != &other.funcs_.curr();
+        return &funcs_.curr() == &other.funcs_.curr();
       } else {
         // Cannot take address of rvalue temp. Comparing actual values would be incorrect.
         return false;
-- 
2.43.0


From 976cba4be150d76b14c59838efa3a3ce885701a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 12/62] fix: AnyScan iterator copies and post-increment have
 their own position

---
 mbo/container/any_scan.h | 56 ++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 3fdfdd8..c253929 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -289,6 +289,7 @@ class AnyScanImpl {
     FuncMore more;
     FuncCurr curr;
     FuncNext next;
+    std::function<IterFuncs()> copy;  // Creates functions with their own, independent position.
   };
 
   using FuncIter = std::function<IterFuncs()>;
@@ -351,6 +352,25 @@ class AnyScanImpl {
     return std::shared_ptr<Iterator>(new Iterator(container.begin()));
   }
 
+  template<typename Data, typename Iterator>
+  static IterFuncs MakeIterFuncs(const Data& data, const std::shared_ptr<Iterator>& pos) {
+    return IterFuncs{
+        .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
+        .curr = [&it = *pos]() -> AccessType {
+          if constexpr (kAccessByRef) {
+            return *it;
+          } else {
+            return AccessType(*it);
+          }
+        },
+        .next = [&it = *pos] { ++it; },
+        .copy =
+            [data = data, pos = pos] {
+              return MakeIterFuncs(data, std::shared_ptr<Iterator>(new Iterator(*pos)));
+            },
+    };
+  }
+
   // NOLINTBEGIN(bugprone-forwarding-reference-overload)
 
   // For MakAnyScan / MakeConstScan
@@ -359,14 +379,7 @@ class AnyScanImpl {
   explicit AnyScanImpl(const MakeAnyScanData<Container, kScanMode>& data)
       : funcs_{
             .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return *it; },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+                [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -381,14 +394,7 @@ class AnyScanImpl {
       : funcs_{
             // NOTE: data must be copied here!
             .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return AccessType(*it); },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+                [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -411,10 +417,26 @@ class AnyScanImpl {
               .more = [] { return false; },
               .curr = nullptr,
               .next = [] {},
+              .copy = nullptr,
           } {}
 
     explicit iterator_impl(const AccessFuncs& funcs) : funcs_(funcs.iter()) {}
 
+    ~iterator_impl() = default;
+
+    // Copies have their own position: Incrementing one does not move the other.
+    iterator_impl(const iterator_impl& other) : funcs_(other.CopyFuncs()) {}
+
+    iterator_impl& operator=(const iterator_impl& other) {
+      if (this != &other) {
+        funcs_ = other.CopyFuncs();
+      }
+      return *this;
+    }
+
+    iterator_impl(iterator_impl&&) noexcept = default;
+    iterator_impl& operator=(iterator_impl&&) noexcept = default;
+
     reference operator*() const noexcept
     requires kAccessByRef
     {
@@ -483,6 +505,8 @@ class AnyScanImpl {
     }
 
    private:
+    IterFuncs CopyFuncs() const { return funcs_.copy ? funcs_.copy() : funcs_; }
+
     IterFuncs funcs_;  // Cannot be const.
   };
 
-- 
2.43.0


From fd3011e83c791582684dee725114f5dad2db0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 13/62] fix: ConvertContainer copies the elements of a
 referenced container

---
 mbo/container/convert_container.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/mbo/container/convert_container.h b/mbo/container/convert_container.h
index 8569a20..f074c82 100644
--- a/mbo/container/convert_container.h
+++ b/mbo/container/convert_container.h
@@ -51,27 +51,27 @@ class ConvertContainer final {
     for (auto&& v : container_) {
       if constexpr (mbo::types::ContainerHasEmplace<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace(std::move(v));
+          result.emplace(Pass<decltype(v)>(v));
         } else {
-          result.emplace(convert_(std::move(v)));
+          result.emplace(convert_(Pass<decltype(v)>(v)));
         }
       } else if constexpr (mbo::types::ContainerHasEmplaceBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace_back(std::move(v));
+          result.emplace_back(Pass<decltype(v)>(v));
         } else {
-          result.emplace_back(convert_(std::move(v)));
+          result.emplace_back(convert_(Pass<decltype(v)>(v)));
         }
       } else if constexpr (mbo::types::ContainerHasInsert<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.insert(std::move(v));
+          result.insert(Pass<decltype(v)>(v));
         } else {
-          result.insert(convert_(std::move(v)));
+          result.insert(convert_(Pass<decltype(v)>(v)));
         }
       } else if constexpr (mbo::types::ContainerHasPushBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.push_back(std::move(v));
+          result.push_back(Pass<decltype(v)>(v));
         } else {
-          result.push_back(convert_(std::move(v)));
+          result.push_back(convert_(Pass<decltype(v)>(v)));
         }
       }
     }
@@ -79,6 +79,16 @@ class ConvertContainer final {
   }
 
  private:
+  // Only moves elements if the container itself was moved in; those of a referenced container get copied.
+  template<typename V>
+  static constexpr decltype(auto) Pass(std::remove_reference_t<V>& v) noexcept {
+    if constexpr (std::is_lvalue_reference_v<Container>) {
+      return std::forward<V>(v);
+    } else {
+      return std::move(v);
+    }
+  }
+
   static inline constexpr NoFunc kNoFunc{};
   Container container_;
   Func convert_ = kNoFunc;
-- 
2.43.0


From db8fb13c668039f0753854d5393846d8908a681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 14/62] fix: OptionalDataOrRef destroys moved-from data,
 survives self-move and returns from nullopt assignment

---
 mbo/types/optional_data_or_ref.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index e5c21ea..2d6baeb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -103,8 +103,7 @@ class OptionalDataOrRef {
   {
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -113,17 +112,19 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(OptionalDataOrRef&& other)
   requires std::move_constructible<T>
   {
+    if (this == &other) {
+      return *this;
+    }
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
     return *this;
   }
 
-  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { reset(); }
+  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
     emplace(std::move(v));
-- 
2.43.0


From 11a7986ad1e30d82573146c7bec2cc55fbed477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 15/62] fix: OptionalRef::operator<(nullopt) compares against
 an unordered null pointer constant

---
 mbo/types/optional_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 1e8ae60..ee1cee8 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -134,7 +134,7 @@ class OptionalRef {
 
   constexpr bool operator==(std::nullopt_t /*unused*/) const noexcept { return v_ == nullptr; }
 
-  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return v_ < nullptr; }
+  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return false; }
 
   constexpr std::strong_ordering operator<=>(std::nullopt_t /*unused*/) const noexcept {
     if (!has_value()) {
-- 
2.43.0


From 7afdc11834cc466b4292d23a49795b3f41b179e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 16/62] fix: Required hashes its value instead of dereferencing
 it

---
 mbo/types/required.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/required.h b/mbo/types/required.h
index 93f4b42..b6ab3a4 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -134,7 +134,7 @@ class Required {
 
   template<typename H>
   friend H AbslHashValue(H hash, const Required<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.value_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.value_));
   }
 
   template<typename Sink>
-- 
2.43.0


From 97135a79431c35e0b99b8eb202026138272b868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 17/62] fix: ParseString rejects non octal digits in \o{...}
 and octal escapes beyond 8 bits

---
 mbo/strings/parse.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index c82bb70..fbba0c9 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -40,7 +40,11 @@ absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
     data.remove_prefix(1);
     first_char = PopChar(data);
   }
+  if (first_char < '0' || first_char > '7') {
+    return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
+  }
   static constexpr int kOctalDigit = 8;
+  static constexpr int kMaxChar = 255;
   int next_chr = first_char - '0';
   if (!data.empty() && data.front() >= '0' && data.front() <= '7') {
     next_chr = (next_chr * kOctalDigit) + (PopChar(data) - '0');
@@ -54,6 +58,9 @@ absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
     }
     data.remove_prefix(1);
   }
+  if (next_chr > kMaxChar) {
+    return absl::InvalidArgumentError("ParseString input has octal sequence that exceeds 8 bits.");
+  }
   return static_cast<char>(next_chr);
 }
 
-- 
2.43.0


From 0c640225e906c9e18eebcde6759d9c8d65c16131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 18/62] fix: ParseStringList stops at stop_at_str and at
 unquoted characters instead of dropping them

---
 mbo/strings/parse.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index fbba0c9..b62ef90 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -249,7 +249,8 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
   if (str_options.split_at_any_of.empty()) {
     str_options.split_at_any_of = ",";
   }
-  if (absl::StrContains(options.stop_at_any_of, data.front())) {
+  if (absl::StrContains(options.stop_at_any_of, data.front())
+      || (!options.stop_at_str.empty() && data.starts_with(options.stop_at_str))) {
     return result;
   }
   if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
@@ -264,10 +265,12 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
     if (data.empty()) {
       return result;
     }
-    if (absl::StrContains(options.stop_at_any_of, data.front())) {
+    if (absl::StrContains(options.stop_at_any_of, data.front())
+        || (!options.stop_at_str.empty() && data.starts_with(options.stop_at_str))
+        || !absl::StrContains(str_options.split_at_any_of, data.front())) {
       return result;
     }
-    if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
+    if (data.size() == 1) {
       result.emplace_back("");
       data.remove_prefix(1);
       return result;
-- 
2.43.0


From 12af77a049256aab1d3c258add24f9168596eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 19/62] fix: AtLast::Find returns the position in the text, not
 in its tail

---
 mbo/strings/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/strings/split.h b/mbo/strings/split.h
index 5f94a51..7dd46f9 100644
--- a/mbo/strings/split.h
+++ b/mbo/strings/split.h
@@ -31,7 +31,7 @@ class AtLast {
     if (next_pos == std::string_view::npos) {
       return std::string_view{text.data() + text.size(), 0};
     }
-    return text.substr(next_pos, 1);
+    return text.substr(pos + next_pos, 1);
   }
 
  private:
-- 
2.43.0


From 4eb2cc693022ee55dce06cba3779339345e8a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 20/62] fix: ParseString accepts a single octal digit at the
 end of the input

---
 mbo/strings/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index b62ef90..d8b9142 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -29,11 +29,11 @@
 namespace mbo::strings {
 namespace {
 absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
-  if (data.empty()) {
-    return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
-  }
   const bool octal_23 = first_char == 'o';
   if (octal_23) {
+    if (data.empty()) {
+      return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
+    }
     if (data.size() < 3 || data.front() != '{') {
       return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
     }
-- 
2.43.0


From d43cd18436cab2cbe91c668820dc49a9e74a7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 21/62] fix: Diff applies the line options to a last line that
 has no line feed

---
 mbo/diff/internal/data.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 8946501..49027ef 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -47,6 +47,7 @@ struct Select : Args... {
 
   using Args::operator()...;
 };
+constexpr std::string_view kNoNewLineMarker = "\n\\ No newline at end of file";
 }  // namespace
 
 Data::Data(
@@ -69,7 +70,7 @@ std::string Data::LastLineIfNoNewLine(std::string_view text, bool got_nl) {
   } else {
     pos += 1;  // skip '\n'
   }
-  return absl::StrCat(text.substr(pos), "\n\\ No newline at end of file");
+  return absl::StrCat(text.substr(pos), kNoNewLineMarker);
 }
 
 std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
@@ -91,18 +92,14 @@ std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
     result.push_back(Process(options, regex_replace, line, owned));
   }
   // A missing final newline normally makes the last line carry the `\ No newline at end of file`
-  // marker, so it differs from the same content with a trailing newline. `ignore_missing_final_newline`
+  // marker, so it differs from the same content with a trailing newline. The marker follows the
+  // processed line, so that all other options apply to that line, too. `ignore_missing_final_newline`
   // suppresses the marker (the last line is processed like any other), equating the two forms. The
   // zero-length-input guard above still fires on the real `got_nl`, so "" is never equated with "\n".
   if (!got_nl && !options.ignore_missing_final_newline) {
-    if (!result.empty()) {
-      result.pop_back();
-    }
-    result.push_back({
-        .line = last_line,
-        .processed = last_line,
-        .matches_ignore = false,
-    });
+    LineCache& last = result.back();  // The split has at least one line.
+    last.processed = owned.emplace_back(absl::StrCat(last.processed, kNoNewLineMarker));
+    last.line = last_line;
   }
   return result;
 }
-- 
2.43.0


From 93bbd8c7376234acdc451bd6c36a1be0dfa75926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 22/62] fix: Diff keeps the comment stripping of lines whose
 white space is ignored

---
 mbo/diff/internal/data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 49027ef..0bf1ef5 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -158,7 +158,7 @@ Data::LineCache Data::Process(
     }
   }
   if (has_storage) {
-    processed = owned.emplace_back(std::move(storage));
+    processed = owned.emplace_back(processed);  // May be a sub-range of `storage`.
   }
   return {
       .line = line,
-- 
2.43.0


From f6c8045aca8f6fbe08e8985e82aae74f62e7bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 23/62] fix: NormalizePath removes a separator that normalizing
 leaves at the end

---
 mbo/file/file.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index cbb963a..296904c 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -27,6 +27,7 @@
 #include <string>
 #include <string_view>
 #include <system_error>
+#include <utility>
 
 #ifndef _WIN32
 # include <fcntl.h>
@@ -54,12 +55,23 @@ struct FileCloser final {
 
 std::filesystem::path NormalizePath(const std::filesystem::path& path) {
   using PathChar = std::filesystem::path::value_type;
-  std::basic_string_view<PathChar> path_str(path.native());
-  while (path_str.length() > 1
-         && (path_str.back() == static_cast<PathChar>('/') || path_str.back() == static_cast<PathChar>('\\'))) {
-    path_str.remove_suffix(1);
+  using PathView = std::basic_string_view<PathChar>;
+  const auto strip = [](PathView path_str) {
+    while (path_str.length() > 1
+           && (path_str.back() == static_cast<PathChar>('/') || path_str.back() == static_cast<PathChar>('\\'))) {
+      path_str.remove_suffix(1);
+    }
+    return path_str;
+  };
+  std::filesystem::path result(path);
+  while (true) {
+    // Normalizing may end in a separator ('a/.' -> 'a/'), and removing that may require normalizing.
+    std::filesystem::path normal(strip(std::filesystem::path(strip(result.native())).lexically_normal().native()));
+    if (normal.native() == result.native()) {
+      return result;
+    }
+    result = std::move(normal);
   }
-  return std::filesystem::path(path_str).lexically_normal();
 }
 
 absl::Status SetContents(const std::filesystem::path& file_name, std::string_view content) {
-- 
2.43.0


From ca667e9c78266d3e880139bcfd2cb2a06bb8ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 24/62] fix: JoinPathsRespectAbsolute respects absolute paths
 that follow an empty first one

---
 mbo/file/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/file.h b/mbo/file/file.h
index cb951bb..7fa2e8b 100644
--- a/mbo/file/file.h
+++ b/mbo/file/file.h
@@ -65,7 +65,7 @@ inline std::filesystem::path JoinPathsRespectAbsolute(const std::filesystem::pat
     if constexpr (sizeof...(paths) == 0) {
       return std::filesystem::path(first_path);
     } else if (first_path.empty()) {
-      return JoinPaths(paths...);
+      return JoinPathsRespectAbsolute(paths...);
     } else {
       // In theory this is what `fs::path /=` should do. But then it does way more.
       auto joined = JoinPathsRespectAbsolute(paths...);
-- 
2.43.0


From 30fa218ee09ebb5a77e664d6d93433493644d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 25/62] fix: IniFile ignores lines that have only white space

---
 mbo/file/ini/ini_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/ini/ini_file.cc b/mbo/file/ini/ini_file.cc
index 4400212..5fddefb 100644
--- a/mbo/file/ini/ini_file.cc
+++ b/mbo/file/ini/ini_file.cc
@@ -50,7 +50,7 @@ IniFile IniFile::Parse(std::string_view content) {
       group = line;
       continue;
     }
-    if (line.starts_with(';') || line.starts_with('#')) {
+    if (line.empty() || line.starts_with(';') || line.starts_with('#')) {
       continue;
     }
     const std::pair<std::string_view, std::string_view> key_val = absl::StrSplit(line, absl::MaxSplits('=', 1));
-- 
2.43.0


From 33d5520c3d4313a633f5fd4c6a958695806393cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 26/62] fix: Glob takes '^', '$', escaped characters and
 disabled ranges literally

---
 mbo/file/glob.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a513b71..db36c03 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -98,6 +98,15 @@ MBO_ALWAYS_INLINE bool GlobFindRangePrefix(std::string_view& pattern, std::strin
   return false;
 }
 
+// Append the literal `chr` of the escape sequence `\chr`. Escaped word characters have a special meaning in RE2 (e.g.
+// '\d'), so these are not escaped.
+void AppendEscaped(char chr, std::string& re2_pattern) {
+  if (absl::ascii_ispunct(static_cast<unsigned char>(chr)) && chr != '_') {
+    re2_pattern += '\\';
+  }
+  re2_pattern += chr;
+}
+
 bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.empty()) {
     return false;
@@ -110,7 +119,7 @@ bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.size() < 2) {
     return false;
   }
-  re2_pattern.append(pattern.substr(0, 2));
+  AppendEscaped(pattern[1], re2_pattern);
   pattern.remove_prefix(2);
   return true;
 }
@@ -374,7 +383,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '\\':
         // if (pattern.size() < 2) { already handled
-        absl::StrAppend(&re2_pattern, pattern.substr(0, 2));
+        AppendEscaped(pattern[1], re2_pattern);
         pattern.remove_prefix(2);
         continue;
       case '*': {
@@ -392,6 +401,8 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
       case '|':
       case '+':
       case '.':
+      case '^':
+      case '$':
         // Characters that need to be escaped since they are literal in rglob but special in re2.
         re2_pattern += '\\';
         re2_pattern += chr;
@@ -399,7 +410,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '[':
         if (!options.allow_ranges) {
-          re2_pattern += pattern.front();
+          AppendEscaped(pattern.front(), re2_pattern);
           pattern.remove_prefix(1);
           continue;
         }
-- 
2.43.0


From 928b8c7629fa010a23bfc154eef2d18c9f103995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 27/62] fix: GlobSplit removes the escapes from the root, which
 is a path

---
 mbo/file/glob.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index db36c03..4d49d15 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -22,6 +22,7 @@
 #include <string>
 #include <string_view>
 #include <system_error>
+#include <utility>
 
 #include "absl/algorithm/container.h"
 #include "absl/status/status.h"
@@ -470,8 +471,13 @@ absl::StatusOr<std::unique_ptr<const RE2>> Glob2Re2(
 
 absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re2Options& options) {
   MBO_MOVE_TO_OR_RETURN(GlobNormalizeData(pattern, options), const GlobData data);
-  std::string_view root(data.pattern);
-  root.remove_suffix(root.size() - data.root_len);
+  std::string root;  // A path, so without escapes.
+  for (std::size_t pos = 0; pos < data.root_len; ++pos) {
+    if (data.pattern[pos] == '\\') {
+      ++pos;
+    }
+    root += data.pattern[pos];
+  }
   std::string_view patt(data.pattern);
   patt.remove_prefix(data.root_len);
   if (patt.starts_with('/')) {
@@ -481,7 +487,7 @@ absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re
     }
   }
   return RootAndPattern{
-      .root = std::string{root},
+      .root = std::move(root),
       .pattern = std::string{patt},
   };
 }
-- 
2.43.0


From bb5c0df5c2c22d969b699e808b6bd58d42406db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 28/62] fix: StatusBuilder::SetPrepend puts the text in front
 even without a later append

---
 mbo/status/status_builder.cc | 13 ++++++++++---
 mbo/status/status_builder.h  |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mbo/status/status_builder.cc b/mbo/status/status_builder.cc
index 505af1a..b1a527f 100644
--- a/mbo/status/status_builder.cc
+++ b/mbo/status/status_builder.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/status/status_builder.h"
 
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -25,6 +26,9 @@
 namespace mbo::status {
 
 StatusBuilder& StatusBuilder::SetPrepend() & {
+  if (data_) {
+    data_->prepend = true;
+  }
   return *this;
 }
 
@@ -52,9 +56,12 @@ StatusBuilder::operator absl::Status() const & {
   if (!data_) {
     return absl::OkStatus();
   }
-  absl::Status result(
-      data_->status.code(),
-      data_->appended ? data_->stream.str() : absl::StrCat(data_->status.message(), data_->stream.str()));
+  std::string message = data_->stream.str();
+  if (!data_->appended) {
+    message = data_->prepend ? absl::StrCat(message, data_->status.message())
+                             : absl::StrCat(data_->status.message(), message);
+  }
+  absl::Status result(data_->status.code(), message);
   data_->status.ForEachPayload(
       [&result](std::string_view url, const absl::Cord& payload) { result.SetPayload(url, payload); });
   return result;
diff --git a/mbo/status/status_builder.h b/mbo/status/status_builder.h
index 095df2d..1619d67 100644
--- a/mbo/status/status_builder.h
+++ b/mbo/status/status_builder.h
@@ -127,6 +127,7 @@ class StatusBuilder final {
   struct Data {
     absl::Status status;
     std::stringstream stream;
+    bool prepend = false;
     bool appended = false;
   };
 
-- 
2.43.0


From 4dd9551383753eb59e2d22d965b67386111f3500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 29/62] fix: MBO_RETURN_IF_ERROR does not shadow a variable
 'var' of its user

---
 mbo/status/status_macros.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mbo/status/status_macros.h b/mbo/status/status_macros.h
index 6560481..0b2b167 100644
--- a/mbo/status/status_macros.h
+++ b/mbo/status/status_macros.h
@@ -42,12 +42,13 @@
 // ```
 //
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define MBO_RETURN_IF_ERROR(expr)                                                    \
-  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                     \
-  if (auto var = (expr); var.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */ \
-    /* GOOD */                                                                       \
-  } else                                                                             \
-    return mbo::status::StatusBuilder(var)
+#define MBO_RETURN_IF_ERROR(expr)                                  \
+  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                   \
+  /* NOLINTNEXTLINE(*-unnecessary-copy-initialization) */          \
+  if (auto _status_macro_var_ = (expr); _status_macro_var_.ok()) { \
+    /* GOOD */                                                     \
+  } else                                                           \
+    return mbo::status::StatusBuilder(_status_macro_var_)
 
 // Similar to MBO_RETURN_IF_ERROR but this assigns the result of an `absl::StatusOr<T>`, to a target
 // which can be an existing variable or a new variable declaration. The asignment is by move.
-- 
2.43.0


From 827bd5f258b9cf57fa93d15c7749938debbfda35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 30/62] fix: the scoped stream passes its message on whatever
 the stream type

---
 mbo/log/scoped_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/scoped_stream.h b/mbo/log/scoped_stream.h
index 090ddc2..afc32ff 100644
--- a/mbo/log/scoped_stream.h
+++ b/mbo/log/scoped_stream.h
@@ -205,7 +205,7 @@ class ScopedStream {
   // LCOV_MERGE_FUNC_LINE: Count the shared class-template definition once.
   void OutPrefix(std::ostream& out) {
     out << "[" << loc_.file_name() << ":" << loc_.line() << "] @" << loc_.function_name();
-    if constexpr (!std::same_as<OStreamT, Voidifier> && !std::same_as<MessageT, Voidifier>) {
+    if constexpr (!std::same_as<MessageT, Voidifier>) {
       if (!msg_.empty()) {
         out << " : " << msg_;
       }
-- 
2.43.0


From 5ae1421f77d9cbd3826be333e29e4067bb4e1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 31/62] fix: moving from a moved from LogTiming does not log
 again

---
 mbo/log/log_timing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/log_timing.h b/mbo/log/log_timing.h
index 22295eb..3445aae 100644
--- a/mbo/log/log_timing.h
+++ b/mbo/log/log_timing.h
@@ -70,7 +70,7 @@ class LogTimingImpl final {
     Once(const Once&) = delete;
     Once& operator=(const Once&) = delete;
 
-    Once(Once&& other) noexcept { other.once_ = false; }
+    Once(Once&& other) noexcept : once_(std::exchange(other.once_, false)) {}
 
     Once& operator=(Once&&) = delete;
 
-- 
2.43.0


From 0e0e36624b78a4def7096a46a122d6a8239ed493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 32/62] fix: Json stores integer variables as integers, not as
 floats

---
 mbo/json/json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 00786ad..86578be 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -57,11 +57,13 @@ using Object = absl::flat_hash_map<std::string, std::unique_ptr<Json>>;
 using Variant = std::variant<std::nullopt_t, Array, bool, Float, SignedInt, Object, std::string, UnsignedInt>;
 
 template<typename Value>
-concept JsonUseSignedInt = std::is_signed_v<Value> && std::integral<Value> && std::convertible_to<Value, SignedInt>;
+concept JsonUseSignedInt = std::is_signed_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+                           && std::convertible_to<Value, SignedInt>;
 
 template<typename Value>
 concept JsonUseUnsignedInt =
-    std::is_unsigned_v<Value> && std::integral<Value> && std::convertible_to<Value, UnsignedInt>;
+    std::is_unsigned_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+    && std::convertible_to<Value, UnsignedInt>;
 
 template<typename Value>
 concept JsonUseFloat = !std::same_as<std::remove_cvref_t<Value>, bool>
-- 
2.43.0


From b358aa0d4dffd8b5aa4baba4227ebd6f05e132c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 33/62] fix: a moved from Json is Null instead of an array
 without storage

---
 mbo/json/json.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 86578be..475b2d7 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -318,8 +318,13 @@ class Json {
     return *this;
   }
 
-  Json(Json&&) noexcept = default;
-  Json& operator=(Json&&) noexcept = default;
+  // The moved from value becomes `Null`. A moved from `Array` would otherwise have no storage.
+  Json(Json&& other) noexcept : data_{std::exchange(other.data_, std::nullopt)} {}
+
+  Json& operator=(Json&& other) noexcept {
+    data_ = std::exchange(other.data_, std::nullopt);
+    return *this;
+  }
 
   explicit Json(std::nullopt_t /*value*/) noexcept : data_{std::nullopt} {}
 
-- 
2.43.0


From 109f13a97e49d43263ac18effb849f22f8d75825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 34/62] fix: assigning a Json or std::unique_ptr<Json> variable
 to a Json copies its value

---
 mbo/json/json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 475b2d7..207dc74 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -343,6 +343,7 @@ class Json {
   }
 
   template<typename Value, typename = ToKind<Value>>
+  requires(!JsonUseObject<Value> && !std::same_as<std::remove_cvref_t<Value>, std::unique_ptr<Json>>)
   Json& operator=(Value&& value) {  // NOLINT(misc-unconventional-assign-operator,*-signature): See above.
     CopyFrom(std::forward<Value>(value));
     return *this;
-- 
2.43.0


From b5f2e9b8a812677016adb0640f68f0b814ab7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 35/62] fix: Json::values does not print to stdout

---
 mbo/json/json.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 207dc74..084b54b 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -653,12 +653,10 @@ class Json {
     if (IsArray()) {
       auto& array = std::get<Array>(data_);
       MBO_CONFIG_REQUIRE_DEBUG(array != nullptr, "May not be nulltr.");
-      std::cout << "Array Size: " << array->size() << "\n" << std::flush;
       return {*this, array->begin(), array->end()};
     }
     MBO_CONFIG_REQUIRE(IsObject(), "Is neither Array nor Object.");
     auto& object = std::get<Object>(data_);
-    std::cout << "Object Size: " << object.size() << "\n" << std::flush;
     return {*this, object.begin(), object.end()};
   }
 
-- 
2.43.0


From e3bd7061b27e5869d4d3b3483bb23e9c9b8b607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 36/62] fix: Json compares objects independent of the iteration
 order of their properties

---
 mbo/json/json.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 084b54b..2625b73 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -18,6 +18,7 @@
 #ifndef MBO_JSON_JSON_H_
 #define MBO_JSON_JSON_H_
 
+#include <algorithm>
 #include <compare>
 #include <concepts>  // IWYU pragma: keep
 #include <cstdint>
@@ -827,13 +828,28 @@ constexpr auto kJsonComparator = mbo::types::Overloaded{
     },
     [](const Json::Array& lhs, const Json::Array& rhs) { return types::WeakToStrong(*lhs <=> *rhs); },
     [](const Json::Object& lhs, const Json::Object& rhs) -> std::strong_ordering {
-      auto lhs_it = lhs.begin();
-      auto rhs_it = rhs.begin();
-      while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-        if (auto comp = types::WeakToStrong(lhs_it->first <=> rhs_it->first); comp != std::strong_ordering::equal) {
+      // The iteration order of the maps is unspecified, so compare in the order of the property names.
+      const auto sorted = [](const Json::Object& object) {
+        std::vector<Json::Object::const_pointer> result;
+        result.reserve(object.size());
+        for (const auto& property : object) {
+          result.push_back(&property);
+        }
+        std::sort(result.begin(), result.end(), [](const auto* left, const auto* right) {
+          return left->first < right->first;
+        });
+        return result;
+      };
+      const auto lhs_properties = sorted(lhs);
+      const auto rhs_properties = sorted(rhs);
+      auto lhs_it = lhs_properties.begin();
+      auto rhs_it = rhs_properties.begin();
+      while (lhs_it != lhs_properties.end() && rhs_it != rhs_properties.end()) {
+        if (auto comp = types::WeakToStrong((*lhs_it)->first <=> (*rhs_it)->first);
+            comp != std::strong_ordering::equal) {
           return comp;
         }
-        if (auto comp = lhs_it->second <=> rhs_it->second; comp != std::strong_ordering::equal) {
+        if (auto comp = (*lhs_it)->second <=> (*rhs_it)->second; comp != std::strong_ordering::equal) {
           return comp;
         }
         ++lhs_it;
-- 
2.43.0


From d3eb13883cff8641aaad1bd84accb8d0a4622a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 37/62] fix: Stringify escapes a single quote character only
 once

---
 mbo/types/stringify.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 45c4953..d5603df 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1300,7 +1300,7 @@ class Stringify {
         os << absl::StreamFormat("%v", int(v));
       } else {
         os << options.outer.format->char_delim;
-        if (v == '\'') {
+        if (v == '\'' && options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kNone) {
           StreamValueStr(os, options.outer, "\\'");
         } else {
           const std::string_view vv{reinterpret_cast<const char*>(&v), 1};  // NOLINT(*-type-reinterpret-cast)
-- 
2.43.0


From 97873901fb9b569085d87437c87b97f894de994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 38/62] fix: Stringify's JSON modes escape strings and keys as
 JSON requires

---
 mbo/types/stringify.h | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index d5603df..afc8f61 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -185,6 +185,7 @@ struct StringifyOptions {
     kNone,        // Values are printed as is.
     kCEscape,     // Values are C-escaped.
     kCHexEscape,  // Values are C-HEX-escaped.
+    kJsonEscape,  // Values and keys are escaped as required by JSON (RFC 8259).
   };
 
   friend std::ostream& operator<<(std::ostream& os, const EscapeMode& value) {
@@ -192,6 +193,7 @@ struct StringifyOptions {
       case EscapeMode::kNone: break;
       case EscapeMode::kCEscape: return os << "EscapeMode::kCEscape";
       case EscapeMode::kCHexEscape: return os << "EscapeMode::kCHexEscape";
+      case EscapeMode::kJsonEscape: return os << "EscapeMode::kJsonEscape";
     }
     return os << "EscapeMode::kNone";
   }
@@ -1154,7 +1156,13 @@ class Stringify {
       field_name = field.name;
     }
     if (!field_name.empty()) {
-      os << key_control.key_prefix << field_name << key_control.key_suffix << format.key_value_separator;
+      os << key_control.key_prefix;
+      if (field.options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kJsonEscape) {
+        os << JsonEscape(field_name);
+      } else {
+        os << field_name;
+      }
+      os << key_control.key_suffix << format.key_value_separator;
     } else if (key_control.key_mode == StringifyOptions::KeyMode::kNumericFallback) {
       os << key_control.key_prefix << field.idx << key_control.key_suffix << format.key_value_separator;
     }
@@ -1398,6 +1406,36 @@ class Stringify {
     }
   }
 
+  // JSON knows neither `\'` nor octal or hexadecimal escapes, so C-escaping does not result in valid JSON.
+  static std::string JsonEscape(std::string_view v) {
+    static constexpr std::string_view kHexDigits = "0123456789abcdef";
+    static constexpr unsigned char kFirstPrintable = 0x20;
+    std::string result;
+    result.reserve(v.size());
+    for (const char chr : v) {
+      switch (chr) {
+        case '"': result += "\\\""; break;
+        case '\\': result += "\\\\"; break;
+        case '\b': result += "\\b"; break;
+        case '\f': result += "\\f"; break;
+        case '\n': result += "\\n"; break;
+        case '\r': result += "\\r"; break;
+        case '\t': result += "\\t"; break;
+        default: {
+          const auto uchr = static_cast<unsigned char>(chr);
+          if (uchr < kFirstPrintable) {
+            result += "\\u00";
+            result += kHexDigits[uchr >> 4U];   // NOLINT(*-magic-numbers)
+            result += kHexDigits[uchr & 0xFU];  // NOLINT(*-magic-numbers)
+          } else {
+            result += chr;
+          }
+        }
+      }
+    }
+    return result;
+  }
+
   static void StreamValueStr(OStream& os, const StringifyOptions& options, std::string_view v) {
     if (!options.value_overrides->replacement_str.empty()) {
       os << options.value_overrides->replacement_str;
@@ -1411,6 +1449,7 @@ class Stringify {
       case StringifyOptions::EscapeMode::kNone: os << vvv; break;
       case StringifyOptions::EscapeMode::kCEscape: os << absl::CEscape(vvv); break;
       case StringifyOptions::EscapeMode::kCHexEscape: os << absl::CHexEscape(vvv); break;
+      case StringifyOptions::EscapeMode::kJsonEscape: os << JsonEscape(vvv); break;
     }
     if (vvv.length() < v.length()) {
       os << options.value_control->str_cutoff_suffix;
@@ -1481,6 +1520,7 @@ class Stringify {
           .key_suffix = "\"",
       }},
       .value_control{StringifyOptions::ValueControl{
+          .escape_mode = StringifyOptions::EscapeMode::kJsonEscape,
           .nullptr_t_str = "null",
           .nullptr_v_str = "null",
           .nullopt_str = "null",
-- 
2.43.0


From f2e596ccb092097d78d15dbf16b951f1ad96efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 39/62] fix: ExtendBase::ToTuple of an rvalue returns the
 fields

---
 mbo/types/internal/extender.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/internal/extender.h b/mbo/types/internal/extender.h
index ce0a25f..c74f5cf 100644
--- a/mbo/types/internal/extender.h
+++ b/mbo/types/internal/extender.h
@@ -71,7 +71,7 @@ struct ExtendBase {
  protected:  // DO NOT expose anything publicly.
   auto ToTuple() const & { return StructToTuple(static_cast<const ActualType&>(*this)); }
 
-  auto ToTuple() && { return StructToTuple(std::move(*this)); }
+  auto ToTuple() && { return StructToTuple(static_cast<ActualType&&>(*this)); }
 
  private:  // DO NOT expose anything publicly.
   // The `index_sequence` is a pure tag - it carries `Idx...` in its type and has
-- 
2.43.0


From fe4383fab9bf1f68098f3a463b7573f60452e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 40/62] fix: Stringify prints string keyed containers of
 structs that have field names

---
 mbo/types/stringify.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index afc8f61..78e2cd0 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1270,8 +1270,9 @@ class Stringify {
   }
 
   template<typename T>
-  static constexpr bool kUseStringify = types_internal::IsExtended<T> || HasMboTypesStringifySupport<T>
-                                        || (IsAggregate<T> && !absl::HasAbslStringify<T>::value);
+  static constexpr bool kUseStringify = !IsReferenceWrapper<T>
+                                        && (types_internal::IsExtended<T> || HasMboTypesStringifySupport<T>
+                                            || (IsAggregate<T> && !absl::HasAbslStringify<T>::value));
 
   template<typename V>  // NOLINTNEXTLINE(readability-function-cognitive-complexity)
   void StreamValue(OStream& os, const StringifyFieldOptions& options, const V& v, bool allow_field_names) const {
-- 
2.43.0


From f6890016d422db71161f64bc681d51c947ef9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 41/62] fix: StringifyOptions' suppress also applies to
 pointer, optional and disabled fields

---
 mbo/types/stringify.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 78e2cd0..d4289e3 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1097,13 +1097,12 @@ class Stringify {
   }
 
   static bool StreamFieldKeyEnabled(const StringifyOptions& options, SpecialFieldValue is_special) {
+    if (options.field_control->suppress) {
+      return false;
+    }
     switch (is_special) {
-      case SpecialFieldValue::kNoSuppress: break;
-      case SpecialFieldValue::kNormal:
-        if (options.field_control->suppress) {
-          return false;
-        }
-        break;
+      case SpecialFieldValue::kNoSuppress:
+      case SpecialFieldValue::kNormal: break;
       case SpecialFieldValue::kIsNullptr:
         if (options.field_control->suppress_nullptr) {
           return false;
-- 
2.43.0


From 61284cefd9671f4edd6f40cac0bc98fe46f2bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 42/62] fix: Stringify's JSON modes print disabled elements as
 an empty object

---
 mbo/types/stringify.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index d4289e3..4b04c46 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1513,6 +1513,7 @@ class Stringify {
           .suppress_nullptr = true,
           .suppress_nullopt = true,
           .suppress_disabled = true,
+          .field_disabled = "{}",
       }},
       .key_control{StringifyOptions::KeyControl{
           .key_mode = StringifyOptions::KeyMode::kNumericFallback,
-- 
2.43.0


From 75c858e1787a17876f4c7a1580307b8efde9d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 43/62] fix: Stringify's JSON modes print the names of pairs in
 variants

---
 mbo/types/stringify.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 4b04c46..6a18f4c 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1255,7 +1255,7 @@ class Stringify {
           if constexpr (IsAggregate<ArgT> || IsStringKeyedContainer<ArgT>) {
             StreamImpl<ArgT>(os, options, arg);
           } else {
-            StreamValue(os, options, arg, false);
+            StreamValue(os, options, arg, FieldNamesRequired(options));
           }
         },
         value);
@@ -1265,7 +1265,12 @@ class Stringify {
   requires(!IsStringKeyedContainer<T>)
   void StreamValue(OStream& os, const StringifyFieldOptions& options, const T& value, bool /*allow_field_names*/)
       const {
-    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), false);
+    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), FieldNamesRequired(options));
+  }
+
+  // Whether the output format (e.g. JSON) cannot do without field names.
+  static bool FieldNamesRequired(const StringifyFieldOptions& options) {
+    return options.outer.key_control->key_mode == StringifyOptions::KeyMode::kNumericFallback;
   }
 
   template<typename T>
-- 
2.43.0


From 5ea8fe05ceeb683c1a915c89cd391a57bbab03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 44/62] fix: mope sections stay where they are when further
 sections of that name are added

AddSection returns a pointer into a std::vector<Template>, so adding another
section of the same name left all previously returned pointers dangling.
---
 mbo/mope/mope.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 0100016..899c7ab 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -16,6 +16,7 @@
 #ifndef MBO_MOPE_MOPE_H_
 #define MBO_MOPE_MOPE_H_
 
+#include <list>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -85,7 +86,7 @@ class Template {
 
   struct Section {
     mutable std::string join;
-    std::vector<Template> dictionary;
+    std::list<Template> dictionary;  // Not a vector: `AddSection` returns pointers to the elements.
   };
 
   struct Range : mbo::types::Extend<Range> {
-- 
2.43.0


From e3b6d3c949376cb15a030d656fe127a13f82e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 45/62] fix: mope section joiners can be references

As documented {{#section:name}} joins with the value of name. It was ignored.
---
 mbo/mope/mope.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e9c3407..8a4a661 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -345,15 +345,8 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
       output.clear();
       return absl::OkStatus();
     }
-    static constexpr mbo::strings::ParseOptions kOptions{
-        .remove_quotes = true,
-        .allow_unquoted = false,
-    };
-    std::string_view join;
-    if (tag.option.has_value()) {
-      join = *tag.option;
-    }
-    MBO_ASSIGN_OR_RETURN(section->data.join, ParseString(kOptions, join));
+    section->data.join.clear();
+    MBO_RETURN_IF_ERROR(MaybeLookup(tag, tag.option.value_or(""), ctx, section->data.join));
     return ExpandSection(*section, ctx, output);
   }
   static constexpr LazyRE2 kReFor = {
-- 
2.43.0


From ddb4cd6247e6071285ea292620660ea63fe15d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 46/62] fix: mope loops that end near the limits of int

The loop variable overflowed: undefined behavior and in practice endless loops.
---
 mbo/mope/mope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 8a4a661..a96eea7 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -16,6 +16,7 @@
 #include "mbo/mope/mope.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -211,8 +212,9 @@ absl::Status Template::ExpandRangeTag(const TagInfo& /*tag*/, Range& range, Cont
   }
   range.expanding = true;
   const absl::Cleanup cleanup = [&range] { range.expanding = false; };
-  for (range.curr = range.start; range.step > 0 ? range.curr <= range.end : range.curr >= range.end;
-       range.curr += range.step) {
+  // The loop variable has to be able to pass `end`.
+  for (std::int64_t curr = range.start; range.step > 0 ? curr <= range.end : curr >= range.end; curr += range.step) {
+    range.curr = static_cast<int>(curr);
     if (!range.join.empty() && range.curr != range.start) {
       output.append(range.join);
     }
-- 
2.43.0


From 7a4122d37a5aeef907c3e9ec1b45371bacbf576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 47/62] fix: mope loops cannot use the name of a template value

The template's values are looked up first, so the loop silently printed that
value over and over. Lists and controls report the error already.
---
 mbo/mope/mope.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index a96eea7..0d7abb9 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -244,6 +244,10 @@ absl::Status Template::ExpandRangeData(
   // * range.step > 0 && range.start > range.end
   // * range.step < 0 && range.start < range.end
   // But that would not work well with values that were looked up or computed.
+  if (data_.contains(tag.name)) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Tag '", tag.name, "' may not be present prior to expanding a range of the same name."));
+  }
   auto [r_tag_it, inserted] = ctx.data.emplace(tag.name, TagData<Range>{.tag = tag, .data = range});
   if (!inserted) {
     return absl::InvalidArgumentError(absl::StrCat("Tag '", tag.name, "' appears twice."));
-- 
2.43.0


From 913ced1de08bbf875138147737f3842579fad7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 48/62] fix: mope can set a tag to an empty value

{{tag=}} was handled as {{tag}}.
---
 mbo/mope/mope.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 0d7abb9..e5afb41 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -422,7 +422,7 @@ std::optional<const Template::TagInfo> Template::FindAndConsumeTag(std::string_v
       .end = type.empty() ? "" : absl::StrCat("{{/", name, "}}"),
       .config = has_extra == "=" ? std::optional<std::string>(extra) : std::nullopt,
       .option = has_extra == ":" ? std::optional<std::string>(extra) : std::nullopt,
-      .type = type.empty() ? (extra.empty() ? TagType::kValue : TagType::kControl) : TagType::kSection,
+      .type = type.empty() ? (extra.empty() && has_extra != "=" ? TagType::kValue : TagType::kControl) : TagType::kSection,
   };
 }
 
-- 
2.43.0


From e0a7ff071543ec54e1150381ea8501f0207bc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 49/62] fix: align_markdown_tables takes a pipe after an
 escaped backslash as a delimiter

A row that ended in "\\\\|" got an additional empty column: only an odd number
of backslashes escapes the pipe.
---
 tools/align_markdown_tables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 19fe6e7..0ce355b 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -48,7 +48,8 @@ def _split_cells(row):
     if s.startswith("|"):
         s = s[1:]
     # A trailing pipe is a delimiter unless it is escaped (``\|``).
-    if s.endswith("|") and not s.endswith("\\|"):
+    escapes = len(s[:-1]) - len(s[:-1].rstrip("\\"))
+    if s.endswith("|") and escapes % 2 == 0:
         s = s[:-1]
     cells = []
     cur = []
-- 
2.43.0


From 9b49109ac56b51c9154261452120635b02f46546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 50/62] fix: align_markdown_tables does not end a code block at
 a fence that has text

Only an opening fence can have an info string, so tables that follow such a
line are still part of the code block and must be left untouched.
---
 tools/align_markdown_tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 0ce355b..2d76447 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -155,7 +155,7 @@ def align_text(text):
         fence_match = _FENCE.match(line)
         if fence is not None:
             out.append(line)
-            if fence_match and fence_match.group(2)[0] == fence[0] and len(fence_match.group(2)) >= len(fence):
+            if fence_match and fence_match.group(2)[0] == fence[0] and len(fence_match.group(2)) >= len(fence) and not line[fence_match.end():].strip():
                 fence = None
             i += 1
             continue
-- 
2.43.0


From 5eff555a2a34afcbdec800a23765e90eab40fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 51/62] fix: the digest tool takes files it cannot read for
 files that end there

Directories and files with read errors open successfully and then fail to read.
Their digest was that of the bytes read so far, so --check reported a directory
as OK if the listed digest was that of an empty file.
---
 mbo/digest/digest_main.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3548ede..c47a458 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -114,22 +114,26 @@ namespace {
 
 namespace fs = std::filesystem;
 
-// Digests a stream in chunks (no whole-file buffering).
+// Digests a stream in chunks (no whole-file buffering). Returns `std::nullopt`
+// if the stream cannot be read to its end (e.g. a directory, which does open).
 template<typename Algo>
-std::string HexDigestStream(std::istream& input) {
+std::optional<std::string> HexDigestStream(std::istream& input) {
   static constexpr std::size_t kChunkSize = 1ULL << 16U;
   Streamer<Algo> stream;
   std::array<char, kChunkSize> buffer = {};
   while (input.read(buffer.data(), kChunkSize).gcount() > 0) {
     stream.Update(std::string_view(buffer.data(), static_cast<std::size_t>(input.gcount())));
   }
+  if (input.bad()) {
+    return std::nullopt;
+  }
   return ToHexString(stream.Finalize());
 }
 
 // The SHAKE XOFs have no inherent output size; the CLI prints 32 bytes.
 constexpr std::size_t kShakeOutputSize = 32;
 
-using DigestFunc = std::string (*)(std::istream&);
+using DigestFunc = std::optional<std::string> (*)(std::istream&);
 
 struct NamedAlgorithm {
   std::string_view name;
@@ -211,7 +215,8 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     }
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
-    if (!input) {
+    const std::optional<std::string> digest = input ? algorithm.func(input) : std::nullopt;
+    if (!digest.has_value()) {
       if (!ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
@@ -220,7 +225,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
       continue;
     }
-    if (algorithm.func(input) == ToLowerHex(hex)) {
+    if (*digest == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
         std::cout << file_name << ": OK\n";
@@ -248,6 +253,10 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
       return 1;
     }
     CheckStream(algorithm, sums, stats);
+    if (sums.bad()) {
+      std::cerr << file_name << ": Cannot read checksum file.\n";
+      return 1;
+    }
   }
   const bool silent = absl::GetFlag(FLAGS_status);
   auto warn = [&](std::size_t count, std::string_view what) {
@@ -274,7 +283,13 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
   int result = 0;
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      Print(digest(std::cin), file_name);
+      const std::optional<std::string> hex = digest(std::cin);
+      if (!hex.has_value()) {
+        std::cerr << file_name << ": Cannot read file.\n";
+        result = 1;
+        continue;
+      }
+      Print(*hex, file_name);
       continue;
     }
     const fs::path path(file_name);
@@ -287,12 +302,13 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
       continue;
     }
     std::ifstream input(path, std::ios::binary);
-    if (!input) {
+    const std::optional<std::string> hex = input ? digest(input) : std::nullopt;
+    if (!hex.has_value()) {
       std::cerr << file_name << ": Cannot read file.\n";
       result = 1;
       continue;
     }
-    Print(digest(input), file_name);
+    Print(*hex, file_name);
   }
   return result;
 }
-- 
2.43.0


From 8b616db4299b9de01205f020fdc1b5be0af7e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 52/62] fix: the diff tool ignores --ignore_matching_chunks

---
 mbo/diff/diff_main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 2f48cbc..3900026 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -258,6 +258,7 @@ Diff::Options MakeDiffOptions() {
       .file_header_use = *file_header_use,
       .ignore_blank_lines = absl::GetFlag(FLAGS_ignore_blank_lines),
       .ignore_case = absl::GetFlag(FLAGS_ignore_case),
+      .ignore_matching_chunks = absl::GetFlag(FLAGS_ignore_matching_chunks),
       .ignore_all_space = absl::GetFlag(FLAGS_ignore_all_space),
       .ignore_consecutive_space = absl::GetFlag(FLAGS_ignore_consecutive_space),
       .ignore_trailing_space = absl::GetFlag(FLAGS_ignore_trailing_space),
-- 
2.43.0


From c58ec1e5fce64b0898e94fa95fd8a4ceed222c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 53/62] fix: the diff tool's --strip_comments refers to a
 destroyed string

The options hold a view of the comment start, which was a local variable of the
function that makes the options.
---
 mbo/diff/diff_main.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 3900026..0cae484 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -228,8 +228,8 @@ constexpr int kExitTrouble = 2;
 // Builds the diff options from the command-line flags. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
 // flag validation and the two option-building lambdas.
-Diff::Options MakeDiffOptions() {
-  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+// The result refers to `strip_comments`.
+Diff::Options MakeDiffOptions(std::string_view strip_comments) {
   const std::optional<Diff::Options::Algorithm> algorithm =
       Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm));
   ABSL_QCHECK(algorithm) << "Unknown algorithm";
@@ -303,7 +303,8 @@ int Diff(std::string_view lhs_name, std::string_view rhs_name) {
   if (!rhs.ok()) {
     return kExitTrouble;
   }
-  const Diff::Options diff_options = MakeDiffOptions();
+  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+  const Diff::Options diff_options = MakeDiffOptions(strip_comments);
   const auto result = Diff::FileDiff(*lhs, *rhs, diff_options);
   if (!result.ok()) {
     ABSL_LOG(ERROR) << "ERROR: " << result.status();
-- 
2.43.0


From c9f097a2ea78ef2d881b95ce3cd7ab4aa7c2f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 54/62] fix: mope without --ini tries to read an INI file '-'

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 3bdca6b..35ed923 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -39,7 +39,7 @@
 
 ABSL_FLAG(std::string, template, "", "The templte input file (.tpl, .mope).");
 ABSL_FLAG(std::string, generate, "-", "The generated out file ('-' for stdout)");
-ABSL_FLAG(std::string, ini, "-", "An INI file that can be used to initialize section data.");
+ABSL_FLAG(std::string, ini, "", "An INI file that can be used to initialize section data.");
 
 ABSL_FLAG(
     std::vector<std::string>,
-- 
2.43.0


From e3207ca8a2e2a93ea994359bd349ebe4bcd44ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 55/62] fix: mope uses the content of a template it could not
 read

---
 mbo/mope/mope_main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 35ed923..5b8a7df 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -97,7 +97,7 @@ absl::Status ApplySetFlag(
 }
 
 absl::Status Process(const Options& opts) {
-  auto input = mbo::file::Artefact::Read(opts.template_name);
+  MBO_ASSIGN_OR_RETURN(mbo::file::Artefact input, mbo::file::Artefact::Read(opts.template_name));
   mbo::mope::Template mope_template;
   // Add `--set` flag values.
   absl::flat_hash_map<std::string, std::string> context_data;
@@ -110,12 +110,12 @@ absl::Status Process(const Options& opts) {
     MBO_RETURN_IF_ERROR(mope::ReadIniToTemlate(ini_filename, mope_template));
   }
   // Expand the template.
-  MBO_RETURN_IF_ERROR(mope_template.Expand(input->data, mbo::container::MakeConvertingScan(context_data)));
+  MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input->data;
+    std::cout << input.data;
     return absl::OkStatus();
   }
-  return mbo::file::SetContents(opts.generate_name, input->data);
+  return mbo::file::SetContents(opts.generate_name, input.data);
 }
 
 }  // namespace
-- 
2.43.0


From c9ab7e0bd4e94e5d685762c084705719a1ee3cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 56/62] fix: mope drops what follows a second '=' in a --set
 value

---
 mbo/mope/mope_main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 5b8a7df..827d75f 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -73,7 +73,8 @@ absl::Status ApplySetFlag(
     absl::flat_hash_map<std::string, std::string>& context_data) {
   static constexpr std::string_view kEmptyPartError =
       "No part of the key in `--set=<key>=<value>` may be empty if split by ':'.";
-  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, '='));
+  const auto [names, value] =
+      std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, absl::MaxSplits('=', 1)));
   std::vector<std::string_view> section_names = absl::StrSplit(names, ':');
   const std::string_view key = section_names.back();
   if (key.empty()) {
-- 
2.43.0


From 9fbc88f8d253904072b7f56be634de666e0d2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 57/62] fix: Instantiate the container proxy and NoDestruct
 members that did not compile

clear() was required of a const container, the const front() of the
wrapped type rather than the container and pop_front() of a misspelled
member, so none of them was available. The hash and the text of a
NoDestruct accessed members that do not exist.
---
 mbo/types/container_proxy.h | 6 +++---
 mbo/types/no_destruct.h     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbo/types/container_proxy.h b/mbo/types/container_proxy.h
index 1031eb2..5403847 100644
--- a/mbo/types/container_proxy.h
+++ b/mbo/types/container_proxy.h
@@ -103,7 +103,7 @@ struct ContainerProxy : T {
   constexpr auto max_size() const requires(requires(const C& v) { v.max_size(); }) { return Get().max_size(); }
   constexpr auto capacity() const requires(requires(const C& v) { v.capacity(); }) { return Get().capacity(); }
 
-  constexpr void clear() requires(requires(const C& v) { v.clear(); }) { Get().clear(); }
+  constexpr void clear() requires(requires(C& v) { v.clear(); }) { Get().clear(); }
   constexpr void reserve(size_type capacity) requires(requires(C& v) { v.reserve(std::declval<size_type>()); }) { Get().reserve(capacity); }
   constexpr void resize(size_type size) requires(requires(C& v) { v.resize(std::declval<size_type>()); }) { Get().resize(size); }
 
@@ -146,11 +146,11 @@ struct ContainerProxy : T {
 
   constexpr auto& back() const requires(requires(const C& v) { v.back(); }) { return Get().back(); }
   constexpr auto& back() requires(requires(C& v) { v.back(); }) { return Get().back(); }
-  constexpr auto& front() const requires(requires(const T& v) { v.front(); }) { return Get().front(); }
+  constexpr auto& front() const requires(requires(const C& v) { v.front(); }) { return Get().front(); }
   constexpr auto& front() requires(requires(C& v) { v.front(); }) { return Get().front(); }
 
   constexpr void pop_back() requires(requires(C& v) { v.pop_back(); }) { Get().pop_back(); }
-  constexpr void pop_front() requires(requires(C& v) { v.pop_frontk(); }) { Get().pop_front(); }
+  constexpr void pop_front() requires(requires(C& v) { v.pop_front(); }) { Get().pop_front(); }
 
   auto operator<=>(const ContainerProxy& other) const
   requires std::three_way_comparable<T>
diff --git a/mbo/types/no_destruct.h b/mbo/types/no_destruct.h
index 6624c59..035c39a 100644
--- a/mbo/types/no_destruct.h
+++ b/mbo/types/no_destruct.h
@@ -102,12 +102,12 @@ class NoDestruct final {
 
   template<typename H>
   friend H AbslHashValue(H hash, const NoDestruct<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.data_));
+    return H::combine(std::move(hash), v.Get());
   }
 
   template<typename Sink>
   friend void AbslStringify(Sink& sink, const NoDestruct<T>& v) {
-    absl::Format(&sink, "%v", v.data_);
+    absl::Format(&sink, "%v", v.Get());
   }
 
  private:
-- 
2.43.0


From dd4a73a9a0b8ab3643b5f9eaf3992d3d8fd9b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 58/62] fix: Do not search before the start of a function name
 that is just a call operator

---
 mbo/log/log_timing.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 11fc1b7..ebaa7b1 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -138,6 +138,10 @@ std::string LogTimingImpl::StripFunctionName(std::string_view function) {
         static constexpr std::string_view kConversion = "operator()";
         if (function.substr(0, pos + 2).ends_with(kConversion)) {
           function.remove_suffix(function.length() - (pos + 2));
+          if (pos <= kConversion.length()) {
+            pos = 0;  // Nothing left to search, in particular for a bare `operator()`.
+            break;
+          }
           pos -= kConversion.length();
           continue;
         }
-- 
2.43.0


From 2495c6948c05c37918aae059c4ea65e523bda316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 59/62] fix: Match paths relative to the normalized root of a
 glob

---
 mbo/file/glob.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 4d49d15..4ea17b6 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -562,6 +562,9 @@ absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options
       root = std::filesystem::current_path() / root;
     }
   }
+  if (!root.empty()) {
+    root = root.lexically_normal();  // The paths of the entries are normalized, and get matched relative to `root`.
+  }
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
     if (!regex.pattern().empty()) {
       if (options.use_rel_path) {
-- 
2.43.0


From 8f4dcde1728a73d721dbab953200b4abed6a7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 60/62] fix: The glob tool printed empty lines for relative
 roots

---
 mbo/file/glob_main.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 7675706..1ca21ba 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -69,9 +69,8 @@ class Entries {
 
   ~Entries() = default;
 
-  explicit Entries(std::filesystem::path root)
-      : root_(std::move(root)),
-        dotdir_(absl::GetFlag(FLAGS_dotdir)),
+  Entries()
+      : dotdir_(absl::GetFlag(FLAGS_dotdir)),
         dotfile_(absl::GetFlag(FLAGS_dotfile)),
         show_fast_(absl::GetFlag(FLAGS_fast)),
         show_size_(absl::GetFlag(FLAGS_size)),
@@ -181,7 +180,7 @@ class Entries {
     if (show_depth_) {
       std::cout << absl::StreamFormat("%*s ", depth_len_, BigNumber(entry.glob_entry.depth));
     }
-    std::cout << entry.glob_entry.entry.path().lexically_relative(root_).native() << "\n";
+    std::cout << entry.glob_entry.MaybeRelativePath().native() << "\n";
   }
 
   void ComputeFieldLengths() const {
@@ -223,7 +222,6 @@ class Entries {
   }
 
  private:
-  const std::filesystem::path root_;
   const bool dotdir_{true};
   const bool dotfile_{true};
   const bool show_fast_{false};
@@ -315,12 +313,13 @@ int main(int argc, char** argv) {
           ? mbo::file::GlobSplit(root)
           : mbo::file::RootAndPattern{.root = std::string{root}, .pattern = args.at(2)};
   EXIT_IF_ERROR(root_pattern);
-  Entries entries(root_pattern->root);
+  Entries entries;
+  const mbo::file::GlobOptions options{.use_rel_path = true};
 
   const auto collect = std::bind_front(&Entries::Add, &entries);
   const auto result = absl::GetFlag(FLAGS_re2)  // NL
-                          ? mbo::file::GlobRe2(root_pattern, {}, collect)
-                          : mbo::file::Glob(root_pattern, {}, {}, collect);
+                          ? mbo::file::GlobRe2(root_pattern, options, collect)
+                          : mbo::file::Glob(root_pattern, {}, options, collect);
   EXIT_IF_ERROR(result);
   if (absl::GetFlag(FLAGS_entries) && !absl::GetFlag(FLAGS_fast)) {
     entries.PrintAllEntries();
-- 
2.43.0


From ec34d8b141c81a9e982416c111f799bbc1943937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 61/62] fix: The glob tool ignored --noentries together with
 --fast

---
 mbo/file/glob_main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 1ca21ba..fa7da39 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -137,7 +137,9 @@ class Entries {
     };
     // Maybe Print
     if (show_fast_) {
-      PrintFastEntry(entry);
+      if (absl::GetFlag(FLAGS_entries)) {
+        PrintFastEntry(entry);
+      }
     } else {
       entries_.emplace(entry);
     }
-- 
2.43.0


From 775246d136ce06680c60422114b056e554904505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 62/62] fix: The glob tool showed files below dot directories
 for --nodotdir

---
 mbo/file/glob_main.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index fa7da39..7daea1b 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -90,6 +90,14 @@ class Entries {
 
   mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
     // Filter
+    if (!dotdir_) {
+      // Directories that do not match the pattern themselves do not get here, so check for all of them.
+      for (const std::filesystem::path& dir : glob_entry.MaybeRelativePath().parent_path()) {
+        if (dir.native().starts_with('.')) {
+          return mbo::file::GlobEntryAction::kDoNotRecurse;
+        }
+      }
+    }
     if (glob_entry.entry.is_directory()) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
-- 
2.43.0

