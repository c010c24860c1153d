From 3c950fe621ebee5d7cd51dcf0b256c3246f5014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 01/21] fix: self-move assignment of function must not destroy
 the callable twice

---
 include/embedded/function.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..eccd06c 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -224,8 +224,10 @@ class function final : private detail::function_traits<Signature> {
   }
 
   function& operator=(function&& other) noexcept {
-    this->~function();
-    ::new (this) function(std::move(other));
+    if (this != &other) {
+      this->~function();
+      ::new (this) function(std::move(other));
+    }
     return *this;
   }
 
-- 
2.43.0


From b87d90d57d6ebab6f9c708a54316636838deeb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 02/21] fix: allow function<void(...)> to wrap callables that
 return a value

---
 include/embedded/function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index eccd06c..87ed19f 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -80,7 +80,8 @@ class vtbl<Return(Args...)> {
 
   template <typename T>
   static Return vt_call(storage_t s, Args&&... args) {
-    return (*static_cast<T*>(s))(static_cast<Args&&>(args)...);
+    return static_cast<Return>(
+        (*static_cast<T*>(s))(static_cast<Args&&>(args)...));
   }
 
   template <typename T>
-- 
2.43.0


From af7426b892104a76ee646dcba791b6e14bbba8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 03/21] fix: function with a const signature must call the
 const overload of its callable

---
 include/embedded/function.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 87ed19f..66bb21b 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -62,9 +62,9 @@ class vtbl<Return(Args...)> {
 
   constexpr vtbl() noexcept {}
 
-  template <typename T>
-  explicit constexpr vtbl(wrap<T>) noexcept
-      : call{&vt_call<T>}
+  template <typename T, typename Callee>
+  explicit constexpr vtbl(wrap<T>, wrap<Callee>) noexcept
+      : call{&vt_call<Callee>}
       , proc{&vt_proc<T>} {}
 
  private:
@@ -78,10 +78,10 @@ class vtbl<Return(Args...)> {
 
   static void empty_proc(oper, storage_t, storage_t) noexcept {}
 
-  template <typename T>
+  template <typename Callee>
   static Return vt_call(storage_t s, Args&&... args) {
     return static_cast<Return>(
-        (*static_cast<T*>(s))(static_cast<Args&&>(args)...));
+        (*static_cast<Callee*>(s))(static_cast<Args&&>(args)...));
   }
 
   template <typename T>
@@ -109,13 +109,13 @@ struct empty_vtbl {
 template <typename Signature>
 constexpr vtbl<Signature> empty_vtbl<Signature>::value;
 
-template <typename Signature, typename T>
+template <typename Signature, typename T, typename Callee>
 struct typed_vtbl {
-  static vtbl<Signature> constexpr value{wrap<T>{}};
+  static vtbl<Signature> constexpr value{wrap<T>{}, wrap<Callee>{}};
 };
 
-template <typename Signature, typename T>
-constexpr vtbl<Signature> typed_vtbl<Signature, T>::value;
+template <typename Signature, typename T, typename Callee>
+constexpr vtbl<Signature> typed_vtbl<Signature, T, Callee>::value;
 
 template <typename>
 struct is_function : std::false_type {};
@@ -129,6 +129,8 @@ template <typename Return, typename... Args>
 struct function_traits<Return(Args...)> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
+  template <typename T>
+  using callee = T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
@@ -142,6 +144,8 @@ template <typename Return, typename... Args>
 struct function_traits<Return(Args...) const> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
+  template <typename T>
+  using callee = const T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
@@ -183,7 +187,8 @@ class function final : private detail::function_traits<Signature> {
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
   template <typename T>
-  using typed_vtbl = detail::typed_vtbl<signature, T>;
+  using typed_vtbl =
+      detail::typed_vtbl<signature, T, typename traits::template callee<T>>;
 
   friend traits;
 
-- 
2.43.0


From b90d2b5f3e7aadb18ca94a0cc3c31fc7b011405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 04/21] fix: const_iterator of circular_buffer_adapter must be
 a copyable, advanceable random access iterator

---
 include/embedded/circular_buffer_adapter.h     | 18 +++++++++++-------
 .../embedded/detail/circular_buffer_adapter.h  |  8 +++++++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index bd4f0fc..6aff90e 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -232,7 +232,7 @@ class circular_buffer_adapter {
 
   template <typename Traits>
   size_type raw_index(detail::cba_iterator<T, Traits> const& it) const {
-    return std::distance(begin_, it.realiter());
+    return it.realiter() - begin_;
   }
 
   template <typename U,
@@ -363,14 +363,16 @@ class circular_buffer_adapter {
 
   pointer first_iter() const { return size_ != 0 ? first_ : 0; }
 
-  void inc(pointer& p) const {
+  template <typename P>
+  void inc(P& p) const {
     assert(p != nullptr);
     if (++p == end_) {
       p = begin_;
     }
   }
 
-  void dec(pointer& p) const {
+  template <typename P>
+  void dec(P& p) const {
     assert(p != nullptr);
     if (p == begin_) {
       p = end_;
@@ -387,16 +389,18 @@ class circular_buffer_adapter {
     return n - static_cast<difference_type>(capacity());
   }
 
-  pointer add(pointer p, difference_type n) const {
+  template <typename P>
+  P add(P p, difference_type n) const {
     assert(p != nullptr);
     assert(n >= 0);
-    return p + (n < std::distance(p, end_) ? n : wrap_around(n));
+    return p + (n < end_ - p ? n : wrap_around(n));
   }
 
-  pointer sub(pointer p, difference_type n) const {
+  template <typename P>
+  P sub(P p, difference_type n) const {
     assert(p != nullptr);
     assert(n >= 0);
-    return p - (n <= std::distance(begin_, p) ? n : wrap_around(n));
+    return p - (n <= p - begin_ ? n : wrap_around(n));
   }
 
   difference_type index(const_pointer cp) const {
diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..dcc27c1 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,10 +67,16 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  template <typename Tr,
+            typename std::enable_if<
+                std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+                    !std::is_same<Tr, Traits>::value,
+                bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
+  cba_iterator(cba_iterator const&) = default;
   cba_iterator(cba_iterator&&) = default;
   cba_iterator& operator=(cba_iterator const&) = default;
   cba_iterator& operator=(cba_iterator&&) = default;
-- 
2.43.0


From 055da15680b1f7089aef382b86cd9ea18bd9103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 05/21] fix: pair real poles with real poles when building
 second order sections

---
 include/embedded/signal/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/filter.h b/include/embedded/signal/detail/filter.h
index f28690b..9413eee 100644
--- a/include/embedded/signal/detail/filter.h
+++ b/include/embedded/signal/detail/filter.h
@@ -235,8 +235,8 @@ struct unit_circle_distance_real_less {
   template <typename F>
   constexpr bool operator()(cmath::complex<F> const& a,
                             cmath::complex<F> const& b) const noexcept {
-    return a.is_real() < b.is_real() ||
-           (a.is_real() == a.is_real() && unit_distance(a) < unit_distance(b));
+    return a.is_real() > b.is_real() ||
+           (a.is_real() == b.is_real() && unit_distance(a) < unit_distance(b));
   }
 };
 
-- 
2.43.0


From 09073e734ac0665b97e2dcbce57f1f71a1d44bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 06/21] fix: debug record names longer than the name field must
 be truncated

---
 include/embedded/signal/detail/debug_filter_coefs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/debug_filter_coefs.h b/include/embedded/signal/detail/debug_filter_coefs.h
index 21e9488..4d41654 100644
--- a/include/embedded/signal/detail/debug_filter_coefs.h
+++ b/include/embedded/signal/detail/debug_filter_coefs.h
@@ -63,9 +63,9 @@ struct filter_debug_header {
   constexpr filter_debug_header(uint16_t length,
                                 filter_debug_structure structure,
                                 filter_debug_value_type valtype,
-                                char const (&name)[S]) noexcept
+                                char const (&name_)[S]) noexcept
       : filter_debug_header(
-            length, structure, valtype, name,
+            length, structure, valtype, name_,
             make_index_sequence<cmath::min(sizeof(name) - 1, S)>{}) {}
 
   template <size_t S, std::size_t... Ints>
-- 
2.43.0


From 0d0f807373d6ab5cd7d58fa70c0105470fbb56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 07/21] fix: move_wrapper constructor must let an exception
 from the move propagate

---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..b6796f1 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_move_constructible<T>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From 88b3f4a621de71d9b5f4186d05f64e21b094e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 08/21] fix: printing a second order section must compile

---
 include/embedded/ostream_ops.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index da61cfa..dfd8538 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -51,14 +51,14 @@ std::ostream& operator<<(std::ostream& os, zpk_value<Zn, Pn, F> const& zpk) {
   return os;
 }
 
+} // namespace detail
+
 template <typename T>
-std::ostream&
-operator<<(std::ostream& os, embedded::signal::sos_section<T> const& s) {
-  os << "{gain=" << s.gain_ << ", b=" << s.b() << ", a=" << s.a() << "}";
+std::ostream& operator<<(std::ostream& os, sos_section<T> const& s) {
+  os << "{b=" << s.b() << ", a=" << s.a() << "}";
   return os;
 }
 
-} // namespace detail
 } // namespace signal
 
 namespace cmath {
-- 
2.43.0


From 2a0c1872972010c5815bb866d0586514e2481bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 09/21] fix: circular_buffer_adapter starting at the end of its
 memory must wrap to the beginning

---
 include/embedded/circular_buffer_adapter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index 6aff90e..3bb00de 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -95,8 +95,8 @@ class circular_buffer_adapter {
                           size_type item_count)
       : begin_{begin}
       , end_{end}
-      , first_{first}
-      , last_{add(first, item_count)}
+      , first_{first != end ? first : begin}
+      , last_{add(first_, item_count)}
       , size_{item_count} {
     assert(begin <= first);
     assert(first <= end);
-- 
2.43.0


From f24c84954a9250ec1beedc56dfcc1b4919a2a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 10/21] fix: calling a function with a non-default alignment
 must find its storage

---
 include/embedded/function.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 66bb21b..4ab7c7d 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -122,11 +122,11 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Signature, size_t Capacity, size_t Alignment>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...), Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   template <typename T>
@@ -134,14 +134,15 @@ struct function_traits<Return(Args...)> {
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn =
+        static_cast<function<Return(Args...), Capacity, Alignment>*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...) const, Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   template <typename T>
@@ -149,7 +150,8 @@ struct function_traits<Return(Args...) const> {
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn = static_cast<
+        function<Return(Args...) const, Capacity, Alignment> const*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -180,9 +182,10 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<Signature, Capacity, Alignment> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<Signature, Capacity, Alignment>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From 34b9a55ef413352a98292940df2ced68aac536fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 11/21] fix: move_wrapper must not turn its payload into an
 initializer list

---
 include/embedded/move_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index b6796f1..222a721 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -32,14 +32,14 @@ class move_wrapper {
  public:
   explicit move_wrapper(T&& t) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::forward<T>(t)} {}
+      : val_(std::forward<T>(t)) {}
 
   move_wrapper(move_wrapper const& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(const_cast<move_wrapper&>(other).val_)} {}
+      : val_(std::move(const_cast<move_wrapper&>(other).val_)) {}
   move_wrapper(move_wrapper&& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(other.val_)} {}
+      : val_(std::move(other.val_)) {}
 
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
-- 
2.43.0


From e6eebaabf4aa2161ea3e9080897f1c6c989f46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 12/21] fix: function must not turn its callable into an
 initializer list

---
 include/embedded/function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 4ab7c7d..695dd11 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -88,7 +88,7 @@ class vtbl<Return(Args...)> {
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
     case oper::move:
-      ::new (dst) T{std::move(*static_cast<T*>(src))};
+      ::new (dst) T(std::move(*static_cast<T*>(src)));
       // fallthrough
     case oper::destroy:
       static_cast<T*>(src)->~T();
@@ -222,7 +222,7 @@ class function final
     static_assert(Alignment % alignof(C) == 0,
                   "function<> alignment too small for this type");
 
-    ::new (std::addressof(storage_)) C{std::forward<T>(fun)};
+    ::new (std::addressof(storage_)) C(std::forward<T>(fun));
   }
 
   function(function&& other) noexcept
-- 
2.43.0


From 914da1b6d5dfd226c9854b4f81199c8f248535f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 13/21] fix: comparing vectors must compare their elements for
 equality

---
 include/embedded/constexpr_math/vector.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 1c2da14..2e254bb 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -127,15 +127,15 @@ class prod_reducer {
 };
 
 template <typename T, std::size_t Size, std::size_t I = 0>
-struct compare {
-  constexpr int operator()(T const& a, T const& b) const noexcept {
-    return a[I] < b[I] ? -1 : a[I] > b[I] ? 1 : compare<T, Size, I + 1>()(a, b);
+struct equal {
+  constexpr bool operator()(T const& a, T const& b) const noexcept {
+    return a[I] == b[I] && equal<T, Size, I + 1>()(a, b);
   }
 };
 
 template <typename T, std::size_t Size>
-struct compare<T, Size, Size> {
-  constexpr int operator()(T const&, T const&) const noexcept { return 0; }
+struct equal<T, Size, Size> {
+  constexpr bool operator()(T const&, T const&) const noexcept { return true; }
 };
 
 template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
@@ -296,7 +296,7 @@ class vector {
   }
 
   constexpr bool operator==(vector const& other) const noexcept {
-    return detail::compare<vector, Size>()(*this, other) == 0;
+    return detail::equal<vector, Size>()(*this, other);
   }
 
   template <typename Pred>
-- 
2.43.0


From 8df78e8766c4cea3f0eb5e2979f1cf51e60d89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 14/21] fix: parse-filter-coefs.py: show names that are cut
 inside a UTF-8 sequence

---
 scripts/parse-filter-coefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse-filter-coefs.py b/scripts/parse-filter-coefs.py
index a61fb43..36a8aa7 100755
--- a/scripts/parse-filter-coefs.py
+++ b/scripts/parse-filter-coefs.py
@@ -35,7 +35,7 @@ def parse(data):
         valnum = size // valsizes[valtype]
         values = unpack(f"{valnum}{valtypes[valtype]}", data[:size])
         data = data[size:]
-        name = name.rstrip(b"\0").decode("utf-8")
+        name = name.rstrip(b"\0").decode("utf-8", errors="replace")
         print(f"{name}:")
 
         if structure == 0:
-- 
2.43.0


From 3adc87bfb2205012bb606ae55fa00cfecfc610e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 15/21] fix: cmath::min returns its first argument of two
 equivalent ones in C++11 as well

std::min, which is used from C++14 on, does; the order also decided which
of a number and a NaN was returned.
---
 include/embedded/constexpr_math/functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/functions.h b/include/embedded/constexpr_math/functions.h
index 0164d46..315459d 100644
--- a/include/embedded/constexpr_math/functions.h
+++ b/include/embedded/constexpr_math/functions.h
@@ -62,7 +62,7 @@ using ::std::min;
 #else
 template <class T>
 static constexpr const T& min(const T& a, const T& b) {
-  return a < b ? a : b;
+  return b < a ? b : a;
 }
 
 template <class T>
-- 
2.43.0


From e74969c1ff48bed37d8df13cc0b298acb3cb3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 16/21] fix: the elementary functions must not depend on what
 was included before

functions.h tests a macro of the standard library before including any of its
headers, so that it took the other source if it was included first.
---
 include/embedded/constexpr_math/functions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/embedded/constexpr_math/functions.h b/include/embedded/constexpr_math/functions.h
index 315459d..7f5b0a9 100644
--- a/include/embedded/constexpr_math/functions.h
+++ b/include/embedded/constexpr_math/functions.h
@@ -22,6 +22,8 @@
 
 #pragma once
 
+#include <cstddef> // makes the standard library's macros visible
+
 // TODO: this is probably a poor check
 #if !defined(LIBEMB_DISABLE_GLIBCXX_CONSTEXPR) &&                              \
     !defined(__INTEL_COMPILER) && !defined(__clang__) && defined(__GNUG__) &&  \
-- 
2.43.0


From 4199b9d14908ff9036e6934fc6f6d5cf9b1682c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 17/21] fix: ostream_ops.h: include the sections that it prints

---
 include/embedded/ostream_ops.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index dfd8538..5d14f69 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -28,6 +28,7 @@
 #include "constexpr_math/complex.h"
 #include "constexpr_math/vector.h"
 #include "signal/detail/filter.h"
+#include "signal/sos.h"
 
 namespace fpm {
 
-- 
2.43.0


From b30ed8b446f445dfda3639a8c7f26731459dc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 18/21] fix: recorded filter coefficients must not clash
 between translation units

Designs of the same name in two units had the same external name.
---
 include/embedded/signal/debug_filter_coefs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/debug_filter_coefs.h b/include/embedded/signal/debug_filter_coefs.h
index 078520b..76af73d 100644
--- a/include/embedded/signal/debug_filter_coefs.h
+++ b/include/embedded/signal/debug_filter_coefs.h
@@ -29,9 +29,9 @@
 #endif
 
 #define LIBEMB_DEBUG_FILTER_COEFS_NAME(design, name)                           \
-  extern "C" ::embedded::signal::detail::filter_design_debug<                  \
+  static ::embedded::signal::detail::filter_design_debug<                      \
       std::decay<decltype(design)>::type> const                                \
-      __attribute__((section(LIBEMB_DEBUG_FILTER_COEFS_SECTION)))              \
+      __attribute__((section(LIBEMB_DEBUG_FILTER_COEFS_SECTION), used))        \
       LIBEMB_UNIQUE_NAME(design) {                                             \
     design, name                                                               \
   }
-- 
2.43.0


From caa9df8dcdf82395f678b4ac0608bd987c86ae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 19/21] fix: define the tables of Bessel poles

In C++11 and C++14 a static constexpr member that is used at run time needs a
definition; without one, programs did not link unless everything was optimised away.
---
 include/embedded/signal/detail/bessel_poles.h | 300 ++++++++++++++++++
 scripts/gen-bessel-poles.py                   |  10 +
 2 files changed, 310 insertions(+)

diff --git a/include/embedded/signal/detail/bessel_poles.h b/include/embedded/signal/detail/bessel_poles.h
index b891f7c..853823d 100644
--- a/include/embedded/signal/detail/bessel_poles.h
+++ b/include/embedded/signal/detail/bessel_poles.h
@@ -41,6 +41,9 @@ struct bessel_poles<F, 1> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 1> bessel_poles<F, 1>::value;
+
 template <typename F>
 struct bessel_poles<F, 2> {
   static constexpr cmath::vector<cmath::complex<F>, 2> value{
@@ -49,6 +52,9 @@ struct bessel_poles<F, 2> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 2> bessel_poles<F, 2>::value;
+
 template <typename F>
 struct bessel_poles<F, 3> {
   static constexpr cmath::vector<cmath::complex<F>, 3> value{
@@ -58,6 +64,9 @@ struct bessel_poles<F, 3> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 3> bessel_poles<F, 3>::value;
+
 template <typename F>
 struct bessel_poles<F, 4> {
   static constexpr cmath::vector<cmath::complex<F>, 4> value{
@@ -68,6 +77,9 @@ struct bessel_poles<F, 4> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 4> bessel_poles<F, 4>::value;
+
 template <typename F>
 struct bessel_poles<F, 5> {
   static constexpr cmath::vector<cmath::complex<F>, 5> value{
@@ -79,6 +91,9 @@ struct bessel_poles<F, 5> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 5> bessel_poles<F, 5>::value;
+
 template <typename F>
 struct bessel_poles<F, 6> {
   static constexpr cmath::vector<cmath::complex<F>, 6> value{
@@ -91,6 +106,9 @@ struct bessel_poles<F, 6> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 6> bessel_poles<F, 6>::value;
+
 template <typename F>
 struct bessel_poles<F, 7> {
   static constexpr cmath::vector<cmath::complex<F>, 7> value{
@@ -104,6 +122,9 @@ struct bessel_poles<F, 7> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 7> bessel_poles<F, 7>::value;
+
 template <typename F>
 struct bessel_poles<F, 8> {
   static constexpr cmath::vector<cmath::complex<F>, 8> value{
@@ -118,6 +139,9 @@ struct bessel_poles<F, 8> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 8> bessel_poles<F, 8>::value;
+
 template <typename F>
 struct bessel_poles<F, 9> {
   static constexpr cmath::vector<cmath::complex<F>, 9> value{
@@ -133,6 +157,9 @@ struct bessel_poles<F, 9> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 9> bessel_poles<F, 9>::value;
+
 template <typename F>
 struct bessel_poles<F, 10> {
   static constexpr cmath::vector<cmath::complex<F>, 10> value{
@@ -149,6 +176,9 @@ struct bessel_poles<F, 10> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 10> bessel_poles<F, 10>::value;
+
 template <typename F>
 struct bessel_poles<F, 11> {
   static constexpr cmath::vector<cmath::complex<F>, 11> value{
@@ -166,6 +196,9 @@ struct bessel_poles<F, 11> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 11> bessel_poles<F, 11>::value;
+
 template <typename F>
 struct bessel_poles<F, 12> {
   static constexpr cmath::vector<cmath::complex<F>, 12> value{
@@ -184,6 +217,9 @@ struct bessel_poles<F, 12> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 12> bessel_poles<F, 12>::value;
+
 template <typename F>
 struct bessel_poles<F, 13> {
   static constexpr cmath::vector<cmath::complex<F>, 13> value{
@@ -203,6 +239,9 @@ struct bessel_poles<F, 13> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 13> bessel_poles<F, 13>::value;
+
 template <typename F>
 struct bessel_poles<F, 14> {
   static constexpr cmath::vector<cmath::complex<F>, 14> value{
@@ -223,6 +262,9 @@ struct bessel_poles<F, 14> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 14> bessel_poles<F, 14>::value;
+
 template <typename F>
 struct bessel_poles<F, 15> {
   static constexpr cmath::vector<cmath::complex<F>, 15> value{
@@ -244,6 +286,9 @@ struct bessel_poles<F, 15> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 15> bessel_poles<F, 15>::value;
+
 template <typename F>
 struct bessel_poles<F, 16> {
   static constexpr cmath::vector<cmath::complex<F>, 16> value{
@@ -266,6 +311,9 @@ struct bessel_poles<F, 16> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 16> bessel_poles<F, 16>::value;
+
 template <typename F>
 struct bessel_poles<F, 17> {
   static constexpr cmath::vector<cmath::complex<F>, 17> value{
@@ -289,6 +337,9 @@ struct bessel_poles<F, 17> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 17> bessel_poles<F, 17>::value;
+
 template <typename F>
 struct bessel_poles<F, 18> {
   static constexpr cmath::vector<cmath::complex<F>, 18> value{
@@ -313,6 +364,9 @@ struct bessel_poles<F, 18> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 18> bessel_poles<F, 18>::value;
+
 template <typename F>
 struct bessel_poles<F, 19> {
   static constexpr cmath::vector<cmath::complex<F>, 19> value{
@@ -338,6 +392,9 @@ struct bessel_poles<F, 19> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 19> bessel_poles<F, 19>::value;
+
 template <typename F>
 struct bessel_poles<F, 20> {
   static constexpr cmath::vector<cmath::complex<F>, 20> value{
@@ -364,6 +421,9 @@ struct bessel_poles<F, 20> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 20> bessel_poles<F, 20>::value;
+
 template <typename F>
 struct bessel_poles<F, 21> {
   static constexpr cmath::vector<cmath::complex<F>, 21> value{
@@ -391,6 +451,9 @@ struct bessel_poles<F, 21> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 21> bessel_poles<F, 21>::value;
+
 template <typename F>
 struct bessel_poles<F, 22> {
   static constexpr cmath::vector<cmath::complex<F>, 22> value{
@@ -419,6 +482,9 @@ struct bessel_poles<F, 22> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 22> bessel_poles<F, 22>::value;
+
 template <typename F>
 struct bessel_poles<F, 23> {
   static constexpr cmath::vector<cmath::complex<F>, 23> value{
@@ -448,6 +514,9 @@ struct bessel_poles<F, 23> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 23> bessel_poles<F, 23>::value;
+
 template <typename F>
 struct bessel_poles<F, 24> {
   static constexpr cmath::vector<cmath::complex<F>, 24> value{
@@ -478,6 +547,9 @@ struct bessel_poles<F, 24> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 24> bessel_poles<F, 24>::value;
+
 template <typename F>
 struct bessel_poles<F, 25> {
   static constexpr cmath::vector<cmath::complex<F>, 25> value{
@@ -509,6 +581,9 @@ struct bessel_poles<F, 25> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 25> bessel_poles<F, 25>::value;
+
 template <typename F>
 struct bessel_poles<F, 26> {
   static constexpr cmath::vector<cmath::complex<F>, 26> value{
@@ -541,6 +616,9 @@ struct bessel_poles<F, 26> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 26> bessel_poles<F, 26>::value;
+
 template <typename F>
 struct bessel_poles<F, 27> {
   static constexpr cmath::vector<cmath::complex<F>, 27> value{
@@ -574,6 +652,9 @@ struct bessel_poles<F, 27> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 27> bessel_poles<F, 27>::value;
+
 template <typename F>
 struct bessel_poles<F, 28> {
   static constexpr cmath::vector<cmath::complex<F>, 28> value{
@@ -608,6 +689,9 @@ struct bessel_poles<F, 28> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 28> bessel_poles<F, 28>::value;
+
 template <typename F>
 struct bessel_poles<F, 29> {
   static constexpr cmath::vector<cmath::complex<F>, 29> value{
@@ -643,6 +727,9 @@ struct bessel_poles<F, 29> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 29> bessel_poles<F, 29>::value;
+
 template <typename F>
 struct bessel_poles<F, 30> {
   static constexpr cmath::vector<cmath::complex<F>, 30> value{
@@ -679,6 +766,9 @@ struct bessel_poles<F, 30> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 30> bessel_poles<F, 30>::value;
+
 template <typename F>
 struct bessel_poles<F, 31> {
   static constexpr cmath::vector<cmath::complex<F>, 31> value{
@@ -716,6 +806,9 @@ struct bessel_poles<F, 31> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 31> bessel_poles<F, 31>::value;
+
 template <typename F>
 struct bessel_poles<F, 32> {
   static constexpr cmath::vector<cmath::complex<F>, 32> value{
@@ -754,6 +847,9 @@ struct bessel_poles<F, 32> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 32> bessel_poles<F, 32>::value;
+
 template <typename F>
 struct bessel_poles<F, 33> {
   static constexpr cmath::vector<cmath::complex<F>, 33> value{
@@ -793,6 +889,9 @@ struct bessel_poles<F, 33> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 33> bessel_poles<F, 33>::value;
+
 template <typename F>
 struct bessel_poles<F, 34> {
   static constexpr cmath::vector<cmath::complex<F>, 34> value{
@@ -833,6 +932,9 @@ struct bessel_poles<F, 34> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 34> bessel_poles<F, 34>::value;
+
 template <typename F>
 struct bessel_poles<F, 35> {
   static constexpr cmath::vector<cmath::complex<F>, 35> value{
@@ -874,6 +976,9 @@ struct bessel_poles<F, 35> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 35> bessel_poles<F, 35>::value;
+
 template <typename F>
 struct bessel_poles<F, 36> {
   static constexpr cmath::vector<cmath::complex<F>, 36> value{
@@ -916,6 +1021,9 @@ struct bessel_poles<F, 36> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 36> bessel_poles<F, 36>::value;
+
 template <typename F>
 struct bessel_poles<F, 37> {
   static constexpr cmath::vector<cmath::complex<F>, 37> value{
@@ -959,6 +1067,9 @@ struct bessel_poles<F, 37> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 37> bessel_poles<F, 37>::value;
+
 template <typename F>
 struct bessel_poles<F, 38> {
   static constexpr cmath::vector<cmath::complex<F>, 38> value{
@@ -1003,6 +1114,9 @@ struct bessel_poles<F, 38> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 38> bessel_poles<F, 38>::value;
+
 template <typename F>
 struct bessel_poles<F, 39> {
   static constexpr cmath::vector<cmath::complex<F>, 39> value{
@@ -1048,6 +1162,9 @@ struct bessel_poles<F, 39> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 39> bessel_poles<F, 39>::value;
+
 template <typename F>
 struct bessel_poles<F, 40> {
   static constexpr cmath::vector<cmath::complex<F>, 40> value{
@@ -1094,6 +1211,9 @@ struct bessel_poles<F, 40> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 40> bessel_poles<F, 40>::value;
+
 template <typename F>
 struct bessel_poles<F, 41> {
   static constexpr cmath::vector<cmath::complex<F>, 41> value{
@@ -1141,6 +1261,9 @@ struct bessel_poles<F, 41> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 41> bessel_poles<F, 41>::value;
+
 template <typename F>
 struct bessel_poles<F, 42> {
   static constexpr cmath::vector<cmath::complex<F>, 42> value{
@@ -1189,6 +1312,9 @@ struct bessel_poles<F, 42> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 42> bessel_poles<F, 42>::value;
+
 template <typename F>
 struct bessel_poles<F, 43> {
   static constexpr cmath::vector<cmath::complex<F>, 43> value{
@@ -1238,6 +1364,9 @@ struct bessel_poles<F, 43> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 43> bessel_poles<F, 43>::value;
+
 template <typename F>
 struct bessel_poles<F, 44> {
   static constexpr cmath::vector<cmath::complex<F>, 44> value{
@@ -1288,6 +1417,9 @@ struct bessel_poles<F, 44> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 44> bessel_poles<F, 44>::value;
+
 template <typename F>
 struct bessel_poles<F, 45> {
   static constexpr cmath::vector<cmath::complex<F>, 45> value{
@@ -1339,6 +1471,9 @@ struct bessel_poles<F, 45> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 45> bessel_poles<F, 45>::value;
+
 template <typename F>
 struct bessel_poles<F, 46> {
   static constexpr cmath::vector<cmath::complex<F>, 46> value{
@@ -1391,6 +1526,9 @@ struct bessel_poles<F, 46> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 46> bessel_poles<F, 46>::value;
+
 template <typename F>
 struct bessel_poles<F, 47> {
   static constexpr cmath::vector<cmath::complex<F>, 47> value{
@@ -1444,6 +1582,9 @@ struct bessel_poles<F, 47> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 47> bessel_poles<F, 47>::value;
+
 template <typename F>
 struct bessel_poles<F, 48> {
   static constexpr cmath::vector<cmath::complex<F>, 48> value{
@@ -1498,6 +1639,9 @@ struct bessel_poles<F, 48> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 48> bessel_poles<F, 48>::value;
+
 template <typename F>
 struct bessel_poles<F, 49> {
   static constexpr cmath::vector<cmath::complex<F>, 49> value{
@@ -1553,6 +1697,9 @@ struct bessel_poles<F, 49> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 49> bessel_poles<F, 49>::value;
+
 template <typename F>
 struct bessel_poles<F, 50> {
   static constexpr cmath::vector<cmath::complex<F>, 50> value{
@@ -1609,6 +1756,9 @@ struct bessel_poles<F, 50> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 50> bessel_poles<F, 50>::value;
+
 template <typename F>
 struct bessel_poles<F, 51> {
   static constexpr cmath::vector<cmath::complex<F>, 51> value{
@@ -1666,6 +1816,9 @@ struct bessel_poles<F, 51> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 51> bessel_poles<F, 51>::value;
+
 template <typename F>
 struct bessel_poles<F, 52> {
   static constexpr cmath::vector<cmath::complex<F>, 52> value{
@@ -1724,6 +1877,9 @@ struct bessel_poles<F, 52> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 52> bessel_poles<F, 52>::value;
+
 template <typename F>
 struct bessel_poles<F, 53> {
   static constexpr cmath::vector<cmath::complex<F>, 53> value{
@@ -1783,6 +1939,9 @@ struct bessel_poles<F, 53> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 53> bessel_poles<F, 53>::value;
+
 template <typename F>
 struct bessel_poles<F, 54> {
   static constexpr cmath::vector<cmath::complex<F>, 54> value{
@@ -1843,6 +2002,9 @@ struct bessel_poles<F, 54> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 54> bessel_poles<F, 54>::value;
+
 template <typename F>
 struct bessel_poles<F, 55> {
   static constexpr cmath::vector<cmath::complex<F>, 55> value{
@@ -1904,6 +2066,9 @@ struct bessel_poles<F, 55> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 55> bessel_poles<F, 55>::value;
+
 template <typename F>
 struct bessel_poles<F, 56> {
   static constexpr cmath::vector<cmath::complex<F>, 56> value{
@@ -1966,6 +2131,9 @@ struct bessel_poles<F, 56> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 56> bessel_poles<F, 56>::value;
+
 template <typename F>
 struct bessel_poles<F, 57> {
   static constexpr cmath::vector<cmath::complex<F>, 57> value{
@@ -2029,6 +2197,9 @@ struct bessel_poles<F, 57> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 57> bessel_poles<F, 57>::value;
+
 template <typename F>
 struct bessel_poles<F, 58> {
   static constexpr cmath::vector<cmath::complex<F>, 58> value{
@@ -2093,6 +2264,9 @@ struct bessel_poles<F, 58> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 58> bessel_poles<F, 58>::value;
+
 template <typename F>
 struct bessel_poles<F, 59> {
   static constexpr cmath::vector<cmath::complex<F>, 59> value{
@@ -2158,6 +2332,9 @@ struct bessel_poles<F, 59> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 59> bessel_poles<F, 59>::value;
+
 template <typename F>
 struct bessel_poles<F, 60> {
   static constexpr cmath::vector<cmath::complex<F>, 60> value{
@@ -2224,6 +2401,9 @@ struct bessel_poles<F, 60> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 60> bessel_poles<F, 60>::value;
+
 template <typename F>
 struct bessel_poles<F, 61> {
   static constexpr cmath::vector<cmath::complex<F>, 61> value{
@@ -2291,6 +2471,9 @@ struct bessel_poles<F, 61> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 61> bessel_poles<F, 61>::value;
+
 template <typename F>
 struct bessel_poles<F, 62> {
   static constexpr cmath::vector<cmath::complex<F>, 62> value{
@@ -2359,6 +2542,9 @@ struct bessel_poles<F, 62> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 62> bessel_poles<F, 62>::value;
+
 template <typename F>
 struct bessel_poles<F, 63> {
   static constexpr cmath::vector<cmath::complex<F>, 63> value{
@@ -2428,6 +2614,9 @@ struct bessel_poles<F, 63> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 63> bessel_poles<F, 63>::value;
+
 template <typename F>
 struct bessel_poles<F, 64> {
   static constexpr cmath::vector<cmath::complex<F>, 64> value{
@@ -2498,6 +2687,9 @@ struct bessel_poles<F, 64> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 64> bessel_poles<F, 64>::value;
+
 template <typename F>
 struct bessel_poles<F, 65> {
   static constexpr cmath::vector<cmath::complex<F>, 65> value{
@@ -2569,6 +2761,9 @@ struct bessel_poles<F, 65> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 65> bessel_poles<F, 65>::value;
+
 template <typename F>
 struct bessel_poles<F, 66> {
   static constexpr cmath::vector<cmath::complex<F>, 66> value{
@@ -2641,6 +2836,9 @@ struct bessel_poles<F, 66> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 66> bessel_poles<F, 66>::value;
+
 template <typename F>
 struct bessel_poles<F, 67> {
   static constexpr cmath::vector<cmath::complex<F>, 67> value{
@@ -2714,6 +2912,9 @@ struct bessel_poles<F, 67> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 67> bessel_poles<F, 67>::value;
+
 template <typename F>
 struct bessel_poles<F, 68> {
   static constexpr cmath::vector<cmath::complex<F>, 68> value{
@@ -2788,6 +2989,9 @@ struct bessel_poles<F, 68> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 68> bessel_poles<F, 68>::value;
+
 template <typename F>
 struct bessel_poles<F, 69> {
   static constexpr cmath::vector<cmath::complex<F>, 69> value{
@@ -2863,6 +3067,9 @@ struct bessel_poles<F, 69> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 69> bessel_poles<F, 69>::value;
+
 template <typename F>
 struct bessel_poles<F, 70> {
   static constexpr cmath::vector<cmath::complex<F>, 70> value{
@@ -2939,6 +3146,9 @@ struct bessel_poles<F, 70> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 70> bessel_poles<F, 70>::value;
+
 template <typename F>
 struct bessel_poles<F, 71> {
   static constexpr cmath::vector<cmath::complex<F>, 71> value{
@@ -3016,6 +3226,9 @@ struct bessel_poles<F, 71> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 71> bessel_poles<F, 71>::value;
+
 template <typename F>
 struct bessel_poles<F, 72> {
   static constexpr cmath::vector<cmath::complex<F>, 72> value{
@@ -3094,6 +3307,9 @@ struct bessel_poles<F, 72> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 72> bessel_poles<F, 72>::value;
+
 template <typename F>
 struct bessel_poles<F, 73> {
   static constexpr cmath::vector<cmath::complex<F>, 73> value{
@@ -3173,6 +3389,9 @@ struct bessel_poles<F, 73> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 73> bessel_poles<F, 73>::value;
+
 template <typename F>
 struct bessel_poles<F, 74> {
   static constexpr cmath::vector<cmath::complex<F>, 74> value{
@@ -3253,6 +3472,9 @@ struct bessel_poles<F, 74> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 74> bessel_poles<F, 74>::value;
+
 template <typename F>
 struct bessel_poles<F, 75> {
   static constexpr cmath::vector<cmath::complex<F>, 75> value{
@@ -3334,6 +3556,9 @@ struct bessel_poles<F, 75> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 75> bessel_poles<F, 75>::value;
+
 template <typename F>
 struct bessel_poles<F, 76> {
   static constexpr cmath::vector<cmath::complex<F>, 76> value{
@@ -3416,6 +3641,9 @@ struct bessel_poles<F, 76> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 76> bessel_poles<F, 76>::value;
+
 template <typename F>
 struct bessel_poles<F, 77> {
   static constexpr cmath::vector<cmath::complex<F>, 77> value{
@@ -3499,6 +3727,9 @@ struct bessel_poles<F, 77> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 77> bessel_poles<F, 77>::value;
+
 template <typename F>
 struct bessel_poles<F, 78> {
   static constexpr cmath::vector<cmath::complex<F>, 78> value{
@@ -3583,6 +3814,9 @@ struct bessel_poles<F, 78> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 78> bessel_poles<F, 78>::value;
+
 template <typename F>
 struct bessel_poles<F, 79> {
   static constexpr cmath::vector<cmath::complex<F>, 79> value{
@@ -3668,6 +3902,9 @@ struct bessel_poles<F, 79> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 79> bessel_poles<F, 79>::value;
+
 template <typename F>
 struct bessel_poles<F, 80> {
   static constexpr cmath::vector<cmath::complex<F>, 80> value{
@@ -3754,6 +3991,9 @@ struct bessel_poles<F, 80> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 80> bessel_poles<F, 80>::value;
+
 template <typename F>
 struct bessel_poles<F, 81> {
   static constexpr cmath::vector<cmath::complex<F>, 81> value{
@@ -3841,6 +4081,9 @@ struct bessel_poles<F, 81> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 81> bessel_poles<F, 81>::value;
+
 template <typename F>
 struct bessel_poles<F, 82> {
   static constexpr cmath::vector<cmath::complex<F>, 82> value{
@@ -3929,6 +4172,9 @@ struct bessel_poles<F, 82> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 82> bessel_poles<F, 82>::value;
+
 template <typename F>
 struct bessel_poles<F, 83> {
   static constexpr cmath::vector<cmath::complex<F>, 83> value{
@@ -4018,6 +4264,9 @@ struct bessel_poles<F, 83> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 83> bessel_poles<F, 83>::value;
+
 template <typename F>
 struct bessel_poles<F, 84> {
   static constexpr cmath::vector<cmath::complex<F>, 84> value{
@@ -4108,6 +4357,9 @@ struct bessel_poles<F, 84> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 84> bessel_poles<F, 84>::value;
+
 template <typename F>
 struct bessel_poles<F, 85> {
   static constexpr cmath::vector<cmath::complex<F>, 85> value{
@@ -4199,6 +4451,9 @@ struct bessel_poles<F, 85> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 85> bessel_poles<F, 85>::value;
+
 template <typename F>
 struct bessel_poles<F, 86> {
   static constexpr cmath::vector<cmath::complex<F>, 86> value{
@@ -4291,6 +4546,9 @@ struct bessel_poles<F, 86> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 86> bessel_poles<F, 86>::value;
+
 template <typename F>
 struct bessel_poles<F, 87> {
   static constexpr cmath::vector<cmath::complex<F>, 87> value{
@@ -4384,6 +4642,9 @@ struct bessel_poles<F, 87> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 87> bessel_poles<F, 87>::value;
+
 template <typename F>
 struct bessel_poles<F, 88> {
   static constexpr cmath::vector<cmath::complex<F>, 88> value{
@@ -4478,6 +4739,9 @@ struct bessel_poles<F, 88> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 88> bessel_poles<F, 88>::value;
+
 template <typename F>
 struct bessel_poles<F, 89> {
   static constexpr cmath::vector<cmath::complex<F>, 89> value{
@@ -4573,6 +4837,9 @@ struct bessel_poles<F, 89> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 89> bessel_poles<F, 89>::value;
+
 template <typename F>
 struct bessel_poles<F, 90> {
   static constexpr cmath::vector<cmath::complex<F>, 90> value{
@@ -4669,6 +4936,9 @@ struct bessel_poles<F, 90> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 90> bessel_poles<F, 90>::value;
+
 template <typename F>
 struct bessel_poles<F, 91> {
   static constexpr cmath::vector<cmath::complex<F>, 91> value{
@@ -4766,6 +5036,9 @@ struct bessel_poles<F, 91> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 91> bessel_poles<F, 91>::value;
+
 template <typename F>
 struct bessel_poles<F, 92> {
   static constexpr cmath::vector<cmath::complex<F>, 92> value{
@@ -4864,6 +5137,9 @@ struct bessel_poles<F, 92> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 92> bessel_poles<F, 92>::value;
+
 template <typename F>
 struct bessel_poles<F, 93> {
   static constexpr cmath::vector<cmath::complex<F>, 93> value{
@@ -4963,6 +5239,9 @@ struct bessel_poles<F, 93> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 93> bessel_poles<F, 93>::value;
+
 template <typename F>
 struct bessel_poles<F, 94> {
   static constexpr cmath::vector<cmath::complex<F>, 94> value{
@@ -5063,6 +5342,9 @@ struct bessel_poles<F, 94> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 94> bessel_poles<F, 94>::value;
+
 template <typename F>
 struct bessel_poles<F, 95> {
   static constexpr cmath::vector<cmath::complex<F>, 95> value{
@@ -5164,6 +5446,9 @@ struct bessel_poles<F, 95> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 95> bessel_poles<F, 95>::value;
+
 template <typename F>
 struct bessel_poles<F, 96> {
   static constexpr cmath::vector<cmath::complex<F>, 96> value{
@@ -5266,6 +5551,9 @@ struct bessel_poles<F, 96> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 96> bessel_poles<F, 96>::value;
+
 template <typename F>
 struct bessel_poles<F, 97> {
   static constexpr cmath::vector<cmath::complex<F>, 97> value{
@@ -5369,6 +5657,9 @@ struct bessel_poles<F, 97> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 97> bessel_poles<F, 97>::value;
+
 template <typename F>
 struct bessel_poles<F, 98> {
   static constexpr cmath::vector<cmath::complex<F>, 98> value{
@@ -5473,6 +5764,9 @@ struct bessel_poles<F, 98> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 98> bessel_poles<F, 98>::value;
+
 template <typename F>
 struct bessel_poles<F, 99> {
   static constexpr cmath::vector<cmath::complex<F>, 99> value{
@@ -5578,6 +5872,9 @@ struct bessel_poles<F, 99> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 99> bessel_poles<F, 99>::value;
+
 template <typename F>
 struct bessel_poles<F, 100> {
   static constexpr cmath::vector<cmath::complex<F>, 100> value{
@@ -5684,6 +5981,9 @@ struct bessel_poles<F, 100> {
   };
 };
 
+template <typename F>
+constexpr cmath::vector<cmath::complex<F>, 100> bessel_poles<F, 100>::value;
+
 } // namespace detail
 } // namespace signal
 } // namespace embedded
diff --git a/scripts/gen-bessel-poles.py b/scripts/gen-bessel-poles.py
index bff5143..d701447 100644
--- a/scripts/gen-bessel-poles.py
+++ b/scripts/gen-bessel-poles.py
@@ -89,6 +89,16 @@ with open(filename, "w") as fh:
 
         fh.write("  };\n};\n")
 
+        # not an inline variable before C++17
+        fh.write(
+            dedent(
+                f"""
+                template <typename F>
+                constexpr cmath::vector<cmath::complex<F>, {order}> bessel_poles<F, {order}>::value;
+                """
+            )
+        )
+
     fh.write(
         dedent(
             """
-- 
2.43.0


From 6422fb08c154b730cfa3fc469c81f7942d8ecce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 20/21] fix: circular_buffer_adapter: place elements that have
 an operator new of their own

---
 include/embedded/circular_buffer_adapter.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index 3bb00de..b75820e 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -158,14 +158,14 @@ class circular_buffer_adapter {
 
   void push_front(const value_type& value) {
     assert(!full());
-    new (prev(first_)) value_type(value);
+    ::new (prev(first_)) value_type(value);
     dec(first_);
     ++size_;
   }
 
   void push_front(value_type&& value) {
     assert(!full());
-    new (prev(first_)) value_type(std::move(value));
+    ::new (prev(first_)) value_type(std::move(value));
     dec(first_);
     ++size_;
   }
@@ -173,7 +173,7 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_front(Args&&... args) {
     assert(!full());
-    auto p = new (prev(first_)) value_type(std::forward<Args>(args)...);
+    auto p = ::new (prev(first_)) value_type(std::forward<Args>(args)...);
     dec(first_);
     ++size_;
     return *p;
@@ -195,14 +195,14 @@ class circular_buffer_adapter {
 
   void push_back(const value_type& value) {
     assert(!full());
-    new (last_) value_type(value);
+    ::new (last_) value_type(value);
     inc(last_);
     ++size_;
   }
 
   void push_back(value_type&& value) {
     assert(!full());
-    new (last_) value_type(std::move(value));
+    ::new (last_) value_type(std::move(value));
     inc(last_);
     ++size_;
   }
@@ -210,7 +210,7 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_back(Args&&... args) {
     assert(!full());
-    auto p = new (last_) value_type(std::forward<Args>(args)...);
+    auto p = ::new (last_) value_type(std::forward<Args>(args)...);
     inc(last_);
     ++size_;
     return *p;
-- 
2.43.0


From 142b38662db8f2ccc4150cf68b7e5a062b8fd207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:22 +0000
Subject: [PATCH 21/21] fix: move_wrapper: access payloads that have an
 address-of operator of their own

---
 include/embedded/move_wrapper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index 222a721..924cc47 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -44,8 +45,8 @@ class move_wrapper {
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
 
-  T const* operator->() const { return &val_; }
-  T* operator->() { return &val_; }
+  T const* operator->() const { return std::addressof(val_); }
+  T* operator->() { return std::addressof(val_); }
 
  private:
   T val_;
-- 
2.43.0

