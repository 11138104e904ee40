From 0cfe45e3e043772d80c890e75fb67fc65a6b1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 01/20] fix: compressed_tuple: expand the element types along
 with the values

static_cast<Ts...>(values)... is ill-formed unless there is exactly one
element, so the header (and everything on top of it) was rejected by GCC
and Clang.  Also forward the values, so that they are moved into the tuple
when they were moved into the constructor.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 0e1bb53..4437826 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -56,7 +56,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
     template<typename... Us>
     explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
       : compressed_tuple_base_t<Ts...>{
-            make_compressed_tuple_base<Ts...>(static_cast<Ts...>(values)...)
+            make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
 };
 
-- 
2.43.0


From 4656f58b2366ae0876ddeb76b77b0d7eeae2b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 02/20] fix: compressed_tuple: stateless elements were
 ambiguous

Both overloads of compressed_tuple_element() are equally good for a
stateless element.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 4437826..99148f0 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -23,7 +23,7 @@ auto compressed_tuple_element(T) {
 }
 
 template<size_t tag, typename T>
-auto compressed_tuple_element(T &&value) {
+auto compressed_tuple_element(T &&value) requires(!concepts::empty<T>) {
     return overload{
         [](auto &&self, idx_t<tag>) -> decltype(auto) {
             return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
-- 
2.43.0


From e9449d5c27af3d97936e7528d732a2064b96656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 03/20] fix: compressed_tuple: take the element index from the
 type

A reference of unknown origin is not usable in a constant expression.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 99148f0..2734c1f 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -39,7 +39,7 @@ auto make_compressed_tuple_base(Ts &&...values) {
     return enumerate_pack(
       [](const auto &...items) {
           return recursive{
-              overload{ compressed_tuple_element<items.index>(std::forward<decltype(items.value)>(items.value))... }
+              overload{ compressed_tuple_element<std::remove_cvref_t<decltype(items)>::index>(std::forward<decltype(items.value)>(items.value))... }
           };
       },
       std::forward<decltype(values)>(values)...);
-- 
2.43.0


From 11201056a6a34122562378dad209d79f1a2d910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 04/20] fix: recursive: do not use the incomplete class, do not
 slice

The base class conversion is not available yet in the return types, and
recursive{ f } copied only the base of an f that derives from another
recursive.
---
 src/pigro/recursive.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pigro/recursive.h b/src/pigro/recursive.h
index 2453b43..d66dc16 100644
--- a/src/pigro/recursive.h
+++ b/src/pigro/recursive.h
@@ -13,24 +13,27 @@ struct recursive : F {
     static_assert(!std::is_reference_v<F>);
 
     template<typename... Args>
-    constexpr auto operator()(Args &&...args) & -> decltype(std::invoke(static_cast<F &>(*this), *this, std::forward<Args>(args)...)) {
+    constexpr auto operator()(Args &&...args) & -> decltype(std::invoke(std::declval<F &>(), std::declval<recursive &>(), std::forward<Args>(args)...)) {
         return std::invoke(static_cast<F &>(*this), *this, std::forward<Args>(args)...);
     }
 
     template<typename... Args>
-    constexpr auto operator()(Args &&...args) && -> decltype(std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...)) {
+    constexpr auto operator()(Args &&...args) && -> decltype(std::invoke(std::declval<F &&>(), std::declval<recursive &&>(), std::forward<Args>(args)...)) {
         return std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...);
     }
 
     template<typename... Args>
-    constexpr auto operator()(Args &&...args) const & -> decltype(std::invoke(static_cast<const F &>(*this), *this, std::forward<Args>(args)...)) {
+    constexpr auto operator()(Args &&...args) const & -> decltype(std::invoke(std::declval<const F &>(), std::declval<const recursive &>(), std::forward<Args>(args)...)) {
         return std::invoke(static_cast<const F &>(*this), *this, std::forward<Args>(args)...);
     }
 
     template<typename... Args>
-    constexpr auto operator()(Args &&...args) const && -> decltype(std::invoke(static_cast<const F &&>(*this), std::move(*this), std::forward<Args>(args)...)) {
+    constexpr auto operator()(Args &&...args) const && -> decltype(std::invoke(std::declval<const F &&>(), std::declval<const recursive &&>(), std::forward<Args>(args)...)) {
         return std::invoke(static_cast<const F &&>(*this), std::move(*this), std::forward<Args>(args)...);
     }
 };
 
+template<typename F>
+recursive(F) -> recursive<F>;
+
 } // namespace pigro
-- 
2.43.0


From ad26c9b137765ae37386caa39d448314fe51edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 05/20] fix: bind_back: do not mix up captures and parameters

In the return type, the names may as well refer to the captures (P2036),
which are tuples.
---
 src/pigro/bind_tuple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 337c0d4..84f4ef0 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -11,9 +11,9 @@
 namespace pigro {
 
 auto bind_back(auto &&f, auto &&...back_args) {
-    return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
+    return [bound_f = FWD_CAPTURE(f), ... bound_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
            -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
-        return std::invoke(access(f), FWD(front_args)..., access(back_args)...);
+        return std::invoke(access(bound_f), FWD(front_args)..., access(bound_args)...);
     };
 }
 
-- 
2.43.0


From 2cfb530e38063d0018f49fbdf1d0178679c93f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 06/20] fix: bind_tuple: do not offer element lookups to the
 bound callable

Looking up the callable or its arguments instantiated the callable with
the lookup tag, which is an error for most generic callables.
---
 src/pigro/bind_tuple.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 84f4ef0..39c61d1 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -17,12 +17,22 @@ auto bind_back(auto &&f, auto &&...back_args) {
     };
 }
 
+// Bound callables keep the callable and its arguments in the same overload set
+// as the call operator itself: a lookup of either of these must not be offered
+// to the bound callable as if it were a call.
+template<typename... Args>
+constexpr auto is_element_tag = false;
+
+template<typename Arg>
+constexpr auto is_element_tag<Arg> = std::same_as<std::remove_cvref_t<Arg>, idx_t<0>>
+                                  || std::same_as<std::remove_cvref_t<Arg>, idx_t<1>>;
+
 auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
+          []<typename... Args, typename = std::enable_if_t<!is_element_tag<Args...>>>(auto &&self, Args &&...args)
             -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
@@ -38,7 +48,7 @@ auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
+          []<typename... Args, typename = std::enable_if_t<!is_element_tag<Args...>>>(auto &&self, Args &&...args)
             -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
-- 
2.43.0


From b55cd3988561a1124909a3b1f22e6ae96856b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 07/20] fix: bind_back_tuple: call the bound callable instead
 of a copy of it

The callable lost its state in between calls.
---
 src/pigro/bind_tuple.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 39c61d1..e51f551 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -17,6 +17,15 @@ auto bind_back(auto &&f, auto &&...back_args) {
     };
 }
 
+// Like std::bind_front(), but refers to the callable and the arguments instead
+// of copying them, such that the callable keeps its state in between calls.
+auto borrow_front(auto &&f, auto &&...front_args) {
+    return [&](auto &&...back_args)
+             -> decltype(std::invoke(f, FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(f, FWD(front_args)..., FWD(back_args)...);
+    };
+}
+
 // Bound callables keep the callable and its arguments in the same overload set
 // as the call operator itself: a lookup of either of these must not be offered
 // to the bound callable as if it were a call.
@@ -49,11 +58,11 @@ auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           []<typename... Args, typename = std::enable_if_t<!is_element_tag<Args...>>>(auto &&self, Args &&...args)
-            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
+            -> decltype(pigro::apply(borrow_front(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
-              return pigro::apply(std::bind_front(f, FWD(args)...), t);
+              return pigro::apply(borrow_front(f, FWD(args)...), t);
           },
         }
     };
-- 
2.43.0


From 615b7a48486a71380c424dc176d0d0b8ead36cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 08/20] fix: lazy: do not call copies of the lazy functions

The cached values were stored in a copy, which was thrown away after each
call, so every function was evaluated again on every call, and the result
referred to the cache in the copy.
---
 src/pigro/lazy.h         | 6 +++---
 src/pigro/regular_void.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 4fc51ce..c7c154b 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -35,7 +35,7 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
 constexpr auto unwrap_value(concepts::lazy_function auto f) {
     return recursive{
         overload{
-          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto f) { return f(nullptr); },
+          compressed_tuple{ f } << [](auto &, std::nullptr_t, auto &&f) { return f(nullptr); },
           [](auto &self) mutable {
               return self(nullptr).value;
           },
@@ -47,7 +47,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto f, auto... deps) mutable {
+    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -81,7 +81,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
-      compressed_tuple{ dep } << [](auto, auto dep) mutable { return dep(); },
+      compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
       lazy_value(0, std::true_type{}));
 }
 
diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 77504f9..699b007 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -13,7 +13,7 @@ struct regular_void {
 };
 
 constexpr auto regularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, void>) {
@@ -26,7 +26,7 @@ constexpr auto regularized_void(auto f) {
 }
 
 constexpr auto unregularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, regular_void>) {
-- 
2.43.0


From 01b3ceaf2b7f914cbcdf93ffba678134e942a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 09/20] fix: lazy: do not return a reference to a local from
 value dependencies

---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index c7c154b..ab38048 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -68,7 +68,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
 
 constexpr auto lazy_value(auto value, auto changed) {
     return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
-        return LazyResult{
+        return LazyResult<decltype(value)>{
             value,
             changed,
         };
-- 
2.43.0


From 323ecf8477a61198f52dc14af8970cf0313dcf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 10/20] fix: transform: a single projected tuple should remain
 a tuple

std::tuple{ t } copies t if it is a tuple (or a pair), such that the
function of lazy(f, dep) was called with the elements of dep() instead of
with dep() itself.
---
 src/pigro/tuple_algorithms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index 0cd2496..dec2be3 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -7,7 +7,7 @@ namespace pigro {
 
 constexpr auto transform(const auto &data, auto projection) {
     return std::apply([=](const auto &...args) {
-        return std::tuple{ projection(args)... };
+        return std::tuple<std::decay_t<decltype(projection(args))>...>{ projection(args)... };
     },
       data);
 }
-- 
2.43.0


From 485496bed90bc1af457d8beabede85e2b3562ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 11/20] fix: lazy: do not return an outdated value after an
 exception

---
 src/pigro/lazy.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index ab38048..3c3ed7d 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -9,6 +9,7 @@
 
 #include <concepts>
 #include <cstddef>
+#include <exception>
 #include <optional>
 #include <utility>
 
@@ -43,11 +44,28 @@ constexpr auto unwrap_value(concepts::lazy_function auto f) {
     };
 }
 
+// Dependencies report a change only once. If evaluating one of them, or the
+// function itself, throws, that report would get lost and the next call would
+// return an outdated value. Therefore, forget the cached value in that case.
+template<typename Cache>
+struct invalidate_on_exception {
+    Cache &cache;
+    int uncaught_exceptions = std::uncaught_exceptions();
+
+    ~invalidate_on_exception() {
+        if (std::uncaught_exceptions() > uncaught_exceptions) cache = Cache{};
+    }
+};
+
+template<typename Cache>
+invalidate_on_exception(Cache &) -> invalidate_on_exception<Cache>;
+
 constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
     return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
+        const auto guard = invalidate_on_exception{ cache };
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
-- 
2.43.0


From d8919bde1262c31a80dd631a0307bdcd9e69f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 12/20] fix: compressed_tuple: copying a non-const tuple of one
 element

The constructor that takes the elements was preferred over the copy
constructor.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 2734c1f..4f6a3b6 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -54,7 +54,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
       : compressed_tuple_base_t<Ts...>{ make_compressed_tuple_base<Ts...>(Ts{}...) } {}
 
     template<typename... Us>
-    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
+    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us) && !(std::same_as<std::remove_cvref_t<Us>, compressed_tuple> || ...))
       : compressed_tuple_base_t<Ts...>{
             make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
-- 
2.43.0


From af0be291eaabee9b94908c168e2bf266dc58fb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 13/20] fix: uncapture: qualify the concept

---
 src/pigro/uncapture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index 7220485..a5ed048 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -17,7 +17,7 @@ struct Uncaptured {
     auto &get_value() { return value; }
 };
 
-template<empty T, size_t tag>
+template<concepts::empty T, size_t tag>
 struct Uncaptured<T, tag> {
     Uncaptured(T) {}
 
-- 
2.43.0


From ee1ac09d4c1d4cdf6bd5eabead595fa5488610f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 14/20] fix: concepts: tuple_like should be false for other
 types, not an error

---
 src/pigro/concepts.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 59551d6..782c12c 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -32,7 +32,7 @@ concept has_tuple_element =
 template<class T>
 concept tuple_like = requires {
     typename std::tuple_size<std::remove_reference_t<T>>;
-    std::same_as<decltype(std::tuple_size_v<std::remove_reference_t<T>>), size_t>;
+    requires std::same_as<std::remove_cv_t<decltype(std::tuple_size<std::remove_reference_t<T>>::value)>, std::size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
     return (has_tuple_element<I, std::remove_reference_t<T>> && ...);
-- 
2.43.0


From a28e7dbff65a3146b106710806d95b54b0d1be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:11 +0000
Subject: [PATCH 15/20] fix: lazy, bind_tuple: name the types, such that they
 compile with debug information

The unnamed types are spelled out in full in debug information, at over 10 MB
per name for the simplest lazy function: GCC ran out of memory at 30 GB.
---
 src/pigro/bind_tuple.h | 20 ++++++++++++++++++--
 src/pigro/lazy.h       | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index e51f551..fbd6d73 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -36,7 +36,7 @@ template<typename Arg>
 constexpr auto is_element_tag<Arg> = std::same_as<std::remove_cvref_t<Arg>, idx_t<0>>
                                   || std::same_as<std::remove_cvref_t<Arg>, idx_t<1>>;
 
-auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
+auto make_bound_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
@@ -52,7 +52,7 @@ auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     };
 }
 
-auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
+auto make_bound_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
@@ -68,6 +68,22 @@ auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
     };
 }
 
+// These merely name the types above: the unnamed types are spelled out in full
+// in e.g. debug information, and grow exponentially when bindings are nested.
+template<typename F, typename T>
+struct bound_front_tuple : decltype(pigro::make_bound_front_tuple(std::declval<F>(), std::declval<T>())) {};
+
+template<typename F, typename T>
+struct bound_back_tuple : decltype(pigro::make_bound_back_tuple(std::declval<F>(), std::declval<T>())) {};
+
+auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
+    return bound_front_tuple<decltype(f), decltype(t)>{ pigro::make_bound_front_tuple(FWD(f), FWD(t)) };
+}
+
+auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
+    return bound_back_tuple<decltype(f), decltype(t)>{ pigro::make_bound_back_tuple(FWD(f), FWD(t)) };
+}
+
 auto operator>>(concepts::tuple_like auto &&args, auto &&f) {
     return bind_front_tuple(FWD(f), FWD(args));
 }
diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 3c3ed7d..16ee342 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -60,7 +60,7 @@ struct invalidate_on_exception {
 template<typename Cache>
 invalidate_on_exception(Cache &) -> invalidate_on_exception<Cache>;
 
-constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
+constexpr auto make_cached(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
@@ -84,6 +84,14 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
     };
 }
 
+// Merely names the type above, see bound_front_tuple
+template<typename F, typename... Deps>
+struct cached_function : decltype(detail::make_cached(std::declval<F>(), std::declval<Deps>()...)) {};
+
+constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
+    return cached_function<decltype(f), decltype(deps)...>{ detail::make_cached(f, deps...) };
+}
+
 constexpr auto lazy_value(auto value, auto changed) {
     return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
         return LazyResult<decltype(value)>{
@@ -111,7 +119,7 @@ constexpr auto ensure_lazy(auto dep) {
 
 namespace pigro {
 
-auto lazy(auto f, auto... deps) {
+auto make_lazy(auto f, auto... deps) {
     auto lazy_f = detail::lazy(
       regularized_void(f),
       detail::ensure_lazy(deps)...);
@@ -120,4 +128,12 @@ auto lazy(auto f, auto... deps) {
     return unregularized_void(unwrapped_lazy_f);
 }
 
+// Merely names the type above, see bound_front_tuple
+template<typename F, typename... Deps>
+struct lazy_function : decltype(pigro::make_lazy(std::declval<F>(), std::declval<Deps>()...)) {};
+
+auto lazy(auto f, auto... deps) {
+    return lazy_function<decltype(f), decltype(deps)...>{ pigro::make_lazy(f, deps...) };
+}
+
 } // namespace pigro
-- 
2.43.0


From 78d5f5e37eb135c8fafed8beb12514acf06fa699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:11 +0000
Subject: [PATCH 16/20] fix: lazy: function dependencies should not store a
 dummy value

As expected by the memory_footprint test.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 16ee342..2809f48 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -108,7 +108,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
       compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
-      lazy_value(0, std::true_type{}));
+      lazy_value(std::true_type{}, std::true_type{}));
 }
 
 constexpr auto ensure_lazy(auto dep) {
-- 
2.43.0


From 041aca1617c7c423999aaeea7b2b23d779034e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:49 +0000
Subject: [PATCH 17/20] fix: lazy: compare the result itself, also if it is an
 optional

---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 2809f48..133dccc 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -73,7 +73,7 @@ constexpr auto make_cached(auto f, concepts::lazy_function auto... deps) {
             const auto values = transform(args, value);
             const auto result = std::apply(f, values);
 
-            changed = cache != result;
+            changed = !cache || *cache != result;
             cache = std::move(result);
         }
 
-- 
2.43.0


From 46d0433a569f3b40f3a8dcdeda68bfffcaecc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:45 +0000
Subject: [PATCH 18/20] fix: bind_front_tuple: forward the arguments of the
 call as they are passed

---
 src/pigro/bind_tuple.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index fbd6d73..aadf769 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -26,6 +26,14 @@ auto borrow_front(auto &&f, auto &&...front_args) {
     };
 }
 
+// Likewise for bind_back()
+auto borrow_back(auto &&f, auto &&...back_args) {
+    return [&](auto &&...front_args)
+             -> decltype(std::invoke(f, FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(f, FWD(front_args)..., FWD(back_args)...);
+    };
+}
+
 // Bound callables keep the callable and its arguments in the same overload set
 // as the call operator itself: a lookup of either of these must not be offered
 // to the bound callable as if it were a call.
@@ -42,11 +50,11 @@ auto make_bound_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           []<typename... Args, typename = std::enable_if_t<!is_element_tag<Args...>>>(auto &&self, Args &&...args)
-            -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) {
+            -> decltype(pigro::apply(borrow_back(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
-              return pigro::apply(bind_back(f, FWD(args)...), t);
+              return pigro::apply(borrow_back(f, FWD(args)...), t);
           },
         }
     };
-- 
2.43.0


From 33d3379e4518a50d47a06d28a61658d507c66abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 19/20] fix: bind_back: the result type should be the one of
 the call that is made

---
 src/pigro/bind_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index aadf769..6b0e197 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -12,7 +12,7 @@ namespace pigro {
 
 auto bind_back(auto &&f, auto &&...back_args) {
     return [bound_f = FWD_CAPTURE(f), ... bound_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
-           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+           -> decltype(std::invoke(f, FWD(front_args)..., back_args...)) {
         return std::invoke(access(bound_f), FWD(front_args)..., access(bound_args)...);
     };
 }
-- 
2.43.0


From 89e29ebd87d502cc2ee3d24369941b66369d573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 20/20] fix: bind_tuple: do not mistake a call for an element
 lookup

Calling a bound function with an integral_constant of 0 or 1, alone,
returned the function or the bound arguments instead of calling it.
---
 src/pigro/bind_tuple.h       | 26 +++++++++++++++-----------
 src/pigro/compressed_tuple.h | 14 +++++++-------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 6b0e197..7751dc9 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -36,23 +36,27 @@ auto borrow_back(auto &&f, auto &&...back_args) {
 
 // Bound callables keep the callable and its arguments in the same overload set
 // as the call operator itself: a lookup of either of these must not be offered
-// to the bound callable as if it were a call.
+// to the bound callable as if it were a call. Nor may a call be mistaken for a
+// lookup, so these are types which are not passed as an argument otherwise.
+struct bound_callable_tag {};
+struct bound_arguments_tag {};
+
 template<typename... Args>
 constexpr auto is_element_tag = false;
 
 template<typename Arg>
-constexpr auto is_element_tag<Arg> = std::same_as<std::remove_cvref_t<Arg>, idx_t<0>>
-                                  || std::same_as<std::remove_cvref_t<Arg>, idx_t<1>>;
+constexpr auto is_element_tag<Arg> = std::same_as<std::remove_cvref_t<Arg>, bound_callable_tag>
+                                  || std::same_as<std::remove_cvref_t<Arg>, bound_arguments_tag>;
 
 auto make_bound_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
+          compressed_tuple_element<bound_callable_tag>(FWD(f)),
+          compressed_tuple_element<bound_arguments_tag>(FWD(t)),
           []<typename... Args, typename = std::enable_if_t<!is_element_tag<Args...>>>(auto &&self, Args &&...args)
             -> decltype(pigro::apply(borrow_back(f, FWD(args)...), t)) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
+              auto &&f = self(bound_callable_tag{});
+              auto &&t = self(bound_arguments_tag{});
 
               return pigro::apply(borrow_back(f, FWD(args)...), t);
           },
@@ -63,12 +67,12 @@ auto make_bound_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
 auto make_bound_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
+          compressed_tuple_element<bound_callable_tag>(FWD(f)),
+          compressed_tuple_element<bound_arguments_tag>(FWD(t)),
           []<typename... Args, typename = std::enable_if_t<!is_element_tag<Args...>>>(auto &&self, Args &&...args)
             -> decltype(pigro::apply(borrow_front(f, FWD(args)...), t)) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
+              auto &&f = self(bound_callable_tag{});
+              auto &&t = self(bound_arguments_tag{});
 
               return pigro::apply(borrow_front(f, FWD(args)...), t);
           },
diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 4f6a3b6..e27eea8 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -15,20 +15,20 @@
 
 namespace pigro {
 
-template<size_t tag, concepts::empty T>
+template<typename Tag, concepts::empty T>
 auto compressed_tuple_element(T) {
-    return [](auto &&, idx_t<tag>) {
+    return [](auto &&, Tag) {
         return empty_object<std::remove_cvref_t<T>>::get();
     };
 }
 
-template<size_t tag, typename T>
+template<typename Tag, typename T>
 auto compressed_tuple_element(T &&value) requires(!concepts::empty<T>) {
     return overload{
-        [](auto &&self, idx_t<tag>) -> decltype(auto) {
-            return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
+        [](auto &&self, Tag) -> decltype(auto) {
+            return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(Tag{}));
         },
-        [value = fwd_capture(std::forward<T>(value))](auto &&self, idx_t<tag>) mutable -> decltype(auto) {
+        [value = fwd_capture(std::forward<T>(value))](auto &&self, Tag) mutable -> decltype(auto) {
             return access(forward_like<decltype(self)>(value));
         },
     };
@@ -39,7 +39,7 @@ auto make_compressed_tuple_base(Ts &&...values) {
     return enumerate_pack(
       [](const auto &...items) {
           return recursive{
-              overload{ compressed_tuple_element<std::remove_cvref_t<decltype(items)>::index>(std::forward<decltype(items.value)>(items.value))... }
+              overload{ compressed_tuple_element<idx_t<std::remove_cvref_t<decltype(items)>::index>>(std::forward<decltype(items.value)>(items.value))... }
           };
       },
       std::forward<decltype(values)>(values)...);
-- 
2.43.0

