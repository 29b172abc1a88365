From f2c4fcd63e5a973a61037d6a7b131b34ee03bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 01/31] fix: do not assign to storage without a live object
 when the contained type has a non-trivial destructor

---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..8b91579 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,8 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        // The assignment creates (and destroys) a temporary, and does not start the lifetime of the object
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From 82d2386b9c8a59217b558643ee65f103a5c31c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 02/31] fix: restore the empty state when the construction of
 the contained value throws in the option with traits

---
 include/opt/option.hpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 8b91579..dbd85b4 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -668,6 +668,34 @@ namespace impl {
     }
 #endif
 
+    // Puts the storage back into the empty state when the construction of the contained value throws
+    template<class Traits, class T>
+    struct construct_guard {
+        T* ptr;
+
+        OPTION_CONSTEXPR_CXX20 ~construct_guard() {
+            if (ptr != nullptr) {
+                Traits::set_level(ptr, 0);
+            }
+        }
+    };
+    template<class Traits, class T, class... Args>
+    constexpr void construct_with_traits(T* ptr, Args&&... args) {
+#if !OPTION_IS_CXX20
+        // The value is constructed outside of the storage. See 'impl::construct_at'
+        constexpr bool is_assigned = impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>;
+#else
+        constexpr bool is_assigned = false;
+#endif
+        if constexpr (is_assigned || std::is_nothrow_constructible_v<T, Args&&...>) {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        } else {
+            construct_guard<Traits, T> guard{ptr};
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+            guard.ptr = nullptr;
+        }
+    }
+
     template<class T, class Traits, class = std::uintmax_t>
     inline constexpr bool has_get_level_method = false;
     template<class T, class Traits>
@@ -2044,7 +2072,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_traits<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2102,7 +2130,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_traits<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From 7b0ca84b5774864b72d0a9adba31113839a70639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 03/31] fix: opt::sentinel_f with more than one value does not
 compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index dbd85b4..83aef78 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -4006,7 +4006,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -4016,7 +4016,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From 27c633b33f22fb17d7dc7d7088dcec004f9088e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 04/31] fix: opt::get by type from an rvalue option does not
 compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 83aef78..d84d849 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3504,9 +3504,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From 19d03cc91de8f2d227590e467f4c0a9619754c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 05/31] fix: assignment of an lvalue option<U&> to option<T&>
 does not compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d84d849..24835c1 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2963,7 +2963,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(other.get());
             } else {
                 reset();
             }
-- 
2.43.0


From 12d2fb1a84484f0b77d173ecd7c046857c12501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 06/31] fix: value_or on an rvalue option<const T> does not
 compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 24835c1..2ab40f4 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3206,7 +3206,7 @@ public:
     template<class U = std::remove_cv_t<T>>
     [[nodiscard]] constexpr std::remove_cv_t<T> value_or(U&& default_value) && {
         if (has_value()) {
-            return static_cast<std::remove_cv_t<T>&&>(get());
+            return static_cast<T&&>(get());
         } else {
             return static_cast<std::remove_cv_t<T>>(static_cast<U&&>(default_value));
         }
-- 
2.43.0


From 7f496c5ea575a28c6475aade89f5521c43033347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 07/31] fix: opt::swap never participates in overload
 resolution, because it requires swappable rvalues

---
 include/opt/option.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2ab40f4..2fe3b39 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2663,14 +2663,14 @@ namespace impl::option {
         and_v<
             std::is_move_constructible<T>,
             std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
@@ -3427,6 +3427,10 @@ template<class T>
     return result;
 }
 
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
 template<class T, class U>
 constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right) noexcept(impl::option::nothrow_swap<T, U>) {
     left.swap(right);
-- 
2.43.0


From 5fc82f84373c45cb9debe45063c56dbbe6c2fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 08/31] fix: swap of options with different contained types
 does not compile

---
 include/opt/option.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2fe3b39..dbb8dd8 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3281,20 +3281,21 @@ public:
     template<class U>
     constexpr void swap(option<U>& other) noexcept(impl::option::nothrow_swap<T, U>) {
         using std::swap;
+        auto& other_base = static_cast<typename option<U>::base&>(other);
         if (!has_value() && !other.has_value()) {
             return;
         }
         if (has_value() && other.has_value()) {
-            swap(base::value, other.base::value);
+            swap(base::value, other_base.value);
             return;
         }
         if (has_value()) {
-            other.base::construct(static_cast<T&&>(get()));
+            other_base.construct(static_cast<T&&>(get()));
             base::reset();
             return;
         }
         base::construct(static_cast<U&&>(other.get()));
-        other.base::reset();
+        other_base.reset();
     }
 };
 
-- 
2.43.0


From d8aef1641e8cb6bc60178a64bd5aea388fe02975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 09/31] fix: max_level of a narrow PADDING member exceeds the
 range of the member

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index dbb8dd8..cdfca2a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1529,7 +1529,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From 14eb802c546ab2ad8ef8fe86e008b392115be713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 10/31] fix: opt::flatten of a const lvalue option does not
 compile

---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index cdfca2a..7c7cc1b 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1903,10 +1903,18 @@ namespace impl {
         using type = T&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T, const U&> {
+        using type = const T&;
+    };
+    template<class T, class U>
     struct copy_lvalue_reference<T&&, U&> {
         using type = T&&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T&&, const U&> {
+        using type = T&&;
+    };
+    template<class T, class U>
     using copy_lvalue_reference_t = typename copy_lvalue_reference<T, U>::type;
 
     template<class T>
-- 
2.43.0


From dba3f3608b6560b2268a906c8fd1aefd06ed574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 11/31] fix: defining only OPTION_PFR_FILE leaves
 OPTION_PFR_NAMESPACE undefined

---
 include/opt/option.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7c7cc1b..48bd4b7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -142,8 +142,16 @@
     #ifdef OPTION_PFR_FILE
         #if __has_include(OPTION_PFR_FILE)
             #include OPTION_PFR_FILE
-            #if BOOST_PFR_ENABLED
-                #define OPTION_HAS_PFR
+            #if defined(BOOST_PFR_ENABLED)
+                #if BOOST_PFR_ENABLED
+                    #define OPTION_HAS_PFR
+                    #define OPTION_PFR_NAMESPACE ::boost::pfr::
+                #endif
+            #elif defined(PFR_ENABLED)
+                #if PFR_ENABLED
+                    #define OPTION_HAS_PFR
+                    #define OPTION_PFR_NAMESPACE ::pfr::
+                #endif
             #endif
         #endif
     #else
-- 
2.43.0


From d08ebc9ceccfdcc1bb98ad56808daaee657f64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:10 +0000
Subject: [PATCH 12/31] fix: option<T&> cannot be constructed from an option of
 another reference type

---
 include/opt/option.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 48bd4b7..2349ce7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2693,6 +2693,8 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
-- 
2.43.0


From 4c4c0f23dd3416da91de780b3cff92c12d62a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:41 +0000
Subject: [PATCH 13/31] fix: option of a const-qualified type with built-in
 traits does not compile

---
 include/opt/option.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2349ce7..4f81703 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1035,7 +1035,7 @@ namespace impl {
     template<class T>
     struct dispatch_specializations<opt::option<T>> {
         static constexpr option_strategy value
-            = opt::option_traits<T>::max_level >= 1
+            = opt::option_traits<std::remove_cv_t<T>>::max_level >= 1
                 ? option_strategy::avaliable_option
                 : option_strategy::unavaliable_option;
     };
@@ -1097,6 +1097,10 @@ namespace impl {
         using st = option_strategy;
         constexpr st dispatch_st = dispatch_specializations<T>::value;
 
+        if constexpr (std::is_const_v<T>) {
+            // the level of a const object cannot be changed
+            return st::none;
+        } else
         if constexpr (dispatch_st != st::other) {
             return dispatch_st;
         } else
@@ -3325,7 +3329,7 @@ namespace impl {
     template<class T>
     struct internal_option_traits<opt::option<T>, option_strategy::avaliable_option> {
         using base = typename opt::option<T>::base;
-        using traits = opt::option_traits<T>;
+        using traits = opt::option_traits<std::remove_cv_t<T>>;
 
         static constexpr std::uintmax_t max_level = traits::max_level - 1;
 
-- 
2.43.0


From a40223f760b707ee2fa83643e5ad4b2dfbfea89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:41 +0000
Subject: [PATCH 14/31] fix: traits of std::unique_ptr<T[]> do not compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 4f81703..9cfc671 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1448,7 +1448,7 @@ namespace impl {
         }
         static void set_level(std::unique_ptr<Elem, std::default_delete<Elem>>* const value, const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-            impl::construct_at(value, reinterpret_cast<Elem*>(sentinel_ptr + level));
+            impl::construct_at(value, reinterpret_cast<std::remove_extent_t<Elem>*>(sentinel_ptr + level));
         }
     };
 
-- 
2.43.0


From 5dbcde93cdef8e0e01671f9c225f77142d2acd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:41 +0000
Subject: [PATCH 15/31] fix: signed overflow when reading an enumeration with
 sentinel values

---
 include/opt/option.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 9cfc671..302f85b 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1590,7 +1590,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1608,7 +1608,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1622,11 +1622,11 @@ namespace impl {
         static constexpr underlying sentinel_range_start = static_cast<underlying>(T::SENTINEL_START);
         static constexpr underlying sentinel_range_end = static_cast<underlying>(T::SENTINEL_END);
     public:
-        static constexpr std::uintmax_t max_level = sentinel_range_end - sentinel_range_start + 1;
+        static constexpr std::uintmax_t max_level = std::uintmax_t(sentinel_range_end) - std::uintmax_t(sentinel_range_start) + 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From 0d2874c1956529f6ff37b5a01524c261b7937f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 16/31] fix: wrappers of types without a default constructor do
 not compile

---
 include/opt/option.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 302f85b..5e41628 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3953,13 +3953,12 @@ template<class T1, class T2>
 namespace impl {
     template<class T>
     struct type_wrapper {
-        T m{};
+        T m;
 
         template<class... Args, std::enable_if_t<impl::is_initializable_from_v<T, Args...>, int> = 0>
         constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
             : m{static_cast<Args&&>(args)...} {}
 
-        type_wrapper() = default;
         type_wrapper(const type_wrapper&) = default;
         type_wrapper(type_wrapper&&) = default;
         type_wrapper& operator=(const type_wrapper&) = default;
-- 
2.43.0


From ba92dc35ba4cb35bb81bde97721e24059e89c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:24 +0000
Subject: [PATCH 17/31] fix: wrappers reject conversions that the wrapped type
 accepts

---
 include/opt/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5e41628..cf9bac4 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3955,8 +3955,11 @@ namespace impl {
     struct type_wrapper {
         T m;
 
-        template<class... Args, std::enable_if_t<impl::is_initializable_from_v<T, Args...>, int> = 0>
+        template<class... Args, std::enable_if_t<std::is_constructible_v<T, Args...>, int> = 0>
         constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
+            : m(static_cast<Args&&>(args)...) {}
+        template<class... Args, std::enable_if_t<!std::is_constructible_v<T, Args...> && impl::is_initializable_from_v<T, Args...>, int> = 0>
+        constexpr explicit type_wrapper(Args&&... args) noexcept(noexcept(T{std::declval<Args>()...}))
             : m{static_cast<Args&&>(args)...} {}
 
         type_wrapper(const type_wrapper&) = default;
-- 
2.43.0


From d5b5f74823b83a9ef1dde76a68b28e24e9c7fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 18/31] fix: assigning to a wrapper constructs a temporary
 wrapper first

---
 include/opt/option.hpp | 51 +++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index cf9bac4..37e9fe7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3972,21 +3972,28 @@ namespace impl {
         constexpr type_wrapper(T&& x) noexcept(std::is_nothrow_move_constructible_v<T>)
             : m{static_cast<T&&>(x)} {}
 
-        template<class U = T>
-        constexpr type_wrapper& operator=(U&& x) {
-            m = static_cast<U&&>(x);
-            return *this;
-        }
-
         constexpr operator T&() & noexcept { return m; }
         constexpr operator const T&() const& noexcept { return m; }
         constexpr operator T&&() && noexcept { return static_cast<T&&>(m); }
         constexpr operator const T&&() const&& noexcept { return static_cast<const T&&>(m); }
     };
+    // the wrapper itself is assigned by its own copy and move assignment operators
+    template<class Wrapper, class T, class U>
+    using enable_type_wrapper_assign = std::enable_if_t<
+        !std::is_same_v<Wrapper, impl::remove_cvref<U>> && std::is_assignable_v<T&, U>
+    , int>;
 }
 
 template<class T, auto...>
-struct sentinel : impl::type_wrapper<T> { using impl::type_wrapper<T>::type_wrapper; };
+struct sentinel : impl::type_wrapper<T> {
+    using impl::type_wrapper<T>::type_wrapper;
+
+    template<class U, impl::enable_type_wrapper_assign<sentinel, T, U> = 0>
+    constexpr sentinel& operator=(U&& x) noexcept(std::is_nothrow_assignable_v<T&, U>) {
+        this->m = static_cast<U&&>(x);
+        return *this;
+    }
+};
 
 namespace impl {
     template<class T, std::uintmax_t I, auto Value, auto... Values>
@@ -4027,7 +4034,15 @@ public:
 };
 
 template<class T, class Compare, class Set, auto...>
-struct sentinel_f : impl::type_wrapper<T> { using impl::type_wrapper<T>::type_wrapper; };
+struct sentinel_f : impl::type_wrapper<T> {
+    using impl::type_wrapper<T>::type_wrapper;
+
+    template<class U, impl::enable_type_wrapper_assign<sentinel_f, T, U> = 0>
+    constexpr sentinel_f& operator=(U&& x) noexcept(std::is_nothrow_assignable_v<T&, U>) {
+        this->m = static_cast<U&&>(x);
+        return *this;
+    }
+};
 
 namespace impl {
     template<class T, class Compare, std::uintmax_t I, auto Value, auto... Values>
@@ -4068,7 +4083,15 @@ public:
 };
 
 template<class T, auto>
-struct member : impl::type_wrapper<T> { using impl::type_wrapper<T>::type_wrapper; };
+struct member : impl::type_wrapper<T> {
+    using impl::type_wrapper<T>::type_wrapper;
+
+    template<class U, impl::enable_type_wrapper_assign<member, T, U> = 0>
+    constexpr member& operator=(U&& x) noexcept(std::is_nothrow_assignable_v<T&, U>) {
+        this->m = static_cast<U&&>(x);
+        return *this;
+    }
+};
 
 template<class T, auto MemberPtr>
 struct option_traits<member<T, MemberPtr>> {
@@ -4088,7 +4111,15 @@ public:
 };
 
 template<class T>
-struct enforce : impl::type_wrapper<T> { using impl::type_wrapper<T>::type_wrapper; };
+struct enforce : impl::type_wrapper<T> {
+    using impl::type_wrapper<T>::type_wrapper;
+
+    template<class U, impl::enable_type_wrapper_assign<enforce, T, U> = 0>
+    constexpr enforce& operator=(U&& x) noexcept(std::is_nothrow_assignable_v<T&, U>) {
+        this->m = static_cast<U&&>(x);
+        return *this;
+    }
+};
 
 template<class T>
 struct option_traits<enforce<T>> {
-- 
2.43.0


From 2c8d548d224e78f295bf701fd834875603032f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 19/31] fix: option of a union does not compile when a
 reflection library is available

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 37e9fe7..ca90ec0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1171,7 +1171,7 @@ namespace impl {
             return st::tuple_like;
         } else
 #ifdef OPTION_HAS_PFR
-        if constexpr (pfr_is_option_reflectable<T>) {
+        if constexpr (pfr_is_option_reflectable<T> && !std::is_union_v<T>) {
             return st::reflectable;
         } else
 #endif
-- 
2.43.0


From 3b4927b1d2e897f79d63ad95ed1e3f87461d0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 20/31] fix: levels of an enumeration with underlying type bool
 are not representable

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index ca90ec0..8f5a744 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1161,7 +1161,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>) {
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From fa1277de0bb75b9e76475fe489170871a5db50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 21/31] fix: option of an enumeration without a fixed
 underlying type does not compile with clang

---
 include/opt/option.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 8f5a744..ea9fdd0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1092,6 +1092,18 @@ namespace impl {
         static constexpr option_strategy value = option_strategy::complex;
     };
 
+#if OPTION_CLANG && __clang_major__ >= 16
+    // these versions reject constant conversions outside of the range of enumeration values,
+    // and only the enumerations with a fixed underlying type can be list-initialized from an integer
+    template<class T, class = void>
+    inline constexpr bool can_probe_enumerators = false;
+    template<class T>
+    inline constexpr bool can_probe_enumerators<T, decltype(T{std::underlying_type_t<T>{}}, void())> = true;
+#else
+    template<class>
+    inline constexpr bool can_probe_enumerators = true;
+#endif
+
     template<class T>
     constexpr option_strategy detemine_option_strategy() {
         using st = option_strategy;
@@ -1161,7 +1173,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool> && can_probe_enumerators<T>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 348520d149caf7f1213763171b7aa24cc46d79af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 22/31] fix: emplacing into an option of a reference can bind a
 temporary object

---
 include/opt/option.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index ea9fdd0..839bfee 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2364,9 +2364,19 @@ namespace impl {
         constexpr option_base() noexcept
             : value{nullptr} {}
 
+        // A reference that requires a conversion is bound to a temporary object, which does not outlive the binding
+        template<class Arg>
+        static constexpr bool can_bind =
+            is_reference_wrapper_v<remove_cvref<Arg>>
+            || (std::is_convertible_v<std::remove_reference_t<Arg>*, unref_type*>
+                && std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<Arg>)
+            || (std::is_lvalue_reference_v<T> && std::is_convertible_v<Arg, std::remove_const_t<unref_type>&>);
+
         template<class Arg, bool IsAggregate>
         constexpr option_base(const std::in_place_t, std::bool_constant<IsAggregate>, Arg&& arg) noexcept
-            : value{ref_to_ptr(static_cast<Arg&&>(arg))} {}
+            : value{ref_to_ptr(static_cast<Arg&&>(arg))} {
+            static_assert(can_bind<Arg>, "The reference would be bound to a temporary object");
+        }
 
         template<class F, class Arg, bool IsAggregate>
         constexpr option_base(construct_from_invoke_tag, std::bool_constant<IsAggregate>, F&& f, Arg&& arg)
@@ -2385,6 +2395,7 @@ namespace impl {
 
         template<class Arg>
         constexpr void construct(Arg&& arg) noexcept {
+            static_assert(can_bind<Arg>, "The reference would be bound to a temporary object");
             value = ref_to_ptr(static_cast<Arg&&>(arg));
         }
     };
-- 
2.43.0


From be5be468c92403b4793f5434847c17148aea12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 23/31] fix: option of a reference takes any first argument for
 std::in_place

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 839bfee..87dc9f0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2835,7 +2835,7 @@ namespace impl {
         using from_args_ctor = std::enable_if<sizeof(First) == 0>;
 
         template<class T, class InPlaceT, class... Args>
-        using from_in_place_args_ctor = std::enable_if<sizeof...(Args) == 1>;
+        using from_in_place_args_ctor = std::enable_if<std::is_same_v<InPlaceT, std::in_place_t> && sizeof...(Args) == 1>;
 
         template<class T, class U, class QualU>
         using from_option_like_ctor = if_<
-- 
2.43.0


From 9f79c3740dae896fc8f232b1b2be17c27bd8c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 24/31] fix: option of an aggregate accepts other arguments in
 C++20 than in C++17, and rejects brace elision

---
 include/opt/option.hpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 87dc9f0..52047d6 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -654,20 +654,31 @@ namespace impl {
         return first.get().*obj;
     }
 
+    // An aggregate that is not constructible with parentheses (before C++20, or with brace elision)
+    template<class T, class... Args>
+    using requires_braces = std::bool_constant<std::is_aggregate_v<T> && !std::is_constructible_v<T, Args...>>;
+
 #if OPTION_IS_CXX20
-    using std::construct_at;
+    template<class T, class... Args>
+    constexpr void construct_at(T* ptr, Args&&... args) {
+        if constexpr (requires_braces<T, Args...>::value) {
+            ::new(static_cast<void*>(ptr)) T{static_cast<Args&&>(args)...};
+        } else {
+            std::construct_at(ptr, static_cast<Args&&>(args)...);
+        }
+    }
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
         // The assignment creates (and destroys) a temporary, and does not start the lifetime of the object
         if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (requires_braces<T, Args...>::value) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
                 *ptr = T(static_cast<Args&&>(args)...);
             }
         } else {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (requires_braces<T, Args...>::value) {
                 ::new(static_cast<void*>(ptr)) T{static_cast<Args&&>(args)...};
             } else {
                 ::new(static_cast<void*>(ptr)) T(static_cast<Args&&>(args)...);
@@ -1869,7 +1880,6 @@ namespace impl {
     template<class Tuple>
     using tuple_like_of_options_t = typename tuple_like_of_options<Tuple>::type;
 
-#if !OPTION_IS_CXX20
     template<bool IsAggregate, bool IsConstructible, class, class T, class... Args>
     struct is_initializable_from_impl
         : std::bool_constant<IsConstructible> {};
@@ -1885,10 +1895,6 @@ namespace impl {
     template<class T, class... Args>
     using is_initializable_from = is_initializable_from_impl<__is_aggregate(T), __is_constructible(T, Args...), void, T, Args...>;
     #endif
-#else // ^^^ !OPTION_IS_CXX20 / vvv OPTION_IS_CXX20
-    template<class T, class... Args>
-    using is_initializable_from = std::is_constructible<T, Args...>;
-#endif
     template<class T, class... Args>
     inline constexpr bool is_initializable_from_v = is_initializable_from<T, Args...>::value;
 
@@ -2916,29 +2922,29 @@ public:
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<true>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(U&& val)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<U&&>(val)) {}
+        : base(std::in_place, impl::requires_braces<T, U>{}, static_cast<U&&>(val)) {}
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<false>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr option(U&& val)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<U&&>(val)) {}
+        : base(std::in_place, impl::requires_braces<T, U>{}, static_cast<U&&>(val)) {}
 
     template<class First, class Second, class... Args,
         class = typename checks::template from_args_ctor<T, First, Second, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr option(First&& first, Second&& second, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<First&&>(first), static_cast<Second&&>(second), static_cast<Args&&>(args)...) {}
+        : base(std::in_place, impl::requires_braces<T, First, Second, Args...>{}, static_cast<First&&>(first), static_cast<Second&&>(second), static_cast<Args&&>(args)...) {}
 
     template<class InPlaceT, class... Args,
         class = typename checks::template from_in_place_args_ctor<T, InPlaceT, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(const InPlaceT, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<Args&&>(args)...) {}
+        : base(std::in_place, impl::requires_braces<T, Args...>{}, static_cast<Args&&>(args)...) {}
 
     template<class InPlaceT, class U, class... Args,
         class = typename checks::template from_in_place_args_ctor<T, InPlaceT, std::initializer_list<U>&, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(const InPlaceT, std::initializer_list<U> ilist, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, ilist, static_cast<Args&&>(args)...) {}
+        : base(std::in_place, impl::requires_braces<T, std::initializer_list<U>&, Args...>{}, ilist, static_cast<Args&&>(args)...) {}
 
     template<class F, class Arg>
     OPTION_RETURN_TYPESTATE(consumed)
-- 
2.43.0


From 255e7ae27cfa0cadc3ffbc2eb910a0ef84a71f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:13 +0000
Subject: [PATCH 25/31] fix: inspect of an rvalue option does not compile in
 C++23

Returning the parameter by name makes it an xvalue there (P2266), which the
returned lvalue reference does not bind to.
---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 52047d6..c2d3baf 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2696,7 +2696,7 @@ namespace impl::option {
         if (self.has_value()) {
             impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get());
         }
-        return self;
+        return static_cast<Self&>(self);
     }
 
     template<class Self, class F>
-- 
2.43.0


From de5215cb88ba5c77e4c2680e0c08ce6b65cf616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:32 +0000
Subject: [PATCH 26/31] fix: annotation checking does not diagnose access after
 reset

---
 include/opt/option.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c2d3baf..f6df8a8 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3073,6 +3073,7 @@ public:
         return const_iterator{has_value() ? (OPTION_ADDRESSOF(get()) + 1) : nullptr};
     }
 
+    OPTION_SET_TYPESTATE(unconsumed)
     constexpr void reset() noexcept {
         base::reset();
     }
-- 
2.43.0


From 3eab7b9981ac0e5b67dae1b17b1e5f9632279cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:05 +0000
Subject: [PATCH 27/31] fix: OPTION_USE_PFR alone does not find the installed
 library

---
 include/opt/option.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f6df8a8..0b0dae7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -119,6 +119,13 @@
 
 #ifdef OPTION_USE_PFR
     #if OPTION_USE_PFR
+        #ifndef OPTION_PFR_FILE
+            #if __has_include(<boost/pfr.hpp>)
+                #define OPTION_PFR_FILE <boost/pfr.hpp>
+            #else
+                #define OPTION_PFR_FILE <pfr.hpp>
+            #endif
+        #endif
         #if __has_include(OPTION_PFR_FILE)
             #include OPTION_PFR_FILE
             #if defined(BOOST_PFR_ENABLED)
-- 
2.43.0


From 9320236d2101d8e7ec00795364db8d8c4848572d Mon Sep 17 00:00:00 2001
From: verifier <v@localhost>
Date: Thu, 19 Nov 2026 08:00:13 +0000
Subject: [PATCH 28/31] fix: emplace and value_or_construct act as a C-style
 cast

---
 include/opt/option.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 0b0dae7..f01b9c6 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -677,6 +677,8 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
+        // Otherwise 'T(arg)' is a C-style cast
+        static_assert(!std::is_scalar_v<T> || std::is_constructible_v<T, Args...>, "T is not constructible from the arguments");
         // The assignment creates (and destroys) a temporary, and does not start the lifetime of the object
         if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (requires_braces<T, Args...>::value) {
@@ -2622,6 +2624,9 @@ namespace impl {
 namespace impl::option {
     template<class T, class Self, class... Args>
     constexpr T value_or_construct(Self&& self, Args&&... args) {
+        // Otherwise 'T(arg)' is a C-style cast
+        static_assert(!(std::is_scalar_v<T> || std::is_reference_v<T>) || std::is_constructible_v<T, Args...>,
+            "T is not constructible from the arguments");
         if (self.has_value()) {
             return static_cast<Self&&>(self).get();
         } else {
-- 
2.43.0


From 9175958b85e973bd3f0d2fc7a72668ab4ca27125 Mon Sep 17 00:00:00 2001
From: verifier <v@localhost>
Date: Thu, 19 Nov 2026 08:00:13 +0000
Subject: [PATCH 29/31] fix: option_cast acts as a C-style cast

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f01b9c6..94079bd 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3467,11 +3467,11 @@ template<class Fn, class... Options, std::enable_if_t<std::conjunction_v<opt::is
 
 template<class To, class From>
 [[nodiscard]] constexpr opt::option<To> option_cast(const opt::option<From>& value) {
-    return value.map([](const From& x) -> To { return To(x); });
+    return value.map([](const From& x) -> To { return static_cast<To>(x); });
 }
 template<class To, class From>
 [[nodiscard]] constexpr opt::option<To> option_cast(opt::option<From>&& value) {
-    return static_cast<opt::option<From>&&>(value).map([](From&& x) -> To { return To(static_cast<From&&>(x)); });
+    return static_cast<opt::option<From>&&>(value).map([](From&& x) -> To { return static_cast<To>(static_cast<From&&>(x)); });
 }
 
 template<class T>
-- 
2.43.0


From 318b06ab75bbc8cdc04aa5e01bb109739ab17664 Mon Sep 17 00:00:00 2001
From: verifier <v@localhost>
Date: Thu, 19 Nov 2026 08:00:13 +0000
Subject: [PATCH 30/31] fix: swap of options with different types is noexcept
 when the converting constructors throw

---
 docs/reference.md      | 4 ++--
 include/opt/option.hpp | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/reference.md b/docs/reference.md
index e24e1ce..2272b0a 100644
--- a/docs/reference.md
+++ b/docs/reference.md
@@ -1033,7 +1033,7 @@ other.reset();
 ```
 Where `{construct}` is a function that constructs contained object in place.
 
-- *`noexcept`* when `std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_constructible_v<U> && std::is_nothrow_swappable_with_v<T, U>`.
+- *`noexcept`* when `std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_constructible_v<U> && std::is_nothrow_constructible_v<T, U> && std::is_nothrow_constructible_v<U, T> && std::is_nothrow_swappable_with_v<T, U>`.
 - 
 ---
 
@@ -1278,7 +1278,7 @@ constexpr void swap(option<T>& left, option<U>& right) noexcept(/*see below*/);
 ```
 Exchanges the state of `left` with that of `right`. Calls `left.swap(right)`.
 - *Enabled* when `std::is_move_constructible_v<T>`, `std::is_move_constructible_v<U>` and `std::is_swappable_with_v<T, U>` are true.
-- *`noexcept`* when `std::is_nothrow_move_constructible_v<T>`, `std::is_nothrow_move_constructible_v<U>` and `std::is_nothrow_swappable_with_v<T, U>` are true.
+- *`noexcept`* when `std::is_nothrow_move_constructible_v<T>`, `std::is_nothrow_move_constructible_v<U>`, `std::is_nothrow_constructible_v<T, U>`, `std::is_nothrow_constructible_v<U, T>` and `std::is_nothrow_swappable_with_v<T, U>` are true.
 
 Description in the code equivalent:
 ```cpp
diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 94079bd..94ea9d0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2731,6 +2731,8 @@ namespace impl::option {
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
+        && std::is_nothrow_constructible_v<T, U>
+        && std::is_nothrow_constructible_v<U, T>
         && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
-- 
2.43.0


From 3a08e4c07cb417fbc949c9fb2e191673825eb89b Mon Sep 17 00:00:00 2001
From: verifier <v@localhost>
Date: Thu, 19 Nov 2026 08:00:13 +0000
Subject: [PATCH 31/31] fix: emplacing into an option of a reference terminates
 when the conversion throws

---
 include/opt/option.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 94ea9d0..6ea59e4 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2388,7 +2388,8 @@ namespace impl {
             || (std::is_lvalue_reference_v<T> && std::is_convertible_v<Arg, std::remove_const_t<unref_type>&>);
 
         template<class Arg, bool IsAggregate>
-        constexpr option_base(const std::in_place_t, std::bool_constant<IsAggregate>, Arg&& arg) noexcept
+        constexpr option_base(const std::in_place_t, std::bool_constant<IsAggregate>, Arg&& arg)
+            noexcept(noexcept(ref_to_ptr(static_cast<Arg&&>(arg))))
             : value{ref_to_ptr(static_cast<Arg&&>(arg))} {
             static_assert(can_bind<Arg>, "The reference would be bound to a temporary object");
         }
@@ -2409,7 +2410,7 @@ namespace impl {
         }
 
         template<class Arg>
-        constexpr void construct(Arg&& arg) noexcept {
+        constexpr void construct(Arg&& arg) noexcept(noexcept(ref_to_ptr(static_cast<Arg&&>(arg)))) {
             static_assert(can_bind<Arg>, "The reference would be bound to a temporary object");
             value = ref_to_ptr(static_cast<Arg&&>(arg));
         }
-- 
2.43.0

