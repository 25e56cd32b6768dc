From 00cb8f491d6c72b4a15e8274de53e4925f1496e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 01/53] fix: variant2: only assign bytewise if construction and
 destruction are trivial too

---
 include/dice/template-library/variant2.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..c3e1e77 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -93,6 +93,18 @@ namespace dice::template_library {
             using type = ::dice::template_library::variant2<T, U>;
         };
 
+        // assigning a variant may have to destroy the old value and construct the new one (if the active alternative changes),
+        // therefore the assignment of the variant is only trivial if all of these operations are (same as for std::variant)
+        template<typename X>
+        inline constexpr bool trivially_copy_assignable = std::is_trivially_copy_assignable_v<X>
+                                                          && std::is_trivially_copy_constructible_v<X>
+                                                          && std::is_trivially_destructible_v<X>;
+
+        template<typename X>
+        inline constexpr bool trivially_move_assignable = std::is_trivially_move_assignable_v<X>
+                                                          && std::is_trivially_move_constructible_v<X>
+                                                          && std::is_trivially_destructible_v<X>;
+
         template<typename Self, typename F>
         constexpr decltype(auto) visit_impl(Self &&self, F &&visitor) {
             using discriminant_type = typename std::remove_cvref_t<Self>::discriminant_type;
@@ -327,14 +339,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (detail_variant2::trivially_copy_assignable<T> && detail_variant2::trivially_copy_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!detail_variant2::trivially_copy_assignable<T> || !detail_variant2::trivially_copy_assignable<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -418,14 +430,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (detail_variant2::trivially_move_assignable<T> && detail_variant2::trivially_move_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!detail_variant2::trivially_move_assignable<T> || !detail_variant2::trivially_move_assignable<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From d1380d370bd026161ed27ca5d65a196b109468ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 02/53] fix: variant2: hashing a valueless variant2 must not
 terminate

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index c3e1e77..620b015 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -41,6 +41,10 @@ namespace std {
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
         [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
+            if (var.valueless_by_exception()) {
+                return variant_npos;
+            }
+
             return visit([]<typename X>(X const &x) noexcept {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
-- 
2.43.0


From 74375d79e72ec44b830b2d8cc579070accb127d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 03/53] fix: variant2: allow swapping a variant2 with itself

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 620b015..56cad88 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -732,6 +732,10 @@ namespace dice::template_library {
         }
 
         friend constexpr void swap(variant2 &lhs, variant2 &rhs) noexcept(std::is_nothrow_move_assignable_v<variant2>) {
+            if (&lhs == &rhs) [[unlikely]] {
+                return;
+            }
+
             variant2 tmp = std::move(lhs);
             lhs = std::move(rhs);
             rhs = std::move(tmp);
-- 
2.43.0


From 50558d8ff3dbaf38ccec83be61662677bddda7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 04/53] fix: variant2: do not select initializer_list
 constructors when copying/moving an alternative

---
 include/dice/template-library/variant2.hpp | 48 +++++++++++-----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 56cad88..a7b9c15 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -227,11 +227,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{other.a_};
+                    new (&a_) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{other.b_};
+                    new (&b_) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -254,11 +254,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{std::move(other.a_)};
+                    new (&a_) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{std::move(other.b_)};
+                    new (&b_) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -274,22 +274,22 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{value};
+            new (&a_) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::move(value)};
+            new (&a_) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{value};
+            new (&b_) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::move(value)};
+            new (&b_) U(std::move(value));
         }
 
         template<typename ...Args>
@@ -365,7 +365,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U{other.b_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -383,7 +383,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T{other.a_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -404,11 +404,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{other.a_};
+                            new (&a_) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{other.b_};
+                            new (&b_) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -455,7 +455,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U{std::move(other.b_)};
+                                new (&b_) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -475,7 +475,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T{std::move(other.a_)};
+                                new (&a_) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -497,11 +497,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{std::move(other.a_)};
+                            new (&a_) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{std::move(other.b_)};
+                            new (&b_) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -538,13 +538,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T{value};
+                        new (&a_) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{value};
+                    new (&a_) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -569,13 +569,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T{std::move(value)};
+                        new (&a_) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{std::move(value)};
+                    new (&a_) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -595,7 +595,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U{value};
+                        new (&b_) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -605,7 +605,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{value};
+                    new (&b_) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -624,7 +624,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U{std::move(value)};
+                        new (&b_) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -634,7 +634,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{std::move(value)};
+                    new (&b_) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
-- 
2.43.0


From 77940a8ed961f74689fc71568842002f83aeb481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 05/53] fix: variant2: throwing move constructors must not
 terminate in converting constructor

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index a7b9c15..03318bc 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -277,7 +277,7 @@ namespace dice::template_library {
             new (&a_) T(value);
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T(std::move(value));
         }
@@ -287,7 +287,7 @@ namespace dice::template_library {
             new (&b_) U(value);
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U(std::move(value));
         }
-- 
2.43.0


From d8c930a333ce82e31477ad0ae6b654f59622b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 06/53] fix: inplace_polymorphic: drop() must leave trivially
 destructible types valueless too

---
 include/dice/template-library/inplace_polymorphic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..49a4062 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -77,7 +77,8 @@ namespace dice::template_library {
 
 		void drop() noexcept {
 			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
+				// no destructor to run
+				valueless_ = true;
 			} else {
 				if (!valueless_) {
 					(**this).~Base();
-- 
2.43.0


From 3f56d2dcfef400e6fd56b6a054e2927c78d46281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 07/53] fix: mutex, shared_mutex: return guards for the
 configured mutex type

---
 include/dice/template-library/mutex.hpp        |  8 ++++----
 include/dice/template-library/shared_mutex.hpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..6b3cc7b 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..414dab0 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From e6e05f306313f186645b04b69c74e9cfd4f44d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 08/53] fix: range: do not overflow near type limits, iterate
 backwards over the generated elements only

---
 include/dice/template-library/ranges.hpp | 76 ++++++++++++++----------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..9b76aa5 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -4,6 +4,7 @@
 #include <dice/template-library/next_to_range.hpp>
 
 #include <algorithm>
+#include <cstdint>
 #include <functional>
 #include <ranges>
 #include <set>
@@ -353,6 +354,32 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			static constexpr bool is_integral_range = std::integral<T> && std::integral<S>
+													  && sizeof(T) <= sizeof(uintmax_t) && sizeof(S) <= sizeof(uintmax_t);
+
+			/**
+			 * @return absolute distance between current_ and stop_
+			 * @note calculated in unsigned modulo arithmetic because the result does not necessarily fit into T
+			 */
+			[[nodiscard]] constexpr uintmax_t distance() const noexcept {
+				auto const diff = static_cast<uintmax_t>(stop_) - static_cast<uintmax_t>(current_);
+				return step_ > S{} ? diff : uintmax_t{0} - diff;
+			}
+
+			/**
+			 * @return absolute value of step_
+			 */
+			[[nodiscard]] constexpr uintmax_t step_size() const noexcept {
+				return step_ > S{} ? static_cast<uintmax_t>(step_) : uintmax_t{0} - static_cast<uintmax_t>(step_);
+			}
+
+			/**
+			 * @return current_ moved by off steps
+			 */
+			[[nodiscard]] constexpr T advanced(size_t off) const noexcept {
+				return static_cast<T>(static_cast<uintmax_t>(current_) + static_cast<uintmax_t>(off) * static_cast<uintmax_t>(step_));
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -379,29 +406,23 @@ namespace dice::template_library {
 					}
 				}
 
-				return std::exchange(current_, current_ + step_);
+				if constexpr (is_integral_range) {
+					// stepping behind the last element must not overflow T
+					return std::exchange(current_, distance() <= step_size() ? stop_ : advanced(1));
+				} else {
+					return std::exchange(current_, current_ + step_);
+				}
 			}
 
             [[nodiscard]] constexpr size_t remaining() const noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (current_ <= stop_) {
-					// forward
-					if (step_ < S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
-				} else {
-					// backward
-					if (step_ > S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
+				if (step_ > S{} ? current_ >= stop_ : current_ <= stop_) {
+					// exhausted or wrong direction
+					return 0;
 				}
+
+				return static_cast<size_t>(distance() / step_size() + (distance() % step_size() != 0));
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth(size_t off) noexcept
@@ -413,26 +434,14 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = advanced(off);
 				return next();
 			}
 
             [[nodiscard]] constexpr std::optional<T> next_back() noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				}
+				return nth_back(0);
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth_back(size_t off) noexcept
@@ -444,8 +453,9 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				// the last element is not necessarily stop_ - step_
+				stop_ = advanced(rem - off - 1);
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From d97fad1549aa81fe90dab5e6410f1ee034f3754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 09/53] fix: next_to_iter: copying from a non-const iterator
 must not advance the copy

---
 include/dice/template-library/next_to_range.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..a8afdc2 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,9 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>
+                              // must not hijack the copy constructor, that would slice the argument and advance the copy
+                              && !(sizeof...(Args) == 1 && (std::is_base_of_v<next_to_iter_impl, std::remove_cvref_t<Args>> && ...)))
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From f452599ff933f1558faa77c4743c22c719178def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 10/53] fix: next_to_view: crbegin() only needs next_back()

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index a8afdc2..2a966e7 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -473,7 +473,7 @@ namespace dice::template_library {
 			return next_back_to_reverse_iter<Iter>{iter_};
 		}
 
-		[[nodiscard]] constexpr auto crbegin() const requires (nth_back_iterator<Iter>) {
+		[[nodiscard]] constexpr auto crbegin() const requires (next_back_iterator<Iter>) {
 			return rbegin();
 		}
 
-- 
2.43.0


From 84288b57e5e63762648b39aec31d95c7fe59bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 11/53] fix: pointer_tag_pair: convert pointers to the pointee
 type before storing their address

---
 include/dice/template-library/pointer_tag_pair.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/pointer_tag_pair.hpp b/include/dice/template-library/pointer_tag_pair.hpp
index 5bc1ab5..3b92b42 100644
--- a/include/dice/template-library/pointer_tag_pair.hpp
+++ b/include/dice/template-library/pointer_tag_pair.hpp
@@ -67,18 +67,18 @@ namespace dice::template_library {
         template<detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>>())
         pointer_tag_pair(P const pointer, Tag const tag) noexcept
-            : pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)} {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            : pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)} {
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
         }
 
         template<unsigned PromisedAlignment, detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>, PromisedAlignment>())
         [[nodiscard]] static pointer_tag_pair from_overaligned(P const pointer, Tag const tag) noexcept {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
 
-            return pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)};
+            return pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)};
         }
 
         [[nodiscard]] static pointer_tag_pair from_tagged(tagged_pointer_type const pointer) noexcept {
-- 
2.43.0


From caaf066eae650fc683dd21a9f63cc15ca7361eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 12/53] fix: tuple_fold, tuple_type_fold: return the
 accumulator by value, not as dangling reference

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..79bcdaf 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::decay_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::decay_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 68890b20f13057bcd49ea74c87248a508c5fa9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 13/53] fix: lazy_switch, lazy_switch_default: do not
 instantiate providers of cases that are not selected

---
 include/dice/template-library/lazy_conditional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/lazy_conditional.hpp b/include/dice/template-library/lazy_conditional.hpp
index 6da706a..ff693ab 100644
--- a/include/dice/template-library/lazy_conditional.hpp
+++ b/include/dice/template-library/lazy_conditional.hpp
@@ -139,7 +139,7 @@ namespace dice::template_library {
 	};
 
 	// Recursive case: check first case, recurse if false
-	template<typename DefaultProvider, bool Cond, type_provider Provider, lazy_case... Rest>
+	template<typename DefaultProvider, bool Cond, typename Provider, lazy_case... Rest>
 	struct lazy_switch_default<DefaultProvider, case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
@@ -164,7 +164,7 @@ namespace dice::template_library {
 	struct lazy_switch;
 
 	// Recursive case: check first case, recurse if false
-	template<bool Cond, type_provider Provider, lazy_case... Rest>
+	template<bool Cond, typename Provider, lazy_case... Rest>
 	struct lazy_switch<case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
-- 
2.43.0


From b32f90aea7a2e0dff3a9f4fadbe21620f63e0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 14/53] fix: integral_template_variant: throwing copy
 constructors must not terminate

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From c7d970f1d2f3634823f981e1474ef38b0f39b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 15/53] fix: flex_array: throwing copies of elements must not
 terminate

---
 include/dice/template-library/flex_array.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index e7ebfcd..5f92d3f 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -277,12 +277,12 @@ namespace dice::template_library {
 		inner_type inner_;
 
 	public:
-		constexpr flex_array() noexcept = default;
-		constexpr flex_array(flex_array const &) noexcept = default;
-		constexpr flex_array(flex_array &&) noexcept = default;
-		constexpr flex_array &operator=(flex_array const &) noexcept = default;
-		constexpr flex_array &operator=(flex_array &&) noexcept = default;
-		constexpr ~flex_array() noexcept = default;
+		constexpr flex_array() = default;
+		constexpr flex_array(flex_array const &) = default;
+		constexpr flex_array(flex_array &&) = default;
+		constexpr flex_array &operator=(flex_array const &) = default;
+		constexpr flex_array &operator=(flex_array &&) = default;
+		constexpr ~flex_array() = default;
 
 		/**
 		 * Initializes the flex_array using an initializer_list
@@ -364,7 +364,7 @@ namespace dice::template_library {
 		 * Converts from a flex_array of static extent to a flex_array of dynamic extent
 		 */
 		template<size_t other_extent>
-		constexpr flex_array(flex_array<value_type, other_extent> const &other) noexcept requires (has_dynamic_extent && other_extent != dynamic_extent) {
+		constexpr flex_array(flex_array<value_type, other_extent> const &other) requires (has_dynamic_extent && other_extent != dynamic_extent) {
 			static_assert(other_extent <= max_extent, "extent of other is too large for this flex_array");
 
 			inner_.set_size(other.size());
-- 
2.43.0


From d76fd4162c3ee1f6cbc12ae7789972e232822dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 16/53] fix: static_string: copy all characters of wide strings

---
 include/dice/template-library/static_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..a359842 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -49,7 +49,7 @@ namespace dice::template_library {
 
             if (size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
+                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(Char));
             } else {
                 data_ = nullptr;
             }
@@ -69,7 +69,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(Char));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
-- 
2.43.0


From 2a904e6d0b07a196a73e4b923cf57615c4173ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 17/53] fix: static_string: failing or allocator-propagating
 copy assignment must not corrupt the string

---
 .../dice/template-library/static_string.hpp   | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index a359842..100a0a6 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -40,19 +40,22 @@ namespace dice::template_library {
             swap(a.size_, b.size_);
         }
 
-        void copy_assign_from_other(basic_static_string const &other) {
+        // allocates using new_alloc, but deallocates using alloc_ (i.e. where the old data was allocated)
+        void copy_assign_from_other(basic_static_string const &other, allocator_type &new_alloc) {
+            pointer new_data = nullptr;
+
+            if (other.size_ != 0) {
+                // needs to happen first, so that *this is left unchanged if it throws
+                new_data = std::allocator_traits<allocator_type>::allocate(new_alloc, other.size_);
+                std::memcpy(std::to_address(new_data), std::to_address(other.data_), other.size_ * sizeof(Char));
+            }
+
             if (size_ != 0) {
                 std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
             }
 
+            data_ = new_data;
             size_ = other.size_;
-
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(Char));
-            } else {
-                data_ = nullptr;
-            }
         }
 
     public:
@@ -81,10 +84,13 @@ namespace dice::template_library {
             }
 
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
-                alloc_ = other.alloc_;
+                allocator_type new_alloc{other.alloc_};
+                copy_assign_from_other(other, new_alloc);
+                alloc_ = std::move(new_alloc);
+            } else {
+                copy_assign_from_other(other, alloc_);
             }
 
-            copy_assign_from_other(other);
             return *this;
         }
 
@@ -110,7 +116,7 @@ namespace dice::template_library {
                 }
 
                 // alloc_ != other.alloc_ and not allowed to propagate, need to copy
-                copy_assign_from_other(other);
+                copy_assign_from_other(other, alloc_);
                 return *this;
             }
         }
-- 
2.43.0


From 7a1f642111ce63bac3a83610739f420879800066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 18/53] fix: limit_allocator: keep moved-from allocators usable

---
 .../dice/template-library/limit_allocator.hpp    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..228662a 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -109,9 +109,21 @@ namespace dice::template_library {
         }
 
 		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+
+		// note: moving must not change the value of an allocator, therefore other needs to keep its control block
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_},
+			  inner_{std::move(other.inner_)} {
+		}
+
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_;
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
+
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From 3b35cfd51780c3b15009c4c0c4c995dd65d9729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 19/53] fix: limit_allocator: allow conversion between
 unsynchronized limit_allocators

---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 228662a..268e46f 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -127,7 +127,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From b4d0d9d9c55aae8e80ce8c07473ec4c71737ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 20/53] fix: pool_allocator: keep moved-from allocators usable

---
 include/dice/template-library/pool_allocator.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..140d1a6 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -161,9 +161,19 @@ namespace dice::template_library {
 		}
 
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
+
+		// note: moving must not change the value of an allocator, therefore other needs to keep its pool
+		pool_allocator(pool_allocator &&other) noexcept
+			: pool_{other.pool_} {
+		}
+
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
+
+		pool_allocator &operator=(pool_allocator &&other) noexcept {
+			pool_ = other.pool_;
+			return *this;
+		}
+
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From 18541f8a3a50bfecc9409a5c89a7f223a9271bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 21/53] fix: pool_allocator: do not return too small regions if
 the requested size overflows

---
 include/dice/template-library/pool_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 140d1a6..66c0418 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <type_traits>
 #include <memory>
+#include <new>
 
 namespace dice::template_library {
 
@@ -186,6 +187,10 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > static_cast<size_t>(-1) / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From df0cf0539025d32c6fe3898314e81b0639418a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 22/53] fix: pool: return suitably aligned regions if the
 bucket size is not a multiple of the maximum alignment

---
 .../dice/template-library/pool_allocator.hpp    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 66c0418..75b03e6 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -43,6 +43,21 @@ namespace dice::template_library {
 
 		std::array<pool_type, sizeof...(bucket_sizes)> pools_;
 
+		/**
+		 * Elements are placed back to back into an arena, therefore the element size needs to be a multiple of the
+		 * strictest fundamental alignment, otherwise elements that need this alignment would be misaligned.
+		 */
+		static constexpr size_t aligned_bucket_size(size_t bucket_size) noexcept {
+			constexpr size_t alignment = alignof(std::max_align_t);
+
+			if (bucket_size < alignment) {
+				// too small for any element that needs this alignment
+				return bucket_size;
+			}
+
+			return (bucket_size + alignment - 1) / alignment * alignment;
+		}
+
 		template<size_t ix, size_t bucket_size, size_t ...rest>
 		void *allocate_impl(size_t n_bytes) {
 			if (n_bytes <= bucket_size) {
@@ -81,7 +96,7 @@ namespace dice::template_library {
 		}
 
 	public:
-		pool() : pools_{pool_type{bucket_sizes}...} {
+		pool() : pools_{pool_type{aligned_bucket_size(bucket_sizes)}...} {
 		}
 
 		// underlying implementation does not support copying/moving
-- 
2.43.0


From 68276be0f051771374614825340e6c4d98884950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 23/53] fix: standard_layout_tuple: single element tuples must
 be copyable from non-const lvalues

---
 include/dice/template-library/standard_layout_tuple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index e0a965e..637950d 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -74,7 +74,8 @@ namespace dice::template_library {
 		constexpr standard_layout_tuple() = default;
 
 		template<typename ...Args>
-		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts))
+		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts)
+																		&& !(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, standard_layout_tuple> && ...)))
 			: standard_layout_tuple{individual_construct, std::forward<Args>(args)...}
 		{
 		}
-- 
2.43.0


From 9ae62411e85b141f41840adc77ed43cfdb2bb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:01 +0000
Subject: [PATCH 24/53] fix: fmt_join: accept std::string and std::string_view
 separators

---
 include/dice/template-library/fmt_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..fa03ed5 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -68,7 +68,7 @@ namespace std {
 			while (it != end) {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 98e1e7632257e49a50bf066c74603e70eee20753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 25/53] fix: limit_allocator: do not account too few bytes if
 the requested size overflows

---
 include/dice/template-library/limit_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 268e46f..709846e 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -149,6 +149,11 @@ namespace dice::template_library {
 		}
 
 		constexpr pointer allocate(size_t n) {
+			if (n > static_cast<size_t>(-1) / sizeof(T)) [[unlikely]] {
+				// n * sizeof(T) would overflow
+				throw std::bad_array_new_length{};
+			}
+
 			control_block_->allocate(n * sizeof(T));
 
 			try {
-- 
2.43.0


From 025d15534c878bf745125fb7eb0bf54f3422bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 26/53] fix: limit_allocator: allow copying containers if the
 upstream allocator is not default constructible

---
 include/dice/template-library/limit_allocator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 709846e..d2bce01 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -96,7 +96,6 @@ namespace dice::template_library {
 		[[no_unique_address]] upstream_allocator_type inner_;
 
 		constexpr limit_allocator(std::shared_ptr<control_block_type> const &control_block, upstream_allocator_type const &alloc)
-                requires (std::is_default_constructible_v<upstream_allocator_type>)
             : control_block_{control_block},
               inner_{alloc} {
         }
-- 
2.43.0


From 379aeedcff578091b9d4bf91cf18f8120f096970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:40 +0000
Subject: [PATCH 27/53] fix: is_strict_invocable_r: consider the value category
 of the callable and its arguments

---
 include/dice/template-library/type_traits.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index f8ed65a..c7a849d 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -1,9 +1,11 @@
 #ifndef DICE_TEMPLATELIBRARY_ZST_HPP
 #define DICE_TEMPLATELIBRARY_ZST_HPP
 
+#include <concepts>
 #include <cstdint>
 #include <functional>
 #include <type_traits>
+#include <utility>
 
 namespace dice::template_library {
 	namespace detail_zst {
@@ -154,8 +156,8 @@ namespace dice::template_library {
 
 	template<typename R, typename F, typename ...Args>
 	struct is_strict_invocable_r {
-	    static constexpr bool value = requires (F func, Args ...args) {
-	    	{ std::invoke(func, args...) } -> std::same_as<R>;
+	    static constexpr bool value = requires {
+	    	{ std::invoke(std::declval<F>(), std::declval<Args>()...) } -> std::same_as<R>;
 	    };
 	};
 
-- 
2.43.0


From 437dbf3696c2586e4243fee58a9462b5a4c04d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:48 +0000
Subject: [PATCH 28/53] fix: DICE_MOVE_IF_VALUE: accept const rvalue references

---
 include/dice/template-library/type_traits.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index c7a849d..6a51575 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -209,14 +209,15 @@ namespace dice::template_library {
  * DICE_MOVE_IF_VALUE(crref) // does not move
  * @endcode
  */
-#define DICE_MOVE_IF_VALUE(expr)                                                                                                              \
-    [&]<bool _dice_detail_no_move = std::is_lvalue_reference_v<decltype(expr)> || std::is_const_v<std::remove_reference_t<decltype(expr)>>>() \
-            -> std::conditional_t<_dice_detail_no_move, decltype(expr), std::add_rvalue_reference_t<std::remove_cvref_t<decltype(expr)>>> {   \
-        if constexpr (_dice_detail_no_move) {                                                                                                 \
-            return expr;                                                                                                                      \
-        } else {                                                                                                                              \
-            return std::move(expr);                                                                                                           \
-        }                                                                                                                                     \
+#define DICE_MOVE_IF_VALUE(expr)                                                                                                                                     \
+    [&]<bool _dice_detail_no_move = std::is_lvalue_reference_v<decltype(expr)> || std::is_const_v<std::remove_reference_t<decltype(expr)>>,                          \
+        typename _dice_detail_result = std::conditional_t<_dice_detail_no_move, decltype(expr), std::add_rvalue_reference_t<std::remove_cvref_t<decltype(expr)>>>>() \
+            -> _dice_detail_result {                                                                                                                                 \
+        if constexpr (_dice_detail_no_move) {                                                                                                                        \
+            return static_cast<_dice_detail_result>(expr);                                                                                                           \
+        } else {                                                                                                                                                     \
+            return std::move(expr);                                                                                                                                  \
+        }                                                                                                                                                            \
     }()
 
 } // namespace dice::template_library
-- 
2.43.0


From 8e40acd6f4569014c9b5d0ae8849f3f6f2d4bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 29/53] fix: bind_front: compute noexcept from the call
 operator that is called

---
 include/dice/template-library/functional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/functional.hpp b/include/dice/template-library/functional.hpp
index 1d99339..07f0f40 100644
--- a/include/dice/template-library/functional.hpp
+++ b/include/dice/template-library/functional.hpp
@@ -36,7 +36,7 @@ namespace dice::template_library {
 		using func_t = decltype(func);
 
 		return [...bound_args(std::forward<BindArgs>(bind_args))]<typename Self, typename ...RestArgs>([[maybe_unused]] this Self &&self, RestArgs &&...rest_args)
-				noexcept(std::is_nothrow_invocable_v<func_t, detail_bind_front::type_forward_like_t<Self, std::decay_t<BindArgs>>..., decltype(std::forward<RestArgs>(rest_args))...>) -> decltype(auto) {
+				noexcept(std::is_nothrow_invocable_v<func_t const &, detail_bind_front::type_forward_like_t<Self, std::decay_t<BindArgs>>..., decltype(std::forward<RestArgs>(rest_args))...>) -> decltype(auto) {
 			return std::invoke(func, dice::template_library::forward_like<Self>(bound_args)..., std::forward<RestArgs>(rest_args)...);
 		};
 	}
-- 
2.43.0


From 7fea8bce8c2f010f05a517a7c8bbbdb46127e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 30/53] fix: fmt_join: write string literal separators through
 any output iterator

---
 include/dice/template-library/fmt_join.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index fa03ed5..305e05e 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -1,9 +1,12 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 #define DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 
+#include <algorithm>
 #include <format>
 #include <iterator>
 #include <ranges>
+#include <string_view>
+#include <type_traits>
 #include <vector>
 
 namespace dice::template_library {
@@ -69,6 +72,9 @@ namespace std {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
 					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
+				} else if constexpr (std::is_convertible_v<Sep const &, std::basic_string_view<CharT>>) {
+					// pointer to string, e.g. from a string literal
+					format_ctx.advance_to(std::ranges::copy(std::basic_string_view<CharT>{join_obj.separator}, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From d88513020869bc2aae526fd074cc96234a2a520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:05 +0000
Subject: [PATCH 31/53] fix: format_to_ostream: support wide streams

---
 include/dice/template-library/format_to_ostream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 01e6e98..8153bab 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,7 +47,11 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    if constexpr (std::is_same_v<Char, wchar_t>) {
+        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, L"{}", value);
+    } else {
+        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    }
     return stream;
 }
 
-- 
2.43.0


From 31118b6b802babd2823c328d8230779fd2935073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 32/53] fix: channel: iterating terminated if moving an element
 throws

---
 include/dice/template-library/channel.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..481fdf9 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -225,12 +225,12 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
         public:
-            explicit iterator(channel_type *chan) noexcept : chan_{chan} {
+            explicit iterator(channel_type *chan) noexcept(std::is_nothrow_move_constructible_v<value_type>) : chan_{chan} {
                 advance();
             }
 
@@ -277,12 +277,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 advance();
             }
 
@@ -297,7 +297,7 @@ namespace dice::template_library {
          * @return an iterator over all present and future elements of this channel
          * @note iterator == end() is true once the channel is closed
          */
-        [[nodiscard]] iterator begin() noexcept {
+        [[nodiscard]] iterator begin() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
             return iterator{this};
         }
 
-- 
2.43.0


From 015f99e7f389d73bcc44f44b7de98944c0a7cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:07 +0000
Subject: [PATCH 33/53] fix: channel: pop lost the element if moving it into
 the result throws

---
 include/dice/template-library/channel.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 481fdf9..ad1e1d2 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -180,12 +180,13 @@ namespace dice::template_library {
             std::unique_lock lock{queue_mutex_};
             queue_not_empty_.wait(lock, [this]() noexcept { return !queue_.empty() || closed_.test(std::memory_order_relaxed); });
 
+            std::optional<value_type> ret;
             if (queue_.empty()) [[unlikely]] {
                 // implies closed_ == true
-                return std::nullopt;
+                return ret;
             }
 
-            auto ret = std::move(queue_.front());
+            ret.emplace(std::move(queue_.front())); // element stays in the queue if this throws
             queue_.pop_front();
 
 			lock.unlock();
@@ -199,11 +200,12 @@ namespace dice::template_library {
          */
         [[nodiscard]] std::optional<value_type> try_pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
             std::unique_lock lock{queue_mutex_};
+            std::optional<value_type> ret;
             if (queue_.empty()) {
-                return std::nullopt;
+                return ret;
             }
 
-            auto ret = std::move(queue_.front());
+            ret.emplace(std::move(queue_.front())); // element stays in the queue if this throws
             queue_.pop_front();
 
             lock.unlock();
-- 
2.43.0


From 04274f534702c4834560c07c01d0b76848824db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:01 +0000
Subject: [PATCH 34/53] fix: channel: pass on the wake-up if constructing or
 moving an element throws

---
 include/dice/template-library/channel.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index ad1e1d2..5a89b93 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -97,7 +97,13 @@ namespace dice::template_library {
                     return false;
                 }
 
-                queue_.emplace_back(std::forward<Args>(args)...);
+                try {
+                    queue_.emplace_back(std::forward<Args>(args)...);
+                } catch (...) {
+                    // the free slot is still there, wake up another thread that waits for it
+                    queue_not_full_.notify_one();
+                    throw;
+                }
             }
 
             queue_not_empty_.notify_one();
@@ -186,7 +192,13 @@ namespace dice::template_library {
                 return ret;
             }
 
-            ret.emplace(std::move(queue_.front())); // element stays in the queue if this throws
+            try {
+                ret.emplace(std::move(queue_.front())); // element stays in the queue if this throws
+            } catch (...) {
+                // wake up another thread that waits for the element
+                queue_not_empty_.notify_one();
+                throw;
+            }
             queue_.pop_front();
 
 			lock.unlock();
-- 
2.43.0


From cfe6b7c47005a76f5cbab008e6b9960ca07a6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 35/53] fix: exchange_channel: pop lost the value (and a
 wake-up) if moving it into the result throws

---
 .../template-library/exchange_channel.hpp     | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..963f401 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -127,12 +127,22 @@ namespace dice::template_library {
                 return value_.has_value() || closed_.test(std::memory_order_relaxed);
             });
 
+            std::optional<value_type> ret;
             if (!value_.has_value()) [[unlikely]] {
                 // implies closed_ == true
-                return std::nullopt;
+                return ret;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            try {
+                ret.emplace(std::move(*value_)); // value_ stays if this throws
+            } catch (...) {
+                // wake up another thread that waits for the value
+                has_value_.notify_one();
+                throw;
+            }
+
+            value_.reset();
+            return ret;
         }
 
         /**
@@ -141,11 +151,14 @@ namespace dice::template_library {
          */
         [[nodiscard]] std::optional<value_type> try_pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
             std::unique_lock lock{value_mutex_};
+            std::optional<value_type> ret;
             if (!value_.has_value()) {
-                return std::nullopt;
+                return ret;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            ret.emplace(std::move(*value_)); // value_ stays if this throws
+            value_.reset();
+            return ret;
         }
 
         struct iterator {
-- 
2.43.0


From c873ed0fff0ebf71267b0fb2acb59d2673d00ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 36/53] fix: mutex_guard, shared_mutex_guard: swap took its
 arguments by const reference and did not compile

---
 include/dice/template-library/mutex.hpp        | 2 +-
 include/dice/template-library/shared_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 6b3cc7b..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 414dab0..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
-- 
2.43.0


From 1ec21671221f290d3ce258c47fb7ba299a5d5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:48 +0000
Subject: [PATCH 37/53] fix: channel, exchange_channel: iterator assignment and
 increment were noexcept although assigning an element may throw

---
 include/dice/template-library/channel.hpp          | 10 +++++-----
 include/dice/template-library/exchange_channel.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 5a89b93..820ea93 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -239,7 +239,7 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
@@ -253,7 +253,7 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type> && std::is_nothrow_copy_constructible_v<value_type>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -268,7 +268,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<std::optional<value_type>>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
@@ -291,12 +291,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
             }
 
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index 963f401..3393214 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -175,7 +175,7 @@ namespace dice::template_library {
             exchange_channel *chan_;
             mutable std::optional<value_type> buf_;  ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
@@ -190,7 +190,7 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type> && std::is_nothrow_copy_constructible_v<value_type>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -205,7 +205,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<std::optional<value_type>>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
@@ -230,12 +230,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
             }
 
-- 
2.43.0


From dd7f99bb582803952c3125e7a23fa091fceb72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:26 +0000
Subject: [PATCH 38/53] fix: all_equal compared with the wrong element if
 dereferencing yields a proxy into the iterator

---
 include/dice/template-library/ranges.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 9b76aa5..b7f0742 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -180,7 +180,8 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto const first_element = *first;
+            // a copy of the value: *first may be a proxy that refers into the iterator
+            std::iter_value_t<I> const first_element(*first);
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-- 
2.43.0


From 5242cbe74b5a386321735082ec30bb4f1f774abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:15 +0000
Subject: [PATCH 39/53] fix: all_equal did not compile for move-only input
 iterators

---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index b7f0742..61c405c 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -185,7 +185,7 @@ namespace dice::template_library {
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-            return std::ranges::subrange(first, last)
+            return std::ranges::subrange(std::move(first), std::move(last))
                    | dice::template_library::all_of([&](auto const &current_element) {
                          return std::invoke(pred, current_element, first_element);
                      });
-- 
2.43.0


From 8bc41fec215e28d9bf9ec454a24a51ae93a4c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:40 +0000
Subject: [PATCH 40/53] fix: is_sorted_unique gave wrong results for single
 pass iterators

---
 include/dice/template-library/ranges.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 61c405c..499dade 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -567,6 +567,25 @@ namespace dice::template_library {
             return true;
         }
 
+        // a single pass iterator cannot be read anymore after it was advanced
+        template<std::input_iterator I, std::sentinel_for<I> S, typename Cmp, typename Proj>
+        requires (std::indirect_strict_weak_order<Cmp, std::projected<I, Proj>> && !std::forward_iterator<I> && std::copyable<std::iter_value_t<I>>)
+        constexpr bool is_sorted_unique_impl(I first, S last, Cmp cmp, Proj proj) {
+            if (first == last) {
+                return true;
+            }
+
+            std::iter_value_t<I> prev(*first);
+            while (++first != last) {
+                std::iter_value_t<I> curr(*first);
+                if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, curr))) {
+                    return false;
+                }
+                prev = std::move(curr);
+            }
+            return true;
+        }
+
 		template<typename Cmp, typename Proj>
 		struct is_sorted_unique_pipeline {
         private:
-- 
2.43.0


From 1efcbadfce67ac0b2a0c58063da738d46dd4750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:30 +0000
Subject: [PATCH 41/53] fix: flex_array construction from move-only or
 void-incrementing input iterators and from random access iterators with a
 sentinel of another type

---
 include/dice/template-library/flex_array.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index 5f92d3f..af09daf 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -319,7 +319,7 @@ namespace dice::template_library {
 		template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
 		constexpr flex_array(Iter first, Sent last) {
 			if constexpr (has_max_extent && std::random_access_iterator<Iter>) {
-				auto const range_size = std::distance(first, last);
+				auto const range_size = std::ranges::distance(first, last);
 				if (static_cast<size_t>(range_size) > max_size()) [[unlikely]] {
 					throw std::length_error{"flex_array::flex_array: maximum size exceeded"};
 				}
@@ -334,10 +334,12 @@ namespace dice::template_library {
 						}
 					}
 
-					inner_.data_[ix++] = *first++;
+					inner_.data_[ix++] = *first;
 				} else {
-					inner_.data_.push_back(*first++);
+					inner_.data_.push_back(*first);
 				}
+
+				++first;
 			}
 
 			if constexpr (extent == dynamic_extent && max_extent != dynamic_extent) {
-- 
2.43.0


From 5ceb3331b47a3583647d5c5432887bd803ed6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:30 +0000
Subject: [PATCH 42/53] fix: tuple_fold and tuple_for_each could not be
 constant evaluated

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 79bcdaf..a7b3181 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -20,12 +20,12 @@ namespace dice::template_library {
 		};
 
 		template<size_t ix, typename Tuple> requires (adl_get<Tuple, ix> && !member_get<Tuple, ix>)
-		[[nodiscard]] decltype(auto) get_impl(Tuple &&tuple) noexcept {
+		[[nodiscard]] constexpr decltype(auto) get_impl(Tuple &&tuple) noexcept {
 			return get<ix>(std::forward<Tuple>(tuple));
 		}
 
 		template<size_t ix, typename Tuple> requires (member_get<Tuple, ix>)
-		[[nodiscard]] decltype(auto) get_impl(Tuple &&tuple) noexcept {
+		[[nodiscard]] constexpr decltype(auto) get_impl(Tuple &&tuple) noexcept {
 			return std::forward<Tuple>(tuple).template get<ix>();
 		}
 
-- 
2.43.0


From 042c3a6be236f50fa76d559324eaadc5f11f0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:30 +0000
Subject: [PATCH 43/53] fix: all_equal could not be constant evaluated

---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 499dade..7e96fce 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -175,7 +175,7 @@ namespace dice::template_library {
 	namespace ranges_algo_detail {
         template<std::input_iterator I, std::sentinel_for<I> S, typename Pred = std::ranges::equal_to>
         requires (std::copyable<std::iter_value_t<I>>)
-        bool all_equal_impl(I first, S last, Pred pred) {
+        constexpr bool all_equal_impl(I first, S last, Pred pred) {
             if (first == last) {
                 return true;
             }
-- 
2.43.0


From 3fa7c562a43bf8ede3cc21b3d824c571f51b79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 44/53] fix: constexpr operations of flex_array could not be
 constant evaluated: span conversions, comparison and construction of the
 dynamic sizes

---
 include/dice/template-library/flex_array.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index af09daf..755b25b 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -43,11 +43,11 @@ namespace dice::template_library {
 				return size_;
 			}
 
-			operator std::span<T, extent>() noexcept {
+			constexpr operator std::span<T, extent>() noexcept {
 				return data_;
 			}
 
-			operator std::span<T const, extent>() const noexcept {
+			constexpr operator std::span<T const, extent>() const noexcept {
 				return data_;
 			}
 
@@ -71,11 +71,11 @@ namespace dice::template_library {
 				size_ = size;
 			}
 
-			operator std::span<T>() noexcept {
+			constexpr operator std::span<T>() noexcept {
 				return {data_.data(), size_};
 			}
 
-			operator std::span<T const>() const noexcept {
+			constexpr operator std::span<T const>() const noexcept {
 				return {data_.data(), size_};
 			}
 
@@ -133,19 +133,19 @@ namespace dice::template_library {
 
 			std::vector<T> data_;
 
-			[[nodiscard]] size_t size() const noexcept {
+			[[nodiscard]] constexpr size_t size() const noexcept {
 				return data_.size();
 			}
 
-			operator std::span<T>() noexcept {
+			constexpr operator std::span<T>() noexcept {
 				return data_;
 			}
 
-			operator std::span<T const>() const noexcept {
+			constexpr operator std::span<T const>() const noexcept {
 				return data_;
 			}
 
-			void set_size(size_t size) {
+			constexpr void set_size(size_t size) {
 				data_.resize(size);
 			}
 
-- 
2.43.0


From b82bff44300a2f4aa273ee5ad60b1dd0d5239384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:24 +0000
Subject: [PATCH 45/53] fix: range | is_sorted_unique() could not be constant
 evaluated

---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 7e96fce..5e6e2bd 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -593,7 +593,7 @@ namespace dice::template_library {
         	[[no_unique_address]] Proj proj_;
 
         public:
-        	is_sorted_unique_pipeline(Cmp cmp, Proj proj)
+        	constexpr is_sorted_unique_pipeline(Cmp cmp, Proj proj)
 			: cmp_{std::move(cmp)}, proj_{std::move(proj)} {
         	}
 
-- 
2.43.0


From 2ce4b1d5634bbefee7efacf5bf3dc756d6c3b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:09 +0000
Subject: [PATCH 46/53] fix: iterating a channel or exchange_channel lost the
 element if moving it into the iterator throws

---
 include/dice/template-library/channel.hpp     | 20 +++++++++++++++----
 .../template-library/exchange_channel.hpp     | 20 +++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 820ea93..c410d2d 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -183,13 +183,24 @@ namespace dice::template_library {
          * @return std::nullopt if the channel was closed, an element otherwise
          */
         [[nodiscard]] std::optional<value_type> pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret;
+            pop_into(ret);
+            return ret;
+        }
+
+    private:
+        /**
+         * pop() directly into its destination: once the element has left the queue nothing can throw anymore
+         *
+         * @param ret empty optional that receives the element
+         */
+        void pop_into(std::optional<value_type> &ret) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
             std::unique_lock lock{queue_mutex_};
             queue_not_empty_.wait(lock, [this]() noexcept { return !queue_.empty() || closed_.test(std::memory_order_relaxed); });
 
-            std::optional<value_type> ret;
             if (queue_.empty()) [[unlikely]] {
                 // implies closed_ == true
-                return ret;
+                return;
             }
 
             try {
@@ -203,9 +214,9 @@ namespace dice::template_library {
 
 			lock.unlock();
             queue_not_full_.notify_one();
-            return ret;
         }
 
+    public:
         /**
          * Try to get a (previously pushed) element from the channel.
          * Unlike pop(), if there is no element available, returns std::nullopt immediatly.
@@ -240,7 +251,8 @@ namespace dice::template_library {
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
             void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
-                buf_ = chan_->pop();
+                buf_.reset();
+                chan_->pop_into(buf_);
             }
 
         public:
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index 3393214..62e5c25 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -122,15 +122,26 @@ namespace dice::template_library {
          * @return std::nullopt if the channel was closed, an element otherwise
          */
         [[nodiscard]] std::optional<value_type> pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret;
+            pop_into(ret);
+            return ret;
+        }
+
+    private:
+        /**
+         * pop() directly into its destination: once the element has left the channel nothing can throw anymore
+         *
+         * @param ret empty optional that receives the element
+         */
+        void pop_into(std::optional<value_type> &ret) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
             std::unique_lock lock{value_mutex_};
             has_value_.wait(lock, [this]() noexcept {
                 return value_.has_value() || closed_.test(std::memory_order_relaxed);
             });
 
-            std::optional<value_type> ret;
             if (!value_.has_value()) [[unlikely]] {
                 // implies closed_ == true
-                return ret;
+                return;
             }
 
             try {
@@ -142,9 +153,9 @@ namespace dice::template_library {
             }
 
             value_.reset();
-            return ret;
         }
 
+    public:
         /**
          * Try to get a (previously pushed) element from the channel.
          * Unlike pop(), if there is no element available, returns std::nullopt immediatly.
@@ -176,7 +187,8 @@ namespace dice::template_library {
             mutable std::optional<value_type> buf_;  ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
             void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
-                buf_ = chan_->pop();
+                buf_.reset();
+                chan_->pop_into(buf_);
             }
 
         public:
-- 
2.43.0


From 22fc7fb7b214ecb25495ff593511e14245c6c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:48 +0000
Subject: [PATCH 47/53] fix: variant2, inplace_polymorphic: types with their
 own operator new or operator& could not be stored

---
 .../template-library/inplace_polymorphic.hpp  |  6 +-
 include/dice/template-library/variant2.hpp    | 75 ++++++++++---------
 2 files changed, 41 insertions(+), 40 deletions(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index 49a4062..6ee12a9 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -126,7 +126,7 @@ namespace dice::template_library {
 		 */
 		inplace_polymorphic() noexcept(std::is_nothrow_default_constructible_v<first_derived_type>) requires (std::is_default_constructible_v<first_derived_type>) {
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY(std::is_nothrow_default_constructible_v<first_derived_type>, {
-				new (&storage_) first_derived_type{};
+				::new (static_cast<void *>(&storage_)) first_derived_type{};
 			});
 		}
 
@@ -141,7 +141,7 @@ namespace dice::template_library {
 			static_assert((std::is_same_v<T, Ts> || ...), "Given type is not in list of possible types");
 
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
-				new (&storage_) T{std::forward<Args>(args)...};
+				::new (static_cast<void *>(&storage_)) T{std::forward<Args>(args)...};
 			});
 		}
 
@@ -227,7 +227,7 @@ namespace dice::template_library {
 			drop();
 
 			DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY((std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>), {
-				new (&storage_) T{std::forward<Args>(args)...};
+				::new (static_cast<void *>(&storage_)) T{std::forward<Args>(args)...};
 			});
 		}
 
diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 03318bc..3103b8d 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -7,6 +7,7 @@
 #include <exception>
 #include <format>
 #include <functional>
+#include <memory>
 #include <type_traits>
 #include <utility>
 #include <variant>
@@ -163,13 +164,13 @@ namespace dice::template_library {
                     return nullptr;
                 }
 
-                return &std::forward<Self>(self).a_;
+                return std::addressof(self.a_);
             } else { // ix == 1
                 if (self.discriminant_ != discriminant_type::Second) [[unlikely]] {
                     return nullptr;
                 }
 
-                return &std::forward<Self>(self).b_;
+                return std::addressof(self.b_);
             }
         }
 
@@ -214,7 +215,7 @@ namespace dice::template_library {
     public:
         constexpr variant2() noexcept(std::is_nothrow_default_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{};
+            ::new (static_cast<void *>(std::addressof(a_))) T{};
         }
 
         constexpr variant2(variant2 const &other) noexcept
@@ -227,11 +228,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T(other.a_);
+                    ::new (static_cast<void *>(std::addressof(a_))) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U(other.b_);
+                    ::new (static_cast<void *>(std::addressof(b_))) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -254,11 +255,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T(std::move(other.a_));
+                    ::new (static_cast<void *>(std::addressof(a_))) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U(std::move(other.b_));
+                    ::new (static_cast<void *>(std::addressof(b_))) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -274,46 +275,46 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T(value);
+            ::new (static_cast<void *>(std::addressof(a_))) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T(std::move(value));
+            ::new (static_cast<void *>(std::addressof(a_))) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U(value);
+            ::new (static_cast<void *>(std::addressof(b_))) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U(std::move(value));
+            ::new (static_cast<void *>(std::addressof(b_))) U(std::move(value));
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<T>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<U>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<0>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<1>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
         }
 
         constexpr ~variant2() noexcept requires (std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
@@ -365,7 +366,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { ::new (static_cast<void *>(std::addressof(b_))) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -383,7 +384,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { ::new (static_cast<void *>(std::addressof(a_))) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -404,11 +405,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T(other.a_);
+                            ::new (static_cast<void *>(std::addressof(a_))) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U(other.b_);
+                            ::new (static_cast<void *>(std::addressof(b_))) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -455,7 +456,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U(std::move(other.b_));
+                                ::new (static_cast<void *>(std::addressof(b_))) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -475,7 +476,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T(std::move(other.a_));
+                                ::new (static_cast<void *>(std::addressof(a_))) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -497,11 +498,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T(std::move(other.a_));
+                            ::new (static_cast<void *>(std::addressof(a_))) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U(std::move(other.b_));
+                            ::new (static_cast<void *>(std::addressof(b_))) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -538,13 +539,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T(value);
+                        ::new (static_cast<void *>(std::addressof(a_))) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T(value);
+                    ::new (static_cast<void *>(std::addressof(a_))) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -569,13 +570,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T(std::move(value));
+                        ::new (static_cast<void *>(std::addressof(a_))) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T(std::move(value));
+                    ::new (static_cast<void *>(std::addressof(a_))) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -595,7 +596,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U(value);
+                        ::new (static_cast<void *>(std::addressof(b_))) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -605,7 +606,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U(value);
+                    ::new (static_cast<void *>(std::addressof(b_))) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -624,7 +625,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U(std::move(value));
+                        ::new (static_cast<void *>(std::addressof(b_))) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -634,7 +635,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U(std::move(value));
+                    ::new (static_cast<void *>(std::addressof(b_))) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -669,17 +670,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::First;
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&a_) T{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(a_))) T{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::First;
                             break;
                         }
@@ -694,17 +695,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&b_) U{std::forward<Args>(args)...};
+                            ::new (static_cast<void *>(std::addressof(b_))) U{std::forward<Args>(args)...};
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
-- 
2.43.0


From e7369ea2f2c170ee4eb39fa9b51ef6cdd8be591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:13 +0000
Subject: [PATCH 48/53] fix: is_zst recognizes over-aligned empty types

---
 include/dice/template-library/type_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index 6a51575..e3d4fe9 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -15,7 +15,8 @@ namespace dice::template_library {
 			[[no_unique_address]] T value;
 
 			static constexpr bool check() noexcept {
-				return sizeof(zst_checker) == sizeof(uint64_t);
+				// over-aligned types raise the alignment and therefore the size of the checker without needing space themselves
+				return sizeof(zst_checker) == (alignof(zst_checker) > sizeof(uint64_t) ? alignof(zst_checker) : sizeof(uint64_t));
 			}
 		};
 	} // namespace detail_zst
-- 
2.43.0


From 0023fa2d607d121f394b30d9267be665acaffb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:13 +0000
Subject: [PATCH 49/53] fix: pool_allocator respects extended alignment of its
 value_type

---
 include/dice/template-library/pool_allocator.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 75b03e6..706388f 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -134,6 +134,7 @@ namespace dice::template_library {
 	/**
 	 * `std`-style allocator that allocates into an underlying pool.
 	 * The bucket size used for allocation is `sizeof(T) * n_elems`.
+	 * Types with extended alignment are never placed in a bucket, they are directly allocated via `operator new`.
 	 *
 	 * @tparam T type to be allocated
 	 * @tparam bucket_sizes same as for `pool<bucket_sizes...>`
@@ -162,6 +163,9 @@ namespace dice::template_library {
 		template<typename, size_t ...>
 		friend struct pool_allocator;
 
+		// regions of a pool are only suitably aligned for types without extended alignment
+		static constexpr bool over_aligned = alignof(T) > alignof(std::max_align_t);
+
     	std::shared_ptr<pool<bucket_sizes...>> pool_;
 
 	public:
@@ -206,11 +210,19 @@ namespace dice::template_library {
 				throw std::bad_array_new_length{};
 			}
 
-			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
+			if constexpr (over_aligned) {
+				return static_cast<pointer>(::operator new(sizeof(T) * n, std::align_val_t{alignof(T)}));
+			} else {
+				return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
+			}
 		}
 
 		void deallocate(pointer ptr, size_t n) {
-			pool_->deallocate(ptr, sizeof(T) * n);
+			if constexpr (over_aligned) {
+				::operator delete(ptr, std::align_val_t{alignof(T)});
+			} else {
+				pool_->deallocate(ptr, sizeof(T) * n);
+			}
 		}
 
 		pool_allocator select_on_container_copy_construction() const {
-- 
2.43.0


From 6b0be5cfbd68f25002524ef7c0aa7ff98ddfb9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:13 +0000
Subject: [PATCH 50/53] fix: next_to_range iterators over copyable producers of
 move-only values can be post-incremented

---
 include/dice/template-library/next_to_range.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 2a966e7..caba342 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -79,6 +79,9 @@ namespace dice::template_library {
 		private:
 			static constexpr bool efficient_skip = dir == direction::forward ? nth_iterator<Iter> : nth_back_iterator<Iter>;
 
+			// the current element is part of *this
+			static constexpr bool copyable = std::is_copy_constructible_v<Iter> && std::is_copy_constructible_v<value_type>;
+
 			mutable std::optional<value_type> cur_;
 			std::optional<value_type> peeked_;
 
@@ -153,8 +156,8 @@ namespace dice::template_library {
 				return *this;
 			}
 
-			constexpr std::conditional_t<std::is_copy_constructible_v<base_iterator>, next_to_iter_impl, void> operator++(int) {
-				if constexpr (std::is_copy_constructible_v<base_iterator>) {
+			constexpr std::conditional_t<copyable, next_to_iter_impl, void> operator++(int) {
+				if constexpr (copyable) {
 					auto cpy = *this;
 					advance();
 					return cpy;
@@ -168,7 +171,7 @@ namespace dice::template_library {
 				return *this;
 			}
 
-			constexpr next_to_iter_impl operator+(size_t off) const requires (efficient_skip && std::is_copy_constructible_v<base_iterator>) {
+			constexpr next_to_iter_impl operator+(size_t off) const requires (efficient_skip && copyable) {
 				auto cpy = *this;
 				cpy += off;
 				return cpy;
-- 
2.43.0


From ceaa998e389e08e2c9e7c14423858e4a89c159db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:50 +0000
Subject: [PATCH 51/53] fix: ipow did not compile for character types as base

---
 include/dice/template-library/ipow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/ipow.hpp b/include/dice/template-library/ipow.hpp
index bd910d4..be3700d 100644
--- a/include/dice/template-library/ipow.hpp
+++ b/include/dice/template-library/ipow.hpp
@@ -3,6 +3,7 @@
 
 #include <concepts>
 #include <stdexcept>
+#include <type_traits>
 #include <utility>
 
 namespace dice::template_library {
@@ -37,7 +38,7 @@ namespace dice::template_library {
         auto safe_mul = [base, exp](ReturnType a, ReturnType b) -> ReturnType {
             ReturnType out{};
             if (__builtin_mul_overflow(a, b, &out)) {
-                if (std::cmp_less(base, 0) && (exp % 2 != 0)) {
+                if (std::is_signed_v<ReturnType> && base < 0 && exp % 2 != 0) {
                     throw std::underflow_error("Integer underflow detected.");
                 }
                 throw std::overflow_error("Integer overflow detected.");
-- 
2.43.0


From 19c9f18d33684f19d78a68ab0441ebc130e42b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:50 +0000
Subject: [PATCH 52/53] fix: channels, mutexes and next_to_range iterators did
 not work for types with their own operator&

---
 include/dice/template-library/channel.hpp          | 5 +++--
 include/dice/template-library/exchange_channel.hpp | 5 +++--
 include/dice/template-library/mutex.hpp            | 3 ++-
 include/dice/template-library/next_to_range.hpp    | 3 ++-
 include/dice/template-library/shared_mutex.hpp     | 3 ++-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index c410d2d..6a878ef 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -6,6 +6,7 @@
 #include <condition_variable>
 #include <cstddef>
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <optional>
 
@@ -296,11 +297,11 @@ namespace dice::template_library {
             }
 
             pointer operator->() noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             pointer operator->() const noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index 62e5c25..a7eb723 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -6,6 +6,7 @@
 #include <condition_variable>
 #include <cstddef>
 #include <iterator>
+#include <memory>
 #include <mutex>
 #include <optional>
 #include <type_traits>
@@ -235,11 +236,11 @@ namespace dice::template_library {
 
             /// intentionally returns a pointer instead of a const_pointer to be able to extract it
             pointer operator->() noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             pointer operator->() const noexcept {
-                return &*buf_;
+                return std::addressof(*buf_);
             }
 
             iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 22c7498..fdd9f60 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -1,6 +1,7 @@
 #ifndef DICE_TEMPLATELIBRARY_MUTEX_HPP
 #define DICE_TEMPLATELIBRARY_MUTEX_HPP
 
+#include <memory>
 #include <mutex>
 #include <optional>
 #include <type_traits>
@@ -34,7 +35,7 @@ namespace dice::template_library {
         std::unique_lock<mutex_type> lock_;
 
         mutex_guard(std::unique_lock<mutex_type> &&lock, T &value) noexcept
-            : value_ptr_{&value},
+            : value_ptr_{std::addressof(value)},
               lock_{std::move(lock)} {
         }
 
diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index caba342..2d2b932 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <functional>
 #include <iterator>
+#include <memory>
 #include <optional>
 #include <ranges>
 #include <type_traits>
@@ -148,7 +149,7 @@ namespace dice::template_library {
 
 			[[nodiscard]] constexpr pointer operator->() const noexcept {
 				assert(cur_.has_value());
-				return &*cur_;
+				return std::addressof(*cur_);
 			}
 
 			constexpr next_to_iter_impl &operator++() {
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 1be577f..7009c0d 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -1,6 +1,7 @@
 #ifndef DICE_TEMPLATELIBRARY_SHAREDMUTEX_HPP
 #define DICE_TEMPLATELIBRARY_SHAREDMUTEX_HPP
 
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <optional>
@@ -36,7 +37,7 @@ namespace dice::template_library {
         lock_type lock_;
 
         shared_mutex_guard(lock_type &&lock, T &value) noexcept
-            : value_ptr_{&value},
+            : value_ptr_{std::addressof(value)},
               lock_{std::move(lock)} {
         }
 
-- 
2.43.0


From 788b92ad33369bab8ec99cb8da2586b7c39176de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:04:14 +0000
Subject: [PATCH 53/53] fix: integral_template_variant did not compile with gcc
 for types without operator==

---
 include/dice/template-library/integral_template_variant.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index ae7fe98..6a40ff8 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -129,7 +129,9 @@ namespace dice::template_library {
 		}
 
 		constexpr auto operator<=>(integral_template_variant const &other) const noexcept = default;
-		constexpr bool operator==(integral_template_variant const &other) const noexcept = default;
+		constexpr bool operator==(integral_template_variant const &other) const noexcept {
+			return repr_ == other.repr_;
+		}
 	};
 
 }// namespace dice::template_library
-- 
2.43.0

