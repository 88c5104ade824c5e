From 144dc6c4ddd557779697291a3303a422cb1fb48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 01/10] fix: skip non-virtual parameters when resolving
 multi-methods

---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..a42f079 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2547,13 +2547,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From 40014fe603c0b9f4d6429785599b0e1b34785a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 02/10] fix: complete the transitive bases regardless of
 registration order

---
 include/boost/openmethod/initialize.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..44ab63f 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -655,6 +655,22 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
         calculate_transitive_derived(rtc);
     }
 
+    // Depending on the order in which the classes were registered,
+    // 'transitive_bases' may still lack indirect bases. Now that the sets of
+    // derived classes are known, make them complete.
+
+    for (auto& rtc : classes) {
+        rtc.transitive_bases.clear();
+    }
+
+    for (auto& rtc : classes) {
+        for (auto derived : rtc.transitive_derived) {
+            if (derived != &rtc) {
+                derived->transitive_bases.push_back(&rtc);
+            }
+        }
+    }
+
     if constexpr (has_trace) {
         ++tr << "Inheritance lattice:\n";
 
-- 
2.43.0


From 3901a3b129570b8787782d931bdace1b456e0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 03/10] fix: make overrider selection independent of
 registration order

---
 include/boost/openmethod/initialize.hpp | 29 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 44ab63f..783ffac 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1439,16 +1439,16 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
+    // 'is_more_specific' is not transitive: always compare against the initial
+    // candidates, including those that are themselves dominated.
+    const auto all = candidates;
+
     for (size_t i = 0; i < candidates.size(); ++i) {
         if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
-                        candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
-                        candidates[i] = nullptr;
-                        break; // this one is dead
-                    }
+            for (size_t j = 0; j < all.size(); ++j) {
+                if (all[j] && is_more_specific(all[j], all[i])) {
+                    candidates[i] = nullptr;
+                    break; // this one is dead
                 }
             }
         }
@@ -1459,6 +1459,19 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
         }
     }
 
+    if (remaining == 0) {
+        // No candidates, or they all dominate each other circularly. In the
+        // latter case the call is ambiguous.
+        candidates = all;
+
+        for (size_t i = 0; i < candidates.size(); ++i) {
+            if (candidates[i]) {
+                pick = i;
+                ++remaining;
+            }
+        }
+    }
+
     if (remaining <= 1) {
         return;
     }
-- 
2.43.0


From 96f0ef90692cdfbd2e5ac691cbdb28adf0eb1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 04/10] fix: do not dereference an eliminated overrider in
 N2216 resolution

---
 include/boost/openmethod/initialize.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 783ffac..d0e28c3 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1492,6 +1492,7 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
                         if (candidates[i]->covariant_return_type->is_base_of(
                                 candidates[j]->covariant_return_type)) {
                             candidates[i] = nullptr;
+                            break; // this one is dead
                         } else if (candidates[j]
                                        ->covariant_return_type->is_base_of(
                                            candidates[i]
-- 
2.43.0


From f424ed6c18bfe483ac940bbdc0ca042e6f6ea989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 05/10] fix: set 'next' to an overrider applicable to the same
 arguments

---
 include/boost/openmethod/initialize.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index d0e28c3..23af50f 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1231,20 +1231,17 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_table(
                 // -------------------------------------------------------------
                 // next
 
-                // First remove the dominant overriders from the overriders.
-                // Note that the dominants appear in the overriders in the same
-                // relative order.
-                auto candidate = overriders.begin();
+                // Keep only the overriders that are applicable to any arguments
+                // that the selected overrider accepts, because it has a single
+                // 'next', used in all the cells it occupies.
                 remaining = 0;
 
-                for (auto dominant : dominants) {
-                    if (*candidate == dominant) {
-                        *candidate = nullptr;
-                    } else {
+                for (auto& candidate : overriders) {
+                    if (is_base(candidate, overrider)) {
                         ++remaining;
+                    } else {
+                        candidate = nullptr;
                     }
-
-                    ++candidate;
                 }
 
                 if (remaining == 0) {
-- 
2.43.0


From bbd6a813429bffd290cdc327719d782a6aa7f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 06/10] fix: report base and derived classes in the right order
 in missing_base

---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 23af50f..6955ad8 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -858,8 +858,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From e477e35b098ee4bbb5a27f91e2e3e6ad6a9f726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 07/10] fix: report only the virtual arguments in bad_call

---
 include/boost/openmethod/core.hpp | 53 +++++++++++++++++--------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a42f079..500c69d 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1967,35 +1967,42 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
-template<class Method, class Rtti, std::size_t Index>
-struct init_bad_call {
+template<
+    class Method, class Rtti, class MethodParameters, std::size_t Index = 0u>
+struct init_bad_call;
+
+template<
+    class Method, class Rtti, typename Parameter, typename... MoreParameters,
+    std::size_t Index>
+struct init_bad_call<
+    Method, Rtti, mp11::mp_list<Parameter, MoreParameters...>, Index> {
     template<typename Arg, typename... Args>
     static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
-        if constexpr (Index == 0u) {
-            error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
-        }
-
-        type_id arg_type_id;
+        if constexpr (is_virtual<Parameter>::value) {
+            if constexpr (Index < bad_call::max_types) {
+                if constexpr (is_virtual_ptr<Arg>) {
+                    error.types[Index] = Rtti::dynamic_type(*arg);
+                } else {
+                    error.types[Index] = Rtti::dynamic_type(arg);
+                }
+            }
 
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
+            init_bad_call<
+                Method, Rtti, mp11::mp_list<MoreParameters...>,
+                Index + 1>::fn(error, args...);
         } else {
-            arg_type_id = Rtti::dynamic_type(arg);
+            init_bad_call<
+                Method, Rtti, mp11::mp_list<MoreParameters...>,
+                Index>::fn(error, args...);
         }
-
-        error.types[Index] = arg_type_id;
-
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
-    }
-
-    static auto fn(bad_call&) {
     }
 };
 
-template<class Method, class Rtti>
-struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
+template<class Method, class Rtti, std::size_t Index>
+struct init_bad_call<Method, Rtti, mp11::mp_list<>, Index> {
+    static auto fn(bad_call& error) {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = Index;
     }
 };
 
@@ -2590,7 +2597,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, DeclaredParameters>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2608,7 +2615,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, DeclaredParameters>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From 165556bb01c9f27e38903d4116702b73be43388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 08/10] fix: accept null smart pointers in virtual_ptr copy
 assignment

---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 500c69d..0b599fb 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1518,9 +1518,9 @@ class virtual_ptr<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
                 IsPolymorphic<typename Other::element_type, Registry>>>
     virtual_ptr& operator=(const Other& other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From 833ec5af97650e4ad8a854e48781b46e995123f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 09/10] fix: reset the v-table pointer of a smart virtual_ptr
 emptied by cast() &&

---
 include/boost/openmethod/core.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 0b599fb..28659cd 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1762,8 +1762,14 @@ class virtual_ptr<
 
         using other_smart_ptr = typename traits::template rebind<Other>;
 
-        return virtual_ptr<other_smart_ptr, Registry>(
+        virtual_ptr<other_smart_ptr, Registry> result(
             traits::template cast<other_smart_ptr>(std::move(obj)), vp);
+
+        if (!obj) {
+            vp = detail::box_vptr<use_indirect_vptrs>(detail::null_vptr);
+        }
+
+        return result;
     }
 
     //! Construct a `virtual_ptr` from a smart pointer to an object
-- 
2.43.0


From ae8b44d517ff364e994b98049479b90c1fa9a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 10/10] fix: keep a virtual_ptr consistent when an assignment
 is refused

---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 28659cd..8d54db3 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -928,9 +928,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
-        obj = &other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(other));
+        obj = &other;
         return *this;
     }
 
@@ -978,9 +978,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
+        obj = other;
         return *this;
     }
 
-- 
2.43.0

