From 7150531a503ed8254e420401033d0606ea82b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 01/14] fix: size the output buffers after the results of the
 actions, not their parameters

---
 include/upd/buffered_dispatcher.hpp          |  3 ++-
 include/upd/detail/type_traits/signature.hpp | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..b6d1a68 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -20,6 +20,7 @@
 #include "detail/type_traits/typelist.hpp"
 
 // IWYU pragma: no_forward_declare upd::detail::map_parameters_size
+// IWYU pragma: no_forward_declare upd::detail::map_return_type_size
 
 namespace upd {
 namespace detail {
@@ -33,7 +34,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..eebe840 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -127,6 +127,17 @@ struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
-- 
2.43.0


From 3e839cab4353b3291d6025ed596b27d046be26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 02/14] fix: keep buffered dispatchers consistent when a
 callback throws

---
 include/upd/buffered_dispatcher.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index b6d1a68..b0fd43a 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -262,14 +262,15 @@ private:
     m_obuf_bottom = 0;
     m_obuf_next = 0;
 
+    // The request is consumed even if the callback throws
+    m_is_index_loaded = false;
+    m_load_count = sizeof(index_t);
+    m_ibuf_next = 0;
+
     auto *ibuf_ptr = derived().ibuf_begin();
     auto index = get_index([&]() { return *ibuf_ptr++; });
     m_dispatcher[index]([&]() { return *ibuf_ptr++; },
                         [&](byte_t byte) { derived().obuf_begin()[m_obuf_bottom++] = byte; });
-
-    m_is_index_loaded = false;
-    m_load_count = sizeof(index_t);
-    m_ibuf_next = 0;
   }
 
   //! \copydoc dispatcher::get_index
-- 
2.43.0


From 0dee1710f3593ef011943c889868e533eb6927e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 03/14] fix: use serialized sizes for the payloads and buffers
 of user-extended types

---
 include/upd/detail/type_traits/signature.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index eebe840..902038b 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -6,6 +6,7 @@
 #include <type_traits>
 
 #include "detector.hpp"
+#include "remove_cv_ref.hpp"
 #include "typelist.hpp"
 
 #include "../../upd.hpp"
@@ -13,6 +14,9 @@
 namespace upd {
 namespace detail {
 
+template<typename>
+struct serialization_size; // Defined in `tuple.hpp`
+
 //! \name
 //! \brief Allows to hold a function signature
 //!
@@ -98,13 +102,13 @@ template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
 //! \name
-//! \brief Sums the sizes of the parameters of `F`
+//! \brief Sums the sizes of the parameters of `F` when serialized
 //! @{
 
 template<typename F>
 struct parameters_size : parameters_size<signature_t<F>> {};
 template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
+struct parameters_size<R(Args...)> : sum<detail::tlist_t<serialization_size<remove_cv_ref_t<Args>>...>> {};
 
 //! @}
 
@@ -119,11 +123,12 @@ struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
 
 //! @}
 
-//! \brief Gets the size of the return type of `F`
+//! \brief Gets the size of the return type of `F` when serialized
 template<typename F>
 struct return_type_size : return_type_size<detail::signature_t<F>> {};
 template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
+struct return_type_size<R(Args...)>
+    : std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<R>>::value> {};
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
-- 
2.43.0


From 98bdf6b363d446941554b0189aa3a394c1f8c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 04/14] fix: make actions own a copy of the lvalue callbacks
 they are given

---
 include/upd/action.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..a9b78b7 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 
 #include "format.hpp"
 #include "tuple.hpp"
@@ -16,6 +17,7 @@
 #include "detail/static_error.hpp"
 #include "detail/type_traits/flatten_tuple.hpp"
 #include "detail/type_traits/input_tuple.hpp"
+#include "detail/type_traits/remove_cv_ref.hpp"
 #include "detail/type_traits/require.hpp"
 #include "detail/type_traits/signature.hpp"
 
@@ -76,9 +78,14 @@ template<typename F, endianess Endianess, signed_mode Signed_Mode>
 struct action_model_impl {
   using tuple_t = input_tuple<Endianess, Signed_Mode, F>;
 
+  // Functions are referenced, any other callback is copied or moved
+  using storage_t = typename std::conditional<std::is_function<typename std::remove_reference<F>::type>::value,
+                                              F,
+                                              remove_cv_ref_t<F>>::type;
+
   explicit action_model_impl(F &&ftor) : ftor{UPD_FWD(ftor)} {}
 
-  F ftor;
+  storage_t ftor;
 };
 
 //! \brief Abstract class used for setting up type erasure in the `action` class
@@ -110,7 +117,7 @@ public:
     action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
   }
 
-  void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, UPD_FWD(m_impl.ftor)); }
+  void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, static_cast<F &&>(m_impl.ftor)); }
 
 private:
   impl_t m_impl;
-- 
2.43.0


From 98702d8adca50ec5699034e7ed3b29e95dd3fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 05/14] fix: read and write the serialized size of
 user-extended types through any iterator

---
 include/upd/detail/serialization.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..2bfe929 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -21,6 +21,9 @@ class tuple_view; // IWYU pragma: keep
 
 namespace detail {
 
+template<typename>
+struct serialization_size; // Defined in `tuple.hpp`
+
 //! \brief Make a tuple view suitable for functors of the provided signature to invoke on
 template<endianess Endianess, signed_mode Signed_Mode, typename It, typename... Args, typename R>
 tuple_view<It, Endianess, Signed_Mode, Args...> make_view_for(const It &it, signature<R(Args...)>) {
@@ -86,7 +89,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -149,7 +152,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
-- 
2.43.0


From ecd10ef90b50abce9a9f7488558a86cd46156c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 06/14] fix: report unimplemented clients with
 NotImplementedError

---
 py/unpadded/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/unpadded/client.py b/py/unpadded/client.py
index fdc6a9f..b4e7990 100644
--- a/py/unpadded/client.py
+++ b/py/unpadded/client.py
@@ -1,6 +1,6 @@
 class Client:
     def new_request(self, payload):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     async def call(self, key, *args):
         response = await self.new_request(key.encode(*args))
-- 
2.43.0


From d72d9ef4719d66ec34f1fecf1fce06d8c9fbae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 07/14] fix: do not overflow on the minimum value in two's
 complement

---
 include/upd/detail/signed_representation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index d34ad05..9f431ad 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -24,7 +24,7 @@ T from_signed_mode_impl(unsigned long long value) {
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 T from_signed_mode_impl(unsigned long long value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value & sign_mask ? T(-T(~value + 1)) : T(value);
+  return value & sign_mask ? T(-T(~value) - 1) : T(value);
 }
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -56,7 +56,7 @@ unsigned long long to_signed_mode_impl(T value) {
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-value - 1));
+  return static_cast<unsigned long long>(value);
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-- 
2.43.0


From 1868246f5c9c30157a42fff67c51c4a32aed932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 08/14] fix: never read an invalid bool on platforms with a
 declared endianess

---
 include/upd/detail/endianess.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..4fa73a2 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <type_traits>
 
 #include "../format.hpp"
 #include "../type.hpp"
@@ -37,14 +38,20 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 }
 
 //! \brief Interpret a sequence of byte as an integer according to the provided endianess
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
+//!
+//! \note The representation of `bool` is never copied as is since not every byte is a valid one.
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess == Endianess && !std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   auto retval = T(0);
   memcpy(&retval, raw_data, n);
 
   return retval;
 }
-template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess != Endianess)>
+template<typename T,
+         endianess Endianess,
+         UPD_REQUIRE(platform_info.endianess != Endianess || std::is_same<T, bool>::value)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   return from_endianess_impl<T, Endianess>(raw_data, n);
 }
-- 
2.43.0


From 2709cae1758266d2135691fc6bbec2302fb22b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 09/14] fix: reject truncated payloads in Python instead of
 crashing

---
 include/upd/python.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/python.hpp b/include/upd/python.hpp
index 1c5beb9..ed9d753 100644
--- a/include/upd/python.hpp
+++ b/include/upd/python.hpp
@@ -85,7 +85,8 @@ void define_pykey(pybind11::module &pymodule, const char *name, Keyring, key<Ind
            [](key_t k, pybind11::object &pybytes) {
              auto it = pybytes.begin();
              return k.read_from([&]() {
-               ++it;
+               if (++it == pybind11::iterator::sentinel())
+                 throw pybind11::value_error{"The payload is too short"};
                return it->cast<byte_t>();
              });
            })
-- 
2.43.0


From e823ab8b58674a2cc297b838bb68b992e98718c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 10/14] fix: let callbacks return types associated with
 namespace std

make_tuple was looked up by ADL and resolved to std::make_tuple for results such as std::array.
---
 include/upd/action.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index a9b78b7..f79bc9f 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -37,7 +37,7 @@ template<endianess Endianess, signed_mode Signed_Mode, typename T, UPD_REQUIREME
 void insert(dest_t &dest, const T &value) {
   using namespace upd;
 
-  auto output = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
+  auto output = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, value);
   for (byte_t byte : output)
     dest(byte);
 }
@@ -142,7 +142,7 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+  auto return_tuple = upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
   for (auto byte : return_tuple)
     dest(byte);
 }
-- 
2.43.0


From 512667a045b77d9ead3be5d4850a48597205b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:49 +0000
Subject: [PATCH 11/14] fix: build the C++ modules imported by other C++
 modules

The guard against re-entrance of the import hook also disabled it for the
modules imported while another one is initialized: stale builds of them were
loaded. Only the names being imported are left to the other finders.
---
 py/unpadded/hook.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/unpadded/hook.py b/py/unpadded/hook.py
index c08aad6..b6d0a99 100644
--- a/py/unpadded/hook.py
+++ b/py/unpadded/hook.py
@@ -16,14 +16,14 @@ _logger = logging.getLogger(__name__)
 
 class Hook:
     def __init__(self):
-        self._running = False
+        self._running = set()
 
     def find_spec(self, fullname, path, target=None):
-        if self._running:
+        if fullname in self._running:
             return
 
         try:
-            self._running = True
+            self._running.add(fullname)
             filepath = os.path.abspath(find_module_cpppath(fullname, opt_in=True))
             if fullname is None:
                 fullname = os.path.splitext(os.path.basename(filepath))[0]
@@ -37,7 +37,7 @@ class Hook:
         except ImportError:
             _logger.debug(traceback.format_exc())
         finally:
-            self._running = False
+            self._running.discard(fullname)
 
 
 def setup_unpadded(cfg):
-- 
2.43.0


From fbeb322640759d1c1e38408f80af353ab7e25047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:37 +0000
Subject: [PATCH 12/14] fix: find the buffers of derived dispatchers which have
 other bases

buffered_dispatcher reinterpreted its own address as the one of the class
deriving from it, which is another one as soon as that class has a virtual
function or a base before the dispatcher.
---
 include/upd/buffered_dispatcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index b0fd43a..8c501ca 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -70,8 +70,8 @@ class buffered_dispatcher : public detail::immediate_reader<buffered_dispatcher<
                             public detail::immediate_process<buffered_dispatcher<D, Dispatcher>, packet_status> {
   using this_t = buffered_dispatcher<D, Dispatcher>;
 
-  D &derived() { return reinterpret_cast<D &>(*this); }
-  const D &derived() const { return reinterpret_cast<const D &>(*this); }
+  D &derived() { return static_cast<D &>(*this); }
+  const D &derived() const { return static_cast<const D &>(*this); }
 
 public:
   //! \copydoc dispatcher::index_t
-- 
2.43.0


From e3d8dc9f3616fcc16d5dcf8493fe68fdd2de329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:02 +0000
Subject: [PATCH 13/14] fix: keep the directory of a C++ module out of sys.path
 while it is initialized

cppimport's load_module puts it in front for the time of the load: whatever the
module imports then is first looked for there, so that a module of a package
found its neighbours instead of the top level modules of the same names.
---
 py/unpadded/hook.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/py/unpadded/hook.py b/py/unpadded/hook.py
index b6d0a99..baa85ea 100644
--- a/py/unpadded/hook.py
+++ b/py/unpadded/hook.py
@@ -2,10 +2,13 @@ import logging
 import os
 import sys
 import traceback
+from importlib.machinery import ExtensionFileLoader
+from importlib.util import spec_from_file_location
 from pathlib import Path
 
+import cppimport
 from cppimport.find import find_module_cpppath
-from cppimport.importer import build_safely, load_module, setup_module_data
+from cppimport.importer import build_safely, setup_module_data
 from cppimport.templating import setup_pybind11
 
 INCLUDE_DIRECTORY = str(Path(__file__).parent.absolute()) + "/include"
@@ -14,6 +17,21 @@ _extra_include_dirs = []
 _logger = logging.getLogger(__name__)
 
 
+class Loader(ExtensionFileLoader):
+    # Unlike `cppimport.importer.load_module`, does not make the modules lying beside
+    # the loaded one importable as top level modules during its initialization
+    def create_module(self, spec):
+        if not hasattr(sys, "getdlopenflags"):
+            return super().create_module(spec)
+
+        flags = sys.getdlopenflags()
+        sys.setdlopenflags(flags | cppimport.settings["rtld_flags"])
+        try:
+            return super().create_module(spec)
+        finally:
+            sys.setdlopenflags(flags)
+
+
 class Hook:
     def __init__(self):
         self._running = set()
@@ -32,8 +50,10 @@ class Hook:
             if os.path.exists(module_data["ext_path"]):
                 os.remove(module_data["ext_path"])
             build_safely(filepath, module_data)
-            load_module(module_data)
-            return module_data["module"]
+            ext_path = module_data["ext_path"]
+            return spec_from_file_location(
+                fullname, ext_path, loader=Loader(fullname, ext_path)
+            )
         except ImportError:
             _logger.debug(traceback.format_exc())
         finally:
-- 
2.43.0


From cb812fe7689bcddbb1bbae690b4e9577ec2206a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:24 +0000
Subject: [PATCH 14/14] fix: keep the response when the output given to reply()
 throws

---
 include/upd/buffered_dispatcher.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 8c501ca..a16c2f9 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -240,9 +240,19 @@ public:
 
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
+    // The response is still to be sent if the output throws
+    struct restore_t {
+      ~restore_t() {
+        if (obuf_next)
+          *obuf_next = 0;
+      }
+      std::size_t *obuf_next;
+    } restore{&m_obuf_next};
+
     buf_t buf;
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
+    restore.obuf_next = nullptr;
 
     return true;
   }
-- 
2.43.0

