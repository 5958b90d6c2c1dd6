From aeccdf52aad177098b1b478645247e58ccda7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 1/9] fix: byte order of scalars declared narrower than their
 type

A foreign-endian field narrower than its type was swapped as a whole object,
so the declared bytes were taken from the wrong end in both directions.
---
 include/field_read/read_impl.hpp   |  2 +-
 include/field_write/write_impl.hpp |  2 +-
 include/stream/byte_order.hpp      | 26 ++++++++++++++++++++++++++
 single_header/s2s.hpp              | 30 ++++++++++++++++++++++++++++--
 4 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 9e38ec8..d9bea0e 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -98,7 +98,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = from_foreign_order(obj, size_to_read);
     return {};
   }
   return res;
diff --git a/include/field_write/write_impl.hpp b/include/field_write/write_impl.hpp
index 0d7c730..6a85a17 100644
--- a/include/field_write/write_impl.hpp
+++ b/include/field_write/write_impl.hpp
@@ -54,7 +54,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = to_foreign_order(obj, size_to_write);
   return write_native_impl(s, swapped, size_to_write);
 }
 
diff --git a/include/stream/byte_order.hpp b/include/stream/byte_order.hpp
index a2357e1..9ab6764 100644
--- a/include/stream/byte_order.hpp
+++ b/include/stream/byte_order.hpp
@@ -3,6 +3,8 @@
 
 
 #include <bit>
+#include <cstddef>
+#include <type_traits>
 
 #include "../lib/s2s_traits/type_traits.hpp"
 
@@ -25,6 +27,30 @@ constexpr auto byteswap_elements(T& obj) -> void {
 }
 
 
+// A foreign scalar may be declared narrower than its type: only the first
+// `width` bytes travel, and they are the low-order ones. Swapping the whole
+// object leaves them at its high end, so the value is moved to (or from) the
+// low end by the bytes that never reached the stream.
+template <integral T>
+constexpr auto from_foreign_order(T obj, std::size_t width) -> T {
+  obj = std::byteswap(obj);
+  if constexpr(sizeof(T) > 1) {
+    if(width < sizeof(T))
+      obj = static_cast<T>(static_cast<std::make_unsigned_t<T>>(obj) >> ((sizeof(T) - width) * 8));
+  }
+  return obj;
+}
+
+template <integral T>
+constexpr auto to_foreign_order(T obj, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    if(width < sizeof(T))
+      obj = static_cast<T>(static_cast<std::make_unsigned_t<T>>(obj) << ((sizeof(T) - width) * 8));
+  }
+  return std::byteswap(obj);
+}
+
+
 enum cast_endianness {
   host = 0,
   foreign = 1
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index f92c679..7075453 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3874,6 +3874,8 @@ constexpr auto as_byte_buffer(const T& obj) -> std::array<char, size> {
 #ifndef _BYTE_ORDER_HPP_
 #define _BYTE_ORDER_HPP_
  
+ 
+ 
 namespace s2s {
 // Single-byte elements have no byte order, and fixed_string exposes no
 // iterators, so both fall through untouched. Shared by the read and write
@@ -3892,6 +3894,30 @@ constexpr auto byteswap_elements(T& obj) -> void {
 }
 
 
+// A foreign scalar may be declared narrower than its type: only the first
+// `width` bytes travel, and they are the low-order ones. Swapping the whole
+// object leaves them at its high end, so the value is moved to (or from) the
+// low end by the bytes that never reached the stream.
+template <integral T>
+constexpr auto from_foreign_order(T obj, std::size_t width) -> T {
+  obj = std::byteswap(obj);
+  if constexpr(sizeof(T) > 1) {
+    if(width < sizeof(T))
+      obj = static_cast<T>(static_cast<std::make_unsigned_t<T>>(obj) >> ((sizeof(T) - width) * 8));
+  }
+  return obj;
+}
+
+template <integral T>
+constexpr auto to_foreign_order(T obj, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    if(width < sizeof(T))
+      obj = static_cast<T>(static_cast<std::make_unsigned_t<T>>(obj) << ((sizeof(T) - width) * 8));
+  }
+  return std::byteswap(obj);
+}
+
+
 enum cast_endianness {
   host = 0,
   foreign = 1
@@ -4002,7 +4028,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = from_foreign_order(obj, size_to_read);
     return {};
   }
   return res;
@@ -4787,7 +4813,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = to_foreign_order(obj, size_to_write);
   return write_native_impl(s, swapped, size_to_write);
 }
 
-- 
2.43.0


From c021fabdc419e9f5ccc7e91a95a48abd62f7edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 2/9] fix: bound fixed_string comparison by the array, not by a
 terminator

A fixed_string field read from a stream holds whatever bytes were there. When
none of them is zero, operator== searched for a terminator past the end.
---
 include/lib/containers/fixed_string.hpp | 6 ++++--
 single_header/s2s.hpp                   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lib/containers/fixed_string.hpp b/include/lib/containers/fixed_string.hpp
index 59bd5a3..55cc733 100644
--- a/include/lib/containers/fixed_string.hpp
+++ b/include/lib/containers/fixed_string.hpp
@@ -20,7 +20,7 @@ struct fixed_string {
   constexpr char* data() { return value.data(); }
   constexpr std::size_t size() const { return N; }
   constexpr auto to_sv() -> std::string_view const {
-    return std::string_view{data()};
+    return std::string_view{data(), size()};
   }
 };
 
@@ -30,7 +30,9 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  // The whole array, not up to a terminator: a value read off the wire need not
+  // contain one, and looking for it would run past the end.
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 7075453..2aa7962 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -40,7 +40,7 @@ struct fixed_string {
   constexpr char* data() { return value.data(); }
   constexpr std::size_t size() const { return N; }
   constexpr auto to_sv() -> std::string_view const {
-    return std::string_view{data()};
+    return std::string_view{data(), size()};
   }
 };
 
@@ -50,7 +50,9 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  // The whole array, not up to a terminator: a value read off the wire need not
+  // contain one, and looking for it would run past the end.
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
-- 
2.43.0


From e979fe14b710d2b9496e0a9d59e2b834ec8d10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 3/9] fix: compare a magic_number in the field's own type

eq{expected} took its type from the literal, so an int literal truncated a
wider field before comparing and accepted values that differ in the high bits.
---
 include/api/field_descriptors.hpp | 2 +-
 single_header/s2s.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/api/field_descriptors.hpp b/include/api/field_descriptors.hpp
index 8904dcb..9d00d9c 100644
--- a/include/api/field_descriptors.hpp
+++ b/include/api/field_descriptors.hpp
@@ -58,7 +58,7 @@ using magic_string = field<id, fixed_string<expected.size()>, byte_count{expecte
 
 template <fixed_string id, integral T, auto size, auto expected>
   requires fixed_size_like<size_type_of<size>>
-using magic_number = field<id, T, size, eq{expected}>;
+using magic_number = field<id, T, size, eq{static_cast<T>(expected)}>;
 
 // todo how user can provide user defined vector impl or allocator
 template <fixed_string id, typename T, boundable_field_option_like<std::vector<T>> auto... opts>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 2aa7962..4b39a7a 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3435,7 +3435,7 @@ using magic_string = field<id, fixed_string<expected.size()>, byte_count{expecte
 
 template <fixed_string id, integral T, auto size, auto expected>
   requires fixed_size_like<size_type_of<size>>
-using magic_number = field<id, T, size, eq{expected}>;
+using magic_number = field<id, T, size, eq{static_cast<T>(expected)}>;
 
 // todo how user can provide user defined vector impl or allocator
 template <fixed_string id, typename T, boundable_field_option_like<std::vector<T>> auto... opts>
-- 
2.43.0


From a45d73f32e755fb0d706d611d96351a78204cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:07 +0000
Subject: [PATCH 4/9] fix: negative match_case values can be written

A negative discriminant sign-extends to std::size_t, and the width test then
rejected it although the full-width field holds it exactly.
---
 include/field_write/derived_value.hpp | 2 +-
 single_header/s2s.hpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 406cc8c..1e170dd 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -297,7 +297,7 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 4b39a7a..ca88a25 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4754,7 +4754,7 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
-- 
2.43.0


From d1ed5b4b0be27d9930c83c992e946d6af4019281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:07 +0000
Subject: [PATCH 5/9] fix: reject a field whose size, predicate or selector
 names itself

---
 include/field_list/field_list_metadata.hpp | 2 +-
 single_header/s2s.hpp                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index aaf7f2d..b9fb3b8 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -368,7 +368,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index ca88a25..99a4b00 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2828,7 +2828,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
-- 
2.43.0


From 797621653686da7c48a0676d51f78d5fdf5c67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:07 +0000
Subject: [PATCH 6/9] fix: accept max_bytes on a container inside maybe

---
 include/field_list/field_list_metadata.hpp | 6 +++---
 single_header/s2s.hpp                      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index b9fb3b8..81ca1bb 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -75,13 +75,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 99a4b00..e3d997d 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2535,13 +2535,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
-- 
2.43.0


From 20d31ad1bb8dbea40ba0e9017b4d4c805437249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:17 +0000
Subject: [PATCH 7/9] fix: refuse to write a scalar that its declared width
 cannot hold

A stored value (or a verified length) wider than the declared width was cut to
its low bytes without an error.
---
 include/field_write/field_writer.hpp | 12 ++++++++++++
 single_header/s2s.hpp                | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/field_write/field_writer.hpp b/include/field_write/field_writer.hpp
index b3cdd27..96eb7b0 100644
--- a/include/field_write/field_writer.hpp
+++ b/include/field_write/field_writer.hpp
@@ -68,8 +68,20 @@ private:
       if(!res)
         return res;
     }
+    // Only the declared bytes reach the stream, and a reader extends them with
+    // zeros. A value that needs more would come back as a different one.
+    if constexpr(integral<typename T::field_type> && sizeof(typename T::field_type) > 1) {
+      if(!fits_in_bytes(v, size_to_write))
+        return std::unexpected(error_reason::validation_failure);
+    }
     return write_impl<endianness>(s, v, size_to_write);
   }
+
+  static constexpr auto fits_in_bytes(const typename T::field_type& v, std::size_t width) -> bool {
+    if(width >= sizeof(v))
+      return true;
+    return (static_cast<std::make_unsigned_t<typename T::field_type>>(v) >> (width * 8)) == 0;
+  }
 };
 
 template <variable_sized_field_like T, field_list_like F>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index e3d997d..eb3e86b 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4922,8 +4922,20 @@ private:
       if(!res)
         return res;
     }
+    // Only the declared bytes reach the stream, and a reader extends them with
+    // zeros. A value that needs more would come back as a different one.
+    if constexpr(integral<typename T::field_type> && sizeof(typename T::field_type) > 1) {
+      if(!fits_in_bytes(v, size_to_write))
+        return std::unexpected(error_reason::validation_failure);
+    }
     return write_impl<endianness>(s, v, size_to_write);
   }
+
+  static constexpr auto fits_in_bytes(const typename T::field_type& v, std::size_t width) -> bool {
+    if(width >= sizeof(v))
+      return true;
+    return (static_cast<std::make_unsigned_t<typename T::field_type>>(v) >> (width * 8)) == 0;
+  }
 };
 
 template <variable_sized_field_like T, field_list_like F>
-- 
2.43.0


From 9d419846cfd685a3c810adeceedf3ff8ac2cb808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:19 +0000
Subject: [PATCH 8/9] fix: an empty field id no longer resolves to a table slot
 that holds no field

---
 include/lib/containers/static_map.hpp | 8 ++++++--
 single_header/s2s.hpp                 | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/lib/containers/static_map.hpp b/include/lib/containers/static_map.hpp
index 4a6f4d5..46b2947 100644
--- a/include/lib/containers/static_map.hpp
+++ b/include/lib/containers/static_map.hpp
@@ -44,8 +44,12 @@ template <typename Key, typename Value, std::size_t N /*, compare? */>
 class static_map {
 public:
   constexpr static_map() = default;
-  constexpr static_map(const std::pair<Key, Value> (&entries)[N]): 
-    map(generate_map<N>(entries, std::make_index_sequence<N>{})) {}
+  // Only the entries given: padding the array up to N would add an entry for the
+  // default key, and looking up an empty field id would then succeed.
+  template <std::size_t C>
+    requires (C <= N)
+  constexpr static_map(const std::pair<Key, Value> (&entries)[C]): 
+    map(generate_map<C>(entries, std::make_index_sequence<C>{})) {}
   constexpr auto operator[](const Key& key) const  -> std::optional<Value> {
     auto key_index = find_index_if(map, [&key](auto t){ return t.element.first == key; });
     if(key_index != map.size())
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index eb3e86b..cff640d 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -1521,8 +1521,12 @@ template <typename Key, typename Value, std::size_t N /*, compare? */>
 class static_map {
 public:
   constexpr static_map() = default;
-  constexpr static_map(const std::pair<Key, Value> (&entries)[N]): 
-    map(generate_map<N>(entries, std::make_index_sequence<N>{})) {}
+  // Only the entries given: padding the array up to N would add an entry for the
+  // default key, and looking up an empty field id would then succeed.
+  template <std::size_t C>
+    requires (C <= N)
+  constexpr static_map(const std::pair<Key, Value> (&entries)[C]): 
+    map(generate_map<C>(entries, std::make_index_sequence<C>{})) {}
   constexpr auto operator[](const Key& key) const  -> std::optional<Value> {
     auto key_index = find_index_if(map, [&key](auto t){ return t.element.first == key; });
     if(key_index != map.size())
-- 
2.43.0


From d719d67586daa62996e809e6143ed89b885902f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 9/9] fix: a field may be both a length target and a
 discriminant

---
 include/type_deduction/type/type_impl.hpp | 3 ++-
 single_header/s2s.hpp                     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 1ecf9a9..d466226 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -31,7 +31,8 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    // Not operator[]: the field may also be a length target, which that hides.
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl)); 
   }
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index cff640d..5410045 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3719,7 +3719,8 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    // Not operator[]: the field may also be a length target, which that hides.
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl)); 
   }
 };
 
-- 
2.43.0

