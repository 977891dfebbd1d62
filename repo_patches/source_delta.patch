From 42e84c14a5370c62edfa415eba5dc83cd5166ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 01/43] fix: copy shared storage before clear, reserve and
 resize

These mutated the container in place even when it was shared, so the change
showed through every other handle of the value.
---
 include/dart/heap/api.tcc   | 3 +++
 include/dart/heap/array.tcc | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index a0316f8..04d0a75 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -255,6 +255,9 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::clear() {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
+
     if (is_object()) get_fields().clear();
     else if (is_array()) get_elements().clear();
     else throw type_error("dart::heap is not an aggregate and cannot be cleared");
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 45e0783..341683f 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -123,12 +123,18 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::reserve(size_type count) {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
+
     get_elements().reserve(count);
   }
 
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   void basic_heap<RefCount>::resize(size_type count, T const& def) {
+    // Make sure we copy out if our heap is shared.
+    copy_on_write();
+
     get_elements().resize(count, convert::cast<basic_heap>(def));
   }
 
-- 
2.43.0


From 9b9f83f673e96e96fd445e8005a7dc553e5e9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 02/43] fix: return end() when a key is not found in a
 finalized object

find and find_key used an uninitialized index when the key was absent.
---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 8258bc3..ec46d23 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -679,14 +679,14 @@ namespace dart {
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_value);
     }
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_key_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_key);
     }
-- 
2.43.0


From 6d0a3092c747ce23d69b198ddb21fc5c5cb5a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 03/43] fix: keep the full length of keys with embedded NULs in
 the object vtable

The cached prefix and length were taken from a C string, so such keys could not
be looked up once finalized.
---
 include/dart/object.tcc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index ec46d23..27852a9 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -280,7 +280,8 @@ namespace dart {
 
         // Add an entry to the vtable.
         auto val_type = json_identify<RefCount>(it->value);
-        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), it->name.GetString());
+        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset),
+            shim::string_view {it->name.GetString(), it->name.GetStringLength()});
 
         // Layout our key.
         offset += json_lower<RefCount>(aligned, it->name);
@@ -319,7 +320,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(pair.value.get_raw_type(),
-            static_cast<uint32_t>(offset), pair.key.str());
+            static_cast<uint32_t>(offset), pair.key.strv());
 
         // Layout our key.
         offset += pair.key.layout(aligned);
@@ -358,7 +359,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(field.second.get_raw_type(),
-              static_cast<uint32_t>(offset), field.first.str());
+              static_cast<uint32_t>(offset), field.first.strv());
 
         // Layout our key.
         offset += field.first.layout(aligned);
@@ -410,7 +411,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
@@ -459,7 +460,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
-- 
2.43.0


From 191280da83916cbc94c7c9fdda5860df1113c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 04/43] fix: compare cached key prefixes as unsigned bytes

Keys are sorted by char_traits, which orders bytes as unsigned, so lookups of
non-ASCII keys in finalized objects could take the wrong half.
---
 include/dart/common.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index e8b306a..6564ad8 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -13,13 +13,13 @@ namespace dart {
 
     template <size_t bytes>
     int prefix_compare_impl(char const* prefix, char const* str, size_t const len) noexcept {
-      if (len && *prefix != *str) return *prefix - *str;
+      if (len && *prefix != *str) return static_cast<unsigned char>(*prefix) - static_cast<unsigned char>(*str);
       else if (len) return prefix_compare_impl<bytes - 1>(prefix + 1, str + 1, len - 1);
-      else return *prefix;
+      else return static_cast<unsigned char>(*prefix);
     }
     template <>
     inline int prefix_compare_impl<0>(char const*, char const* str, size_t const len) noexcept {
-      if (len) return -*str;
+      if (len) return -static_cast<unsigned char>(*str);
       else return 0;
     }
 
-- 
2.43.0


From d872c8142048ca1dc9da2d7c57506ba21e27b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 05/43] fix: do not compare prefixes of keys whose cached
 length is capped

A stored key longer than 255 bytes has a cached length of 255, and was compared by
prefix with a sought key of exactly 255 bytes although it sorts after it.
---
 include/dart/common.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 6564ad8..653cdd4 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -198,9 +198,10 @@ namespace dart {
       constexpr auto max_len = std::numeric_limits<uint8_t>::max();
 
       // Compare first by string lengths, then by lexical ordering.
-      // If they are longer than us, but we're capped at the max value,
+      // If they are at least as long as us, but we're capped at the max value,
       // return equality to force key lookup to fall back on the general case.
-      if (our_len < their_len) return (our_len == max_len) ? 0 : -1;
+      if (our_len == max_len && our_len <= their_len) return 0;
+      else if (our_len < their_len) return -1;
       else if (our_len == their_len) return compare_impl(str.data(), their_len);
       else return 1;
     }
-- 
2.43.0


From 2e5e99f27fc62e24af2b93173e4601abd6b51b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 06/43] fix: inserting an aggregate into itself no longer
 creates a cycle

The value was shared after the check for sharing, so the container ended up owning
itself: it leaked, and read as an infinitely nested value.
---
 include/dart/heap/api.tcc   | 24 ++++++++++++++++--------
 include/dart/heap/array.tcc |  7 +++++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 04d0a75..a35305c 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -118,12 +118,16 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::insert(KeyType&& key, ValueType&& value) -> iterator {
-    // Perform our copy on write if our heap is shared.
-    copy_on_write();
-
     // Cast and forward the key/value into something we can insert.
+    // This has to happen before we check if our heap is shared, and lvalues have to be copied,
+    // as otherwise inserting an aggregate into itself would create a cycle.
+    using cast_type = decltype(convert::cast<basic_heap>(std::forward<ValueType>(value)));
+    using holder_type = std::conditional_t<std::is_rvalue_reference<cast_type>::value, cast_type, basic_heap>;
     auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+    holder_type tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
+    // Perform our copy on write if our heap is shared.
+    copy_on_write();
 
     // Perform the insertion.
     if (tmp_key.is_str()) {
@@ -170,12 +174,16 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::set(KeyType&& key, ValueType&& value) -> iterator {
-    // Perform our copy on write if our heap is shared.
-    copy_on_write();
-
     // Cast and forward the key/value into something we can use.
+    // This has to happen before we check if our heap is shared, and lvalues have to be copied,
+    // as otherwise setting an aggregate inside itself would create a cycle.
+    using cast_type = decltype(convert::cast<basic_heap>(std::forward<ValueType>(value)));
+    using holder_type = std::conditional_t<std::is_rvalue_reference<cast_type>::value, cast_type, basic_heap>;
     auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+    holder_type tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
+    // Perform our copy on write if our heap is shared.
+    copy_on_write();
 
     // Update the given value IF present.
     if (tmp_key.is_str()) {
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 341683f..5423b87 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -132,10 +132,13 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   void basic_heap<RefCount>::resize(size_type count, T const& def) {
+    // Has to happen before we check if our heap is shared,
+    // as otherwise resizing an array with itself would create a cycle.
+    basic_heap val = convert::cast<basic_heap>(def);
+
     // Make sure we copy out if our heap is shared.
     copy_on_write();
-
-    get_elements().resize(count, convert::cast<basic_heap>(def));
+    get_elements().resize(count, val);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From cfb402c6fd48c6af697a00e88dd82c1ab961dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 07/43] fix: validate that serialized children do not overlap,
 and accept adjacent nulls

Validation required every child to start strictly after the previous one, which
rejects intact packets where a null (which has no bytes) is followed by another
child at the same offset. It also accepted overlapping children, which can make
validation and traversal take time exponential in the size of the buffer.
---
 include/dart/array.tcc  |  7 ++++---
 include/dart/object.tcc | 11 ++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index dd67133..31a9df1 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -311,26 +311,27 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Children are laid out in order, so each one must start at or after the end of the previous one.
+      auto* prev_end = vtable_end;
       for (auto raw_val : *this) {
         // Load the base address of the value and verify that it's within bounds.
         auto val_offset = raw_val.buffer - DART_FROM_THIS;
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized array value contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev_end = raw_val.buffer + find_sizeof<RefCount>(raw_val);
       }
       return true;
     }
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 27852a9..489a3c2 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -541,7 +541,8 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Children are laid out in order, so each one must start at or after the end of the previous one.
+      auto* prev_end = vtable_end;
       auto key_it = key_begin(), val_it = begin();
       while (val_it != end()) {
         // We know the whole vtable is within bounds, but it could still specify offsets that aren't,
@@ -553,14 +554,13 @@ namespace dart {
           // Key offset is out of bounds
           if (silent) return false;
           else throw validation_error("Serialized object key offset is out of bounds");
-        } else if (raw_key.buffer <= prev) {
+        } else if (raw_key.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized object key contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_key.buffer, raw_key.type) != raw_key.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object key offset does not meet alignment requirements");
         }
-        prev = raw_key.buffer;
 
         // We now know that at least up to the base of the key is within bounds, so recurse on the key.
         // If the buffer validation routine returns false, it means we're not throwing errors.
@@ -568,6 +568,7 @@ namespace dart {
         // loads offset information from the key, and we haven't check if it's safe yet.
         auto valid_key = valid_buffer<silent, RefCount>(raw_key, total_size - key_offset);
         if (!valid_key) return false;
+        prev_end = raw_key.buffer + find_sizeof<RefCount>(raw_key);
 
         // Now we can dereference the value iterator since we know the key appears reasonable.
         // Load the base address of the value and verify that it's within bounds.
@@ -576,18 +577,18 @@ namespace dart {
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev_end) {
           if (silent) return false;
           else throw validation_error("Serialized object value contained a negative or cyclic offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev_end = raw_val.buffer + find_sizeof<RefCount>(raw_val);
 
         // Check the next pair.
         ++key_it, ++val_it;
-- 
2.43.0


From 5c02221f5bb5f4738e00c527eab08a9e283577e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 08/43] fix: at_front and at_back on a temporary packet flowed
 off the end of a lambda

The lambda declared a return value and returned nothing, which is undefined.
---
 include/dart/packet/array.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index c19caa5..405bc83 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -205,7 +205,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_front() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_front(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_front(); }, impl);
     return std::move(*this);
   }
 
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_back() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_back(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_back(); }, impl);
     return std::move(*this);
   }
 
-- 
2.43.0


From 12cee69eae7666464e56aa516c4074d6b318a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 09/43] fix: allow front_or and back_or on finalized packets

They are reads, but were refused with a state error.
---
 include/dart/packet/array.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index 405bc83..2a6d50c 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -236,7 +236,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::front_or(T&& opt) const {
-    return get_heap().front_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return front();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
@@ -254,7 +255,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::back_or(T&& opt) const {
-    return get_heap().back_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return back();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From f4c05b03f145d8ef04aa893539b1a15803f9ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 10/43] fix: refuse YAML mappings with aggregate keys

The key stack was empty when the aggregate ended, and its last element was used
anyway. Also do not construct the error from a null message when libyaml is out of
memory.
---
 include/dart/connector/yaml.tcc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index c04d940..eef751f 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -72,7 +72,9 @@ namespace dart {
       try {
         do {
           // Get our next event.
-          if (!yaml_parser_parse(&parser, &event)) throw std::runtime_error(parser.problem);
+          if (!yaml_parser_parse(&parser, &event)) {
+            throw std::runtime_error(parser.problem ? parser.problem : "dart::packet ran out of memory parsing yaml");
+          }
           event_type = event.type;
 
           // Run our state machine.
@@ -85,6 +87,10 @@ namespace dart {
               yaml_event_delete(&event);
               continue;
             case YAML_MAPPING_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML aggregates as keys");
+              }
+
               // Beginning a new object, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
@@ -93,6 +99,10 @@ namespace dart {
               curr_obj = basic_heap<RefCount>::make_object();
               break;
             case YAML_SEQUENCE_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML aggregates as keys");
+              }
+
               // Beginning a new array, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
-- 
2.43.0


From 5ff569b7bbdc1f41b6f73430f0c351f2e53c8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 11/43] fix: buffers constructed from a span refer to their own
 copy of it

The bytes were copied, but reads went to the span of the caller, which may be
released, overwritten or misaligned.
---
 include/dart.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index b3ce7ac..6d7089f 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -8007,9 +8007,12 @@ namespace dart {
         >
       >
       explicit basic_buffer(gsl::span<gsl::byte const> buffer) :
-        raw({detail::raw_type::object, buffer.data()}),
+        raw({detail::raw_type::object, nullptr}),
         buffer_ref(allocate_pointer(buffer))
-      {}
+      {
+        // Refer to our own copy, the caller keeps ownership of the bytes we were given.
+        raw.buffer = buffer_ref.get();
+      }
 
       /**
        *  @brief
-- 
2.43.0


From 77fabe53f618c16b385ae5360e21c6e71b36b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 12/43] fix: size projected objects for every requested key

Projecting more keys than a finalized object contains wrote past the end of the
new buffer.
---
 include/dart/common.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 653cdd4..cb9ddf2 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -268,8 +268,9 @@ namespace dart {
         // Unwrap our buffers to get the underlying machine representation.
         auto* raw_base = get_object<RefCount>(base.raw);
 
-        // Maximum required size is that of the current object, as the new one must be smaller.
-        auto total_size = raw_base->get_sizeof();
+        // The new object cannot hold more than the current one, but its vtable is initially sized for
+        // every requested key, whether or not the current object contains it.
+        auto total_size = raw_base->get_sizeof() + (sizeof(detail::object_entry) * key_ptrs.size());
         auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
           std::fill_n(ptr, total_size, gsl::byte {});
           new(ptr) detail::object<RefCount>(raw_base, key_ptrs);
-- 
2.43.0


From a268862495e811a46941fea9f85df328233a3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 13/43] fix: recording an error message in the C layer cannot
 terminate the process

The message is assigned while handling the error, inside a noexcept function, so
running out of memory called std::terminate.
---
 src/helpers.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/helpers.h b/src/helpers.h
index 7c7c2ab..7a7b213 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -582,28 +582,37 @@ namespace {
   }
 
   // Function is a top level error handler for all code in the ABI
+  // Records an error message for the calling thread.
+  // Must not throw, as it runs while handling errors, one of which is running out of memory.
+  inline void set_errmsg(char const* msg) noexcept try {
+    dart::detail::errmsg = msg;
+  } catch (...) {
+    // Short enough to never need an allocation.
+    dart::detail::errmsg = "out of memory";
+  }
+
   // Catches all exceptions, turns them into corresponding error codes
   // and updates the global error string.
   template <class Func>
   dart_err_t err_handler(Func&& cb) noexcept try {
     return std::forward<Func>(cb)();
   } catch (dart::type_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_TYPE_ERROR;
   } catch (dart::state_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_STATE_ERROR;
   } catch (dart::parse_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_PARSE_ERROR;
   } catch (std::logic_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_LOGIC_ERROR;
   } catch (std::runtime_error const& err) {
-    dart::detail::errmsg = err.what();
+    set_errmsg(err.what());
     return DART_RUNTIME_ERROR;
   } catch (...) {
-    dart::detail::errmsg = "Dart caught an unexpected error type. This is a bug, please make a report";
+    set_errmsg("Dart caught an unexpected error type. This is a bug, please make a report");
     return DART_UNKNOWN_ERROR;
   }
 
-- 
2.43.0


From 136945f7498e17cfde4a12efb0abba1b1fd6686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 14/43] fix: running out of memory while finalizing parsed JSON
 throws

The object constructor sorts its members in a temporary vector, but was noexcept, so
a failed allocation terminated the process.
---
 include/dart/array.tcc  | 2 +-
 include/dart/common.h   | 4 ++--
 include/dart/object.tcc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index 31a9df1..edc0673 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -208,7 +208,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    array<RefCount>::array(rapidjson::Value const& vals) noexcept :
+    array<RefCount>::array(rapidjson::Value const& vals) :
       elems(static_cast<uint32_t>(vals.Size()))
     {
       // Iterate over our elements and write each one into the buffer.
diff --git a/include/dart/common.h b/include/dart/common.h
index 7527ef3..c365d34 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -629,7 +629,7 @@ namespace dart {
         explicit object(sajson::value fields) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit object(rapidjson::Value const& fields) noexcept;
+        explicit object(rapidjson::Value const& fields);
 #endif
 
         // Direct constructors
@@ -722,7 +722,7 @@ namespace dart {
         explicit array(sajson::value elems) noexcept;
 #endif
 #if DART_HAS_RAPIDJSON
-        explicit array(rapidjson::Value const& elems) noexcept;
+        explicit array(rapidjson::Value const& elems);
 #endif
         array(packet_elements<RefCount> const* elems) noexcept;
         array(array const&) = delete;
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 489a3c2..9e93d67 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -244,7 +244,7 @@ namespace dart {
 
 #if DART_HAS_RAPIDJSON
     template <template <class> class RefCount>
-    object<RefCount>::object(rapidjson::Value const& fields) noexcept :
+    object<RefCount>::object(rapidjson::Value const& fields) :
       elems(static_cast<uint32_t>(fields.MemberCount()))
     {
       using sorter = std::vector<rapidjson::Value::ConstMemberIterator>;
-- 
2.43.0


From cbd6608c1aac9ca8652788f49f138543ba2cc809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 15/43] fix: release storage exactly once when a reference
 counter fails to take it

std::shared_ptr deletes the pointer it was given if its constructor throws, the
library counters did not, and callers assumed both: running out of memory leaked or
double freed. All counters now behave like std::shared_ptr.
---
 include/dart/buffer/detail.tcc |  6 +++---
 include/dart/refcount_traits.h |  9 ++-------
 include/dart/support/ptrs.h    | 17 +++++++++++++----
 include/dart/support/ptrs.tcc  |  5 +++--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/dart/buffer/detail.tcc b/include/dart/buffer/detail.tcc
index 372a50e..972c3e5 100644
--- a/include/dart/buffer/detail.tcc
+++ b/include/dart/buffer/detail.tcc
@@ -46,9 +46,9 @@ namespace dart {
     // This whole business is necessary to allow std::unique_ptr<gsl::byte const[]>
     // to convert to std::shared_ptr<gsl::byte const>, which the STL doesn't define
     // a conversion for, but is convenient for this library.
-    buffer_ref_type tmp(ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
-    return tmp;
+    // Reference counters take ownership even if they fail to, so the pointer must be released first.
+    auto* owned = ptr.release();
+    return buffer_ref_type(owned, std::move(ptr.get_deleter()));
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/refcount_traits.h b/include/dart/refcount_traits.h
index b3027ed..de7cf9e 100644
--- a/include/dart/refcount_traits.h
+++ b/include/dart/refcount_traits.h
@@ -32,13 +32,8 @@ namespace dart {
         >
       >
       static void perform(T* that, Args&&... the_args) {
-        auto* owner = new typename T::element_type(std::forward<Args>(the_args)...);
-        try {
-          new(that) T(owner);
-        } catch (...) {
-          delete owner;
-          throw;
-        }
+        // Like std::shared_ptr, the reference counter owns the pointer even if its constructor throws.
+        new(that) T(new typename T::element_type(std::forward<Args>(the_args)...));
       }
 
     };
diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index 423d174..f848a22 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -72,13 +72,22 @@ namespace dart {
 
         counted_ptr_base() noexcept : value(nullptr) {}
         counted_ptr_base(std::nullptr_t) noexcept : value(nullptr) {}
-        explicit counted_ptr_base(ptr_type<T> ptr) :
+        explicit counted_ptr_base(ptr_type<T> ptr) try :
           value(new managed_ptr_eraser<counter_type, ptr_type<T>, managed_ptr_deleter<ptr_type<T>>>(ptr, 1))
-        {}
+        {
+        } catch (...) {
+          // Same guarantee as std::shared_ptr, ownership is taken even if construction fails.
+          managed_ptr_deleter<ptr_type<T>> {}(ptr);
+          throw;
+        }
         template <class Deleter>
-        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) :
+        counted_ptr_base(ptr_type<T> ptr, Deleter&& deleter) try :
           value(new managed_ptr_eraser<counter_type, ptr_type<T>, Deleter>(ptr, 1, std::move(deleter)))
-        {}
+        {
+        } catch (...) {
+          deleter(ptr);
+          throw;
+        }
         template <class U, class EnableIf =
           std::enable_if_t<
             std::is_convertible<ptr_type<U>, ptr_type<T>>::value
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 9ad51bf..8c438ea 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -245,8 +245,9 @@ namespace dart {
   shareable_ptr<T>::shareable_ptr(std::unique_ptr<U, D>&& ptr)
     noexcept(refcount_traits<T>::template can_nothrow_take<U*, D>::value)
   {
-    refcount_traits<T>::take(&impl, ptr.get(), std::move(ptr.get_deleter()));
-    ptr.release();
+    // Reference counters take ownership even if they fail to, so the pointer must be released first.
+    auto* owned = ptr.release();
+    refcount_traits<T>::take(&impl, owned, std::move(ptr.get_deleter()));
   }
 
   template <class T>
-- 
2.43.0


From 29a04cbe1eb99b4c6129088f44f9de1df7a0a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 16/43] fix: order in-place mutation after the releases that
 made it exclusive

The use count of a std::shared_ptr is read relaxed, so a mutation that follows a
successful uniqueness check raced with the last reads of the threads that dropped
their references.
---
 include/dart/heap/detail.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dart/heap/detail.tcc b/include/dart/heap/detail.tcc
index 9474205..798a360 100644
--- a/include/dart/heap/detail.tcc
+++ b/include/dart/heap/detail.tcc
@@ -57,6 +57,10 @@ namespace dart {
     if (refcount() > overcount) {
       if (is_object()) data = fields_type(new packet_fields(get_fields()));
       else if (is_array()) data = elements_type(new packet_elements(get_elements()));
+    } else {
+      // We're about to modify storage that other threads may have been reading until they released it,
+      // and reading a use count needn't synchronize with those releases.
+      std::atomic_thread_fence(std::memory_order_acquire);
     }
   }
 
-- 
2.43.0


From 3a7798cbfce70799b93e34203f9bdcf9ab04df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 17/43] fix: define the optional accessors declared by buffer

---
 include/dart/buffer/primitive.tcc | 20 ++++++++++++++++++++
 include/dart/buffer/string.tcc    | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index 858fea8..e72f268 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return detail::integer_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  int64_t basic_buffer<RefCount>::integer_or(int64_t opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_integer, &basic_buffer::integer);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::decimal() const {
     return detail::decimal_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::decimal_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_decimal, &basic_buffer::decimal);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::numeric() const {
     switch (get_type()) {
@@ -31,11 +41,21 @@ namespace dart {
     }
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::numeric_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_numeric, &basic_buffer::numeric);
+  }
+
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
     return detail::get_primitive<bool>(raw)->get_data();
   }
 
+  template <template <class> class RefCount>
+  bool basic_buffer<RefCount>::boolean_or(bool opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_boolean, &basic_buffer::boolean);
+  }
+
 }
 
 #endif
diff --git a/include/dart/buffer/string.tcc b/include/dart/buffer/string.tcc
index 72ecf7d..2761c69 100644
--- a/include/dart/buffer/string.tcc
+++ b/include/dart/buffer/string.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return strv().data();
   }
 
+  template <template <class> class RefCount>
+  char const* basic_buffer<RefCount>::str_or(char const* opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::str);
+  }
+
   template <template <class> class RefCount>
   shim::string_view basic_buffer<RefCount>::strv() const {
     return detail::string_deref([] (auto& val) { return val.get_strv(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  shim::string_view basic_buffer<RefCount>::strv_or(shim::string_view opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::strv);
+  }
+
 }
 
 #endif
-- 
2.43.0


From ea0b84e4efdde5c79a9ec142e84b12d33a563a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 18/43] fix: basic_object::project did not compile

---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 9e93d67..1084621 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -129,13 +129,13 @@ namespace dart {
 
   template <class Object>
   basic_object<Object> basic_object<Object>::project(std::initializer_list<shim::string_view> keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
   template <class StringSpan, class EnableIf>
   basic_object<Object> basic_object<Object>::project(StringSpan const& keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
-- 
2.43.0


From 07b0abaf5fb7845e30bbc93c7feba116536a95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 19/43] fix: make_shareable destroyed a reference counter that
 was never constructed

If constructing the reference counter threw, its destructor ran on uninitialized memory.
---
 include/dart/support/ptrs.h   | 6 +++++-
 include/dart/support/ptrs.tcc | 4 +---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/ptrs.h b/include/dart/support/ptrs.h
index f848a22..ffe2c89 100644
--- a/include/dart/support/ptrs.h
+++ b/include/dart/support/ptrs.h
@@ -374,7 +374,11 @@ namespace dart {
 
       /*----- Private Lifecycle Functions -----*/
 
-      shareable_ptr(partial_construction_tag) {}
+      // If the reference counter throws, destructor isn't run and nothing is released twice.
+      template <class... Args>
+      shareable_ptr(partial_construction_tag, Args&&... the_args) {
+        refcount_traits<T>::construct(&impl, std::forward<Args>(the_args)...);
+      }
 
       /*----- Private Members -----*/
 
diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 8c438ea..764f3a9 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -435,9 +435,7 @@ namespace dart {
 
   template <class T, class... Args>
   shareable_ptr<T> make_shareable(Args&&... the_args) {
-    shareable_ptr<T> ptr(typename shareable_ptr<T>::partial_construction_tag {});
-    refcount_traits<T>::construct(&ptr.impl, std::forward<Args>(the_args)...);
-    return ptr;
+    return shareable_ptr<T>(typename shareable_ptr<T>::partial_construction_tag {}, std::forward<Args>(the_args)...);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 08e9eccd10ed6685b3d004770e23ab1eb5af7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 20/43] fix: boolean() on a finalized number reinterpreted its
 bytes instead of throwing

---
 include/dart/buffer/primitive.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index e72f268..e2d0c3e 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -48,7 +48,8 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
-    return detail::get_primitive<bool>(raw)->get_data();
+    if (is_boolean()) return detail::get_primitive<bool>(raw)->get_data();
+    else throw type_error("dart::buffer has no boolean value");
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From 76e4972d4db45c89d45186883b4e91f8a2689e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 21/43] fix: compare strings with embedded NULs by length, not
 up to the first NUL

---
 include/dart/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.h b/include/dart/common.h
index c365d34..75a53ec 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -307,7 +307,7 @@ namespace dart {
     struct dynamic_string_layout {
       bool operator ==(dynamic_string_layout const& other) const noexcept {
         if (len != other.len) return false;
-        else return !strcmp(ptr.get(), other.ptr.get());
+        else return !memcmp(ptr.get(), other.ptr.get(), len);
       }
       bool operator !=(dynamic_string_layout const& other) const noexcept {
         return !(*this == other);
@@ -319,7 +319,7 @@ namespace dart {
     struct inline_string_layout {
       bool operator ==(inline_string_layout const& other) const noexcept {
         if (left != other.left) return false;
-        else return !strcmp(buffer.data(), other.buffer.data());
+        else return !memcmp(buffer.data(), other.buffer.data(), buffer.size() - left);
       }
       bool operator !=(inline_string_layout const& other) const noexcept {
         return !(*this == other);
-- 
2.43.0


From ee24f6f96bc757201fb70363f64170e0837d39a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 22/43] fix: an absent key no longer compares equal to a null
 value

---
 include/dart/conversion_traits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 8a4c55a..154c08b 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -299,7 +299,9 @@ namespace dart {
               typename std::decay_t<Rhs>::iterator k, v;
               std::tie(k, v) = rhs.kvbegin();
               while (v != rhs.end()) {
-                if (*v != lhs[*k]) return false;
+                // Absent keys read as null, so being absent needs to be distinguished explicitly.
+                auto found = lhs.find((*k).strv());
+                if (found == lhs.end() || *v != *found) return false;
                 ++k, ++v;
               }
               return true;
-- 
2.43.0


From 678611219650076c3cf96c9c368e6200568eddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 23/43] fix: finalized packets parsed from JSON zero their
 padding

---
 include/dart/connector/json.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index acc8322..9a6fd38 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -183,7 +183,10 @@ namespace dart {
 
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
-    auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+    auto bytes = json.size() * 8;
+    auto block = detail::aligned_alloc<RefCount>(bytes, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, bytes, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc);
     });
 
-- 
2.43.0


From 04fb7bf4b5eb760538fb1b86001a98aaa2586691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 24/43] fix: finalized from_json refuses keys its packets
 cannot hold

---
 include/dart/object.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 1084621..ae5cd70 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -255,6 +255,9 @@ namespace dart {
       sorter sorted;
       sorted.reserve(elems);
       for (auto it = fields.MemberBegin(); it != fields.MemberEnd(); ++it) {
+        if (it->name.GetStringLength() > std::numeric_limits<uint16_t>::max()) {
+          throw std::invalid_argument("dart::buffer keys cannot be longer than UINT16_MAX");
+        }
         sorted.push_back(it);
       }
       std::sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
-- 
2.43.0


From 31fe63d10f7ca7bf0f5af949be777cff63bf9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 25/43] fix: finalized from_json keeps the last value of a
 repeated key

---
 include/dart/object.tcc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index ae5cd70..a38ab79 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -266,12 +266,19 @@ namespace dart {
         if (lhs_len == rhs_len) {
           shim::string_view l {lhs->name.GetString(), lhs_len};
           shim::string_view r {rhs->name.GetString(), rhs_len};
+          if (l == r) return lhs > rhs;
           return l < r;
         } else {
           return lhs_len < rhs_len;
         }
       });
 
+      // If a key was repeated, its last value wins, as it does for dart::heap.
+      sorted.erase(std::unique(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
+        return lhs->name == rhs->name;
+      }), sorted.end());
+      elems = static_cast<uint32_t>(sorted.size());
+
       // Iterate over our elements and write each one into the buffer.
       object_entry* entry = vtable();
       size_t offset = reinterpret_cast<gsl::byte*>(&vtable()[elems]) - DART_FROM_THIS_MUT;
-- 
2.43.0


From 6167d2948ec646ed651d5c689ef076fad5075135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 26/43] fix: projecting a packet which repeats a key keeps at
 most one pair per requested key

---
 include/dart/common.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index cb9ddf2..37f7550 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -404,7 +404,9 @@ namespace dart {
           } else if (!comp(in_key, base_key)) {
             // Current key is equal to our current key pointer, and must
             // be contained within the project. Pass it along.
+            // Each requested key yields at most one pair, even if the object repeats it.
             cb(*base_keys++, *base_vals++);
+            break;
           } else {
             // Current key is greater than our current key pointer.
             // Key may be contained within the projection, move to the
-- 
2.43.0


From eefad178b6589ff8405fafa9aac2427f3667fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 27/43] fix: C functions which fail to construct their result
 leave a value that can be destroyed

---
 src/buffer.cc  | 20 +++++++++----------
 src/generic.cc | 52 +++++++++++++++++++++++++-------------------------
 src/heap.cc    | 20 +++++++++----------
 src/helpers.h  | 23 ++++++++++++++++++++++
 4 files changed, 69 insertions(+), 46 deletions(-)

diff --git a/src/buffer.cc b/src/buffer.cc
index ff56675..5c39454 100644
--- a/src/buffer.cc
+++ b/src/buffer.cc
@@ -223,7 +223,7 @@ extern "C" {
   dart_err_t dart_buffer_copy_err(dart_buffer_t* dst, dart_buffer_t const* src) {
     // Initialize.
     dst->rtti = src->rtti;
-    return buffer_access(
+    return ensure_constructed(buffer_access(
       compose(
         [dst] (dart::buffer const& src) {
           return buffer_construct([&src] (dart::buffer* dst) { new(dst) dart::buffer(src); }, dst);
@@ -233,7 +233,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_buffer_t dart_buffer_move(dart_buffer_t* src) {
@@ -246,7 +246,7 @@ extern "C" {
   dart_err_t dart_buffer_move_err(dart_buffer_t* dst, dart_buffer_t* src) {
     // Initialize.
     dst->rtti = src->rtti;
-    return buffer_access(
+    return ensure_constructed(buffer_access(
       compose(
         [dst] (dart::buffer& src) {
           return buffer_construct([&src] (dart::buffer* dst) { new(dst) dart::buffer(std::move(src)); }, dst);
@@ -256,7 +256,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_buffer_destroy(dart_buffer_t* dst) {
@@ -299,7 +299,7 @@ extern "C" {
   dart_err_t dart_buffer_obj_get_len_err(dart_buffer_t* dst, dart_buffer_t const* src, char const* key, size_t len) {
     // Initialize.
     dst->rtti = src->rtti;
-    return buffer_access(
+    return ensure_constructed(buffer_access(
       compose(
         [=] (dart::buffer const& src) {
           return buffer_construct([&] (dart::buffer* dst) {
@@ -313,7 +313,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_buffer_t dart_buffer_arr_get(dart_buffer_t const* src, size_t idx) {
@@ -326,7 +326,7 @@ extern "C" {
   dart_err_t dart_buffer_arr_get_err(dart_buffer_t* dst, dart_buffer_t const* src, size_t idx) {
     // Initialize.
     dst->rtti = src->rtti;
-    return buffer_access(
+    return ensure_constructed(buffer_access(
       compose(
         [=] (dart::buffer const& src) {
           return buffer_construct([&] (dart::buffer* dst) {
@@ -340,7 +340,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   char const* dart_buffer_str_get(dart_buffer_t const* src) {
@@ -496,7 +496,7 @@ extern "C" {
   dart_err_t dart_buffer_lift_err(dart_heap_t* dst, dart_buffer_t const* src) {
     // Initialize.
     dst->rtti = {DART_HEAP, src->rtti.rc_id};
-    return buffer_access(
+    return ensure_constructed(buffer_access(
       compose(
         [dst] (dart::buffer const& src) {
           heap_construct([&src] (dart::heap* dst) { new(dst) dart::heap(src.lift()); }, dst);
@@ -506,7 +506,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_heap_t dart_buffer_definalize(dart_buffer_t const* src) {
diff --git a/src/generic.cc b/src/generic.cc
index 5d0b574..4e19208 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -38,19 +38,19 @@ namespace {
   dart_err_t dart_copy_err_impl(void* dst, void const* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) { return generic_construct([&src] (auto* dst) { safe_construct(dst, src); }, dst); },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_move_err_impl(void* dst, void* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) { return generic_construct([&src] (auto* dst) { safe_construct(dst, std::move(src)); }, dst); },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_obj_insert_dart_len_impl(void* dst, char const* key, size_t len, void const* val) {
@@ -339,28 +339,28 @@ namespace {
     // Initialize.
     dart_rc_propagate(dst, src);
     dst->rtti.p_id = DART_PACKET;
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) {
         return packet_construct([=, &src] (auto* dst) {
           safe_construct(dst, src.get({key, len}));
         }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_arr_get_err_impl(dart_packet_t* dst, void const* src, size_t idx) {
     // Initialize.
     dart_rc_propagate(dst, src);
     dst->rtti.p_id = DART_PACKET;
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) {
         return packet_construct([=, &src] (auto* dst) {
           safe_construct(dst, src.get(idx));
         }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   char const* dart_str_get_len_impl(void const* src, size_t* len) {
@@ -448,49 +448,49 @@ namespace {
   dart_err_t dart_to_heap_err_impl(dart_heap_t* dst, void const* src) {
     dart_rc_propagate(dst, src);
     dst->rtti.p_id = DART_HEAP;
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) {
         auto tmp {src};
         return heap_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lift()); }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_to_buffer_err_impl(dart_buffer_t* dst, void const* src) {
     dart_rc_propagate(dst, src);
     dst->rtti.p_id = DART_BUFFER;
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) {
         auto tmp {src};
         return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lift()); }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_lower_err_impl(dart_packet_t* dst, void const* src) {
     dart_rc_propagate(dst, src);
     dst->rtti.p_id = DART_PACKET;
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) {
         auto tmp {src};
         return generic_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lower()); }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_lift_err_impl(dart_packet_t* dst, void const* src) {
     dart_rc_propagate(dst, src);
     dst->rtti.p_id = DART_PACKET;
-    return generic_access(
+    return ensure_constructed(generic_access(
       [=] (auto& src) {
         auto tmp {src};
         return generic_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lift()); }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   void const* dart_get_bytes_impl(void const* src, size_t* len) {
@@ -570,7 +570,7 @@ namespace {
   dart_err_t dart_iterator_init_from_err_impl(dart_iterator_t* dst, void const* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return generic_access(
+    return ensure_constructed(generic_access(
       [dst] (auto& src) {
         using iterator = typename std::decay_t<decltype(src)>::iterator;
         return iterator_construct([&src] (iterator* begin, iterator* end) {
@@ -579,13 +579,13 @@ namespace {
         }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_iterator_init_key_from_err_impl(dart_iterator_t* dst, void const* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return generic_access(
+    return ensure_constructed(generic_access(
       [dst] (auto& src) {
         using iterator = typename std::decay_t<decltype(src)>::iterator;
         return iterator_construct([&src] (iterator* begin, iterator* end) {
@@ -594,13 +594,13 @@ namespace {
         }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_iterator_copy_err_impl(dart_iterator_t* dst, dart_iterator_t const* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return iterator_access(
+    return ensure_constructed(iterator_access(
       [dst] (auto& src_curr, auto& src_end) {
         using type = std::decay_t<decltype(src_curr)>;
         return iterator_construct([&src_curr, &src_end] (type* dst_curr, type* dst_end) {
@@ -609,13 +609,13 @@ namespace {
         }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_iterator_move_err_impl(dart_iterator_t* dst, dart_iterator_t* src) {
     // Initialize.
     dart_rtti_propagate(dst, src);
-    return iterator_access(
+    return ensure_constructed(iterator_access(
       [dst] (auto& src_curr, auto& src_end) {
         using type = std::decay_t<decltype(src_curr)>;
         return iterator_construct([&src_curr, &src_end] (type* dst_curr, type* dst_end) {
@@ -624,7 +624,7 @@ namespace {
         }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_iterator_destroy_impl(dart_iterator_t* dst) {
@@ -639,7 +639,7 @@ namespace {
     // Initialize.
     dst->rtti.p_id = DART_PACKET;
     dart_rc_propagate(dst, src);
-    return iterator_access(
+    return ensure_constructed(iterator_access(
       [dst] (auto& src_curr, auto& src_end) {
         // XXX: Yikes.
         // For the sake of simplicity (this API is already huge), the ABI iterator API always
@@ -654,7 +654,7 @@ namespace {
         return packet_construct([&src_curr] (type* dst) { new(dst) type(*src_curr); }, dst);
       },
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_iterator_next_impl(dart_iterator_t* dst) {
diff --git a/src/heap.cc b/src/heap.cc
index e49e273..2dc6705 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -575,7 +575,7 @@ extern "C" {
   dart_err_t dart_heap_copy_err(dart_heap_t* dst, dart_heap_t const* src) {
     // Initialize.
     dst->rtti = src->rtti;
-    return heap_access(
+    return ensure_constructed(heap_access(
       compose(
         [dst] (dart::heap const& src) {
           return heap_construct([&src] (dart::heap* dst) { new(dst) dart::heap(src); }, dst);
@@ -585,7 +585,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_heap_t dart_heap_move(dart_heap_t* src) {
@@ -598,7 +598,7 @@ extern "C" {
   dart_err_t dart_heap_move_err(dart_heap_t* dst, dart_heap_t* src) {
     // Initialize.
     dst->rtti = src->rtti;
-    return heap_access(
+    return ensure_constructed(heap_access(
       compose(
         [dst] (dart::heap& src) {
           return heap_construct([&src] (dart::heap* dst) { new(dst) dart::heap(std::move(src)); }, dst);
@@ -608,7 +608,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_heap_destroy(dart_heap_t* dst) {
@@ -1192,7 +1192,7 @@ extern "C" {
   dart_err_t dart_heap_obj_get_len_err(dart_heap_t* dst, dart_heap_t const* src, char const* key, size_t len) {
     // Initialize.
     dst->rtti = src->rtti;
-    return heap_access(
+    return ensure_constructed(heap_access(
       compose(
         [=] (dart::heap const& src) {
           return heap_construct([&] (dart::heap* dst) {
@@ -1206,7 +1206,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_heap_t dart_heap_arr_get(dart_heap_t const* src, size_t idx) {
@@ -1219,7 +1219,7 @@ extern "C" {
   dart_err_t dart_heap_arr_get_err(dart_heap_t* dst, dart_heap_t const* src, size_t idx) {
     // Initialize.
     dst->rtti = src->rtti;
-    return heap_access(
+    return ensure_constructed(heap_access(
       compose(
         [=] (dart::heap const& src) {
           return heap_construct([&] (dart::heap* dst) {
@@ -1233,7 +1233,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   char const* dart_heap_str_get(dart_heap_t const* src) {
@@ -1395,7 +1395,7 @@ extern "C" {
   dart_err_t dart_heap_lower_err(dart_buffer_t* dst, dart_heap_t const* src) {
     // Initialize.
     dst->rtti = {DART_BUFFER, src->rtti.rc_id};
-    return heap_access(
+    return ensure_constructed(heap_access(
       compose(
         [dst] (dart::heap const& src) {
           buffer_construct([&src] (dart::buffer* dst) { new(dst) dart::buffer(src.lower()); }, dst);
@@ -1405,7 +1405,7 @@ extern "C" {
         }
       ),
       src
-    );
+    ), dst);
   }
 
   dart_err_t dart_heap_finalize_err(dart_buffer_t* dst, dart_heap_t const* src) {
diff --git a/src/helpers.h b/src/helpers.h
index 7a7b213..3f984c8 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -616,6 +616,29 @@ namespace {
     return DART_UNKNOWN_ERROR;
   }
 
+  // Callers are entitled to destroy whatever a failed call leaves behind, so a destination
+  // which could not be initialized as requested must still hold something destructible.
+  template <class Pkt>
+  dart_err_t ensure_constructed(dart_err_t err, Pkt* dst) noexcept {
+    if (err) {
+      err_handler([=] {
+        return generic_construct([] (auto* ptr) { new(ptr) std::decay_t<decltype(*ptr)>(); }, dst);
+      });
+    }
+    return err;
+  }
+  inline dart_err_t ensure_constructed(dart_err_t err, dart_iterator_t* dst) noexcept {
+    if (err) {
+      err_handler([=] {
+        return iterator_construct([] (auto* begin, auto* end) {
+          new(begin) std::decay_t<decltype(*begin)>();
+          new(end) std::decay_t<decltype(*end)>();
+        }, dst);
+      });
+    }
+    return err;
+  }
+
   // Converts from a C pointer to the underlying strongly typed C++ object
   // expects to take a generic lambda which supports all possible types.
   template <class Func, class Ptr>
-- 
2.43.0


From f1802d810685319b6d5968ef37e25f28f23ddb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 28/43] fix: the C functions which print JSON report running
 out of memory

---
 src/buffer.cc  | 1 +
 src/generic.cc | 1 +
 src/heap.cc    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/buffer.cc b/src/buffer.cc
index 5c39454..06b03ff 100644
--- a/src/buffer.cc
+++ b/src/buffer.cc
@@ -123,6 +123,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = buffer_access(
diff --git a/src/generic.cc b/src/generic.cc
index 4e19208..36b67ea 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -437,6 +437,7 @@ namespace {
         auto inlen = instr.size();
         if (len) *len = inlen;
         outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+        if (!outstr) throw std::bad_alloc();
         memcpy(outstr, instr.data(), inlen + 1);
       },
       src
diff --git a/src/heap.cc b/src/heap.cc
index 2dc6705..e95d6b7 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -516,6 +516,7 @@ namespace {
       auto inlen = instr.size();
       if (len) *len = inlen;
       outstr = reinterpret_cast<char*>(malloc(inlen + 1));
+      if (!outstr) throw std::bad_alloc();
       memcpy(outstr, instr.data(), inlen + 1);
     };
     auto ret = heap_access(
-- 
2.43.0


From 9f53b7c448601a8d0f25afa3b9515c2074d099b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 29/43] fix: dart_to_buffer finalizes its argument instead of
 lifting it

---
 src/generic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generic.cc b/src/generic.cc
index 36b67ea..9554f4f 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -464,7 +464,7 @@ namespace {
     return ensure_constructed(generic_access(
       [=] (auto& src) {
         auto tmp {src};
-        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lift()); }, dst);
+        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lower()); }, dst);
       },
       src
     ), dst);
-- 
2.43.0


From 91e7f99d77d29207d238549048e159aed71c1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 30/43] fix: variadic C initializers which fail part way do not
 leak what they had built

---
 src/generic.cc | 20 ++++++++++++--------
 src/heap.cc    | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 9554f4f..4291b03 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -777,12 +777,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::packet::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::unsafe_packet::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
@@ -860,12 +862,14 @@ extern "C" {
     return packet_typed_constructor_access(
       compose(
         [format, args] (dart::packet& dst) mutable {
-          dst = dart::packet::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::packet::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_packet& dst) mutable {
-          dst = dart::unsafe_packet::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::unsafe_packet::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
diff --git a/src/heap.cc b/src/heap.cc
index e95d6b7..88a61f4 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -657,12 +657,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::heap::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_object();
-          parse_pairs(dst, format, args);
+          auto tmp = dart::unsafe_heap::make_object();
+          parse_pairs(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
@@ -740,12 +742,14 @@ extern "C" {
     return heap_typed_constructor_access(
       compose(
         [format, args] (dart::heap& dst) mutable {
-          dst = dart::heap::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::heap::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         },
         [format, args] (dart::unsafe_heap& dst) mutable {
-          dst = dart::unsafe_heap::make_array();
-          parse_vals(dst, format, args);
+          auto tmp = dart::unsafe_heap::make_array();
+          parse_vals(tmp, format, args);
+          dst = std::move(tmp);
         }
       ),
       dst,
-- 
2.43.0


From 2b1e90dcf208f25a5410ddd12e0601a952e0f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 31/43] fix: dart_for_each over a value which cannot be
 iterated does not destroy an uninitialized value

---
 include/dart/abi.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/abi.h b/include/dart/abi.h
index 2cac295..2c35bda 100644
--- a/include/dart/abi.h
+++ b/include/dart/abi.h
@@ -54,7 +54,8 @@
 #define DART_FOR_EACH_IMPL(aggr, value, it_func, it_name, err_name)                         \
   dart_iterator_t it_name;                                                                  \
   dart_err_t err_name = it_func(&it_name, aggr);                                            \
-  err_name = (err_name) ? err_name : dart_iterator_get_err(value, &it_name);                \
+  err_name = (err_name) ? (dart_init_err(value), err_name)                                  \
+                        : dart_iterator_get_err(value, &it_name);                           \
   for (; !dart_iterator_done_destroy(&it_name, value) && err_name == DART_NO_ERROR;         \
           err_name = (dart_iterator_next(&it_name),                                         \
                       dart_destroy(value),                                                  \
-- 
2.43.0


From 3605e3ff32a6e27bdaa4bb24b2efd4067a68c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 32/43] fix: the C functions which take a value leave it null

---
 src/generic.cc | 12 ++++++++----
 src/heap.cc    | 16 ++++++++++++----
 src/helpers.h  |  8 ++++++++
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 4291b03..bd8e434 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -71,7 +71,7 @@ namespace {
       mutable_visitor(
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
-            safe_insert(dst, string_view {key, len}, std::move(val));
+            take(val, [&] (auto&& val) { safe_insert(dst, string_view {key, len}, std::move(val)); });
           }, val);
         }
       ),
@@ -132,7 +132,7 @@ namespace {
       mutable_visitor(
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
-            safe_set(dst, string_view {key, len}, std::move(val));
+            take(val, [&] (auto&& val) { safe_set(dst, string_view {key, len}, std::move(val)); });
           }, val);
         }
       ),
@@ -201,7 +201,9 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_insert(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            take(val, [&] (auto&& val) { safe_insert(dst, idx, std::move(val)); });
+          }, val);
         }
       ),
       dst
@@ -258,7 +260,9 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_set(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) {
+            take(val, [&] (auto&& val) { safe_set(dst, idx, std::move(val)); });
+          }, val);
         }
       ),
       dst
diff --git a/src/heap.cc b/src/heap.cc
index 88a61f4..df15993 100644
--- a/src/heap.cc
+++ b/src/heap.cc
@@ -31,7 +31,9 @@ namespace {
   }
 
   dart_err_t dart_heap_obj_insert_take_heap_len_impl(dart_heap_t* dst, char const* key, size_t len, dart_heap_t* val) {
-    auto insert = [=] (auto& dst, auto& val) { dst.insert(string_view {key, len}, std::move(val)); };
+    auto insert = [=] (auto& dst, auto& val) {
+      take(val, [&] (auto&& val) { dst.insert(string_view {key, len}, std::move(val)); });
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
@@ -116,7 +118,9 @@ namespace {
   }
 
   dart_err_t dart_heap_obj_set_take_heap_len_impl(dart_heap_t* dst, char const* key, size_t len, dart_heap_t* val) {
-    auto set = [=] (auto& dst, auto& val) { dst.set(string_view {key, len}, std::move(val)); };
+    auto set = [=] (auto& dst, auto& val) {
+      take(val, [&] (auto&& val) { dst.set(string_view {key, len}, std::move(val)); });
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
@@ -216,7 +220,9 @@ namespace {
   }
 
   dart_err_t dart_heap_arr_insert_take_heap_impl(dart_heap_t* dst, size_t idx, dart_heap_t* val) {
-    auto insert = [=] (auto& dst, auto& val) { dst.insert(idx, std::move(val)); };
+    auto insert = [=] (auto& dst, auto& val) {
+      take(val, [&] (auto&& val) { dst.insert(idx, std::move(val)); });
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
@@ -301,7 +307,9 @@ namespace {
   }
 
   dart_err_t dart_heap_arr_set_take_heap_impl(dart_heap_t* dst, size_t idx, dart_heap_t* val) {
-    auto set = [=] (auto& dst, auto& val) { dst.set(idx, std::move(val)); };
+    auto set = [=] (auto& dst, auto& val) {
+      take(val, [&] (auto&& val) { dst.set(idx, std::move(val)); });
+    };
     return heap_access(
       compose(
         [=] (dart::heap& dst) {
diff --git a/src/helpers.h b/src/helpers.h
index 3f984c8..34d3fe3 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -228,6 +228,14 @@ namespace {
     );
   }
 
+  // The "take" functions promise to leave the value they were given null,
+  // but not every conversion consumes the value it's moved from.
+  template <class Value, class Func>
+  void take(Value& val, Func&& cb) {
+    cb(std::move(val));
+    val = Value {};
+  }
+
   template <class Packet, class Value>
   void safe_assign_impl(Packet&, Value&&, std::false_type) {
     throw dart::type_error("Unsupported packet assignment requested");
-- 
2.43.0


From 5736f4fc801b999818554b8045dbe4eb91de6c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 33/43] fix: dart::heap refuses a span with an odd number of
 keys and values

---
 include/dart/heap/object.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/heap/object.tcc b/include/dart/heap/object.tcc
index bf08c94..c37ef4a 100644
--- a/include/dart/heap/object.tcc
+++ b/include/dart/heap/object.tcc
@@ -276,6 +276,9 @@ namespace dart {
   void basic_heap<RefCount>::inject_pairs(basic_heap& obj, Span pairs) {
     // Validate that what we're being asked to do makes sense.
     if (!obj.is_object()) throw type_error("dart::heap is not an object and cannot inject key-value pairs");
+    if (pairs.size() % 2) {
+      throw std::invalid_argument("dart::heap objects can only be constructed from a sequence of key-value PAIRS");
+    }
 
     // Insert each of the requested pairs.
     auto end = std::end(pairs);
-- 
2.43.0


From 45bb0eac783f91d6b05b25e25ea50224d6d0fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 34/43] fix: JSON integers past the signed range are decimals
 in the mutable form too

---
 include/dart/connector/json.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 9a6fd38..89612a5 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -384,6 +384,8 @@ namespace dart {
 
     template <template <class> class RefCount>
     bool heap_parser<RefCount>::Uint64(uint64_t num) {
+      // Anything too large for an integer is a decimal, just as it is in the finalized form.
+      if (num > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) return Double(static_cast<double>(num));
       return Int64(num);
     }
 
-- 
2.43.0


From ba1e5258fc703efc9d0e084580dbbc7096212243 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:32:52 +0000
Subject: [PATCH 35/43] fix: at() by a handle key compiles: it asked the key
 for at_type()

---
 include/dart/buffer/api.tcc | 4 ++--
 include/dart/heap/api.tcc   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 134be9f..54e2e1a 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount> basic_buffer<RefCount>::at(KeyType const& identifier) const& {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
@@ -230,7 +230,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at(KeyType const& identifier) && {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return std::move(*this).at(identifier.strv());
       case type::integer:
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index a35305c..c7b29ed 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -396,7 +396,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_heap<RefCount> basic_heap<RefCount>::at(KeyType const& identifier) const {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
-- 
2.43.0


From f5205f5ab8f837f047cd9ae090b9f9d9b508b49b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 36/43] fix: at, at_front and at_back of an empty value that is
 no array are type errors

---
 include/dart/buffer/array.tcc | 8 ++++----
 include/dart/heap/array.tcc   | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/dart/buffer/array.tcc b/include/dart/buffer/array.tcc
index c2cb324..1b644af 100644
--- a/include/dart/buffer/array.tcc
+++ b/include/dart/buffer/array.tcc
@@ -83,27 +83,27 @@ namespace dart {
 
   template <template <class> class RefCount>
   basic_buffer<RefCount> basic_buffer<RefCount>::at_front() const& {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at front");
+    if (detail::get_array<RefCount>(raw)->size() == 0) throw std::out_of_range("dart::buffer is empty and has no value at front");
     else return front();
   }
 
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at_front() && {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at front");
+    if (detail::get_array<RefCount>(raw)->size() == 0) throw std::out_of_range("dart::buffer is empty and has no value at front");
     else return std::move(*this).front();
   }
 
   template <template <class> class RefCount>
   basic_buffer<RefCount> basic_buffer<RefCount>::at_back() const& {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at back");
+    if (detail::get_array<RefCount>(raw)->size() == 0) throw std::out_of_range("dart::buffer is empty and has no value at back");
     else return back();
   }
 
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at_back() && {
-    if (empty()) throw std::out_of_range("dart::buffer is empty and has no value at back");
+    if (detail::get_array<RefCount>(raw)->size() == 0) throw std::out_of_range("dart::buffer is empty and has no value at back");
     else return std::move(*this).back();
   }
 
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 5423b87..44d440c 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -185,19 +185,20 @@ namespace dart {
 
   template <template <class> class RefCount>
   basic_heap<RefCount> basic_heap<RefCount>::at(size_type index) const {
-    if (index < size()) return get_elements()[index];
+    auto& elems = get_elements();
+    if (index < elems.size()) return elems[index];
     else throw std::out_of_range("dart::heap does not contain requested index");
   }
 
   template <template <class> class RefCount>
   basic_heap<RefCount> basic_heap<RefCount>::at_front() const {
-    if (empty()) throw std::out_of_range("dart::heap is empty and has no value at front");
+    if (get_elements().empty()) throw std::out_of_range("dart::heap is empty and has no value at front");
     else return front();
   }
 
   template <template <class> class RefCount>
   basic_heap<RefCount> basic_heap<RefCount>::at_back() const {
-    if (empty()) throw std::out_of_range("dart::heap is empty and has no value at back");
+    if (get_elements().empty()) throw std::out_of_range("dart::heap is empty and has no value at back");
     else return back();
   }
 
-- 
2.43.0


From 9edd93fb0226fcd4f698172a1db513733daf8dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 37/43] fix: comparing an integral_constant with a buffer or
 view compiles: it cast the constant to a type that cannot be made

---
 include/dart/conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index ba22069..da03b5b 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -1583,7 +1583,7 @@ namespace dart {
       // Equality
       template <class Packet>
       bool compare(Packet const& pkt, std::integral_constant<T, val>) {
-        return pkt == convert::cast<Packet>(val);
+        return pkt == val;
       }
     };
 
-- 
2.43.0


From 520f14aa1bb960aa2e5a2042ae953f003c7015be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 38/43] fix: comparing lists and maps with values reads what is
 there: no step past a short forward_list, no match for absent keys or fewer
 keys, no throw for keys that are no strings

---
 include/dart/conversions.h | 104 ++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 64 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index da03b5b..6be3ca5 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -64,37 +64,40 @@ namespace dart {
         }
       };
 
-      template <class Packet, class Map, class Callback>
-      bool generic_map_compare_impl(Packet const& pkt, Map const& map, Callback&& cb) {
-        // Lookup into the packet will be much faster if it's finalized,
-        // and the same if not, so iterate over the map.
-        typename Packet::view v = pkt;
-        for (auto& pair : map) {
-          auto val = cb(v, pair.first);
-          if (val != pair.second) return false;
-        }
-        return true;
+      // Finds the field a native key names, if there is one.
+      template <class Packet, class View, class Key>
+      auto generic_map_find(View const& v, Key const& key, std::true_type) {
+        return v.find(shim::string_view {key});
       }
 
-      // General case of comparing a Dart type against a std map.
-      template <class Packet, class Map>
-      bool generic_map_compare(Packet const& pkt, Map const& map, std::true_type) {
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[k]; });
-      }
-
-      template <class Packet, class Map>
-      bool generic_map_compare(Packet const& pkt, Map const& map, std::false_type) {
+      template <class Packet, class View, class Key>
+      auto generic_map_find(View const& v, Key const& key, std::false_type) {
         // This is truly unfortunate.
         // The user gave us a map implementation with
         // a key type that IS convertible into a Dart type,
         // but which is NOT convertible into std::string_view
         // which means our only recourse is to create a temporary
         // packet for each key with which to perform the lookup.
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[convert::cast(k)]; });
+        auto tmp = convert::cast<Packet>(key);
+        return tmp.is_str() ? v.find(tmp.strv()) : v.end();
+      }
+
+      // General case of comparing a Dart type against a std map.
+      template <class Packet, class Map, class Lookup>
+      bool generic_map_compare(Packet const& pkt, Map const& map, Lookup lookup) {
+        // Lookup into the packet will be much faster if it's finalized,
+        // and the same if not, so iterate over the map.
+        typename Packet::view v = pkt;
+        for (auto& pair : map) {
+          auto it = generic_map_find<Packet>(v, pair.first, lookup);
+          if (it == v.end() || *it != pair.second) return false;
+        }
+        return true;
       }
 
-      template <class Packet, class Map, class Extract, class Next>
-      bool generic_multimap_compare_impl(Packet const& pkt, Map const& map, Extract&& extract, Next&& next) {
+      template <class Packet, class Map, class Lookup, class Next>
+      bool generic_multimap_compare_impl(Packet const& pkt, Map const& map, Lookup lookup, Next&& next) {
+        size_t keys = 0;
         auto end = map.end();
         auto it = map.begin();
         typename Packet::view v = pkt;
@@ -103,7 +106,9 @@ namespace dart {
           auto edge = next(it, end);
           
           // Get the Dart equivalent.
-          auto val = extract(v, it->first);
+          auto found = generic_map_find<Packet>(v, it->first, lookup);
+          if (found == v.end()) return false;
+          auto val = *found;
 
           // Attempt to short-circuit
           if (!val.is_array()) return false;
@@ -115,56 +120,27 @@ namespace dart {
 
           // Skip past all records with this key.
           it = edge;
+          ++keys;
         }
-        return true;
-      }
-
-      template <class Packet, class Key, class Value, class Comp, class Alloc>
-      bool generic_multimap_compare(Packet const& pkt,
-          std::multimap<Key, Value, Comp, Alloc> const& map, std::true_type) {
-        auto extract = [] (auto& v, auto& k) {
-          return v[k];
-        };
-        auto next = [&] (auto& it, auto& end) {
-          return std::upper_bound(it, end, *it, map.value_comp());
-        };
-        return generic_multimap_compare_impl(pkt, map, extract, next);
+        return keys == v.size();
       }
 
-      template <class Packet, class Key, class Value, class Comp, class Alloc>
+      template <class Packet, class Key, class Value, class Comp, class Alloc, class Lookup>
       bool generic_multimap_compare(Packet const& pkt,
-          std::multimap<Key, Value, Comp, Alloc> const& map, std::false_type) {
-        auto extract = [] (auto& v, auto& k) {
-          return v[convert::cast(k)];
-        };
+          std::multimap<Key, Value, Comp, Alloc> const& map, Lookup lookup) {
         auto next = [&] (auto& it, auto& end) {
           return std::upper_bound(it, end, *it, map.value_comp());
         };
-        return generic_multimap_compare_impl(pkt, map, extract, next);
-      }
-
-      template <class Packet, class Key, class Value, class Hash, class Equal, class Alloc>
-      bool generic_multimap_compare(Packet const& pkt,
-          std::unordered_multimap<Key, Value, Hash, Equal, Alloc> const& map, std::true_type) {
-        auto extract = [] (auto& v, auto& k) {
-          return v[k];
-        };
-        auto next = [] (auto& it, auto& end) {
-          return std::find_if(it, end, [&] (auto& e) { return e.first != it->first; });
-        };
-        return generic_multimap_compare_impl(pkt, map, extract, next);
+        return generic_multimap_compare_impl(pkt, map, lookup, next);
       }
 
-      template <class Packet, class Key, class Value, class Hash, class Equal, class Alloc>
+      template <class Packet, class Key, class Value, class Hash, class Equal, class Alloc, class Lookup>
       bool generic_multimap_compare(Packet const& pkt,
-          std::unordered_multimap<Key, Value, Hash, Equal, Alloc> const& map, std::false_type) {
-        auto extract = [] (auto& v, auto& k) {
-          return v[convert::cast(k)];
-        };
+          std::unordered_multimap<Key, Value, Hash, Equal, Alloc> const& map, Lookup lookup) {
         auto next = [] (auto& it, auto& end) {
           return std::find_if(it, end, [&] (auto& e) { return e.first != it->first; });
         };
-        return generic_multimap_compare_impl(pkt, map, extract, next);
+        return generic_multimap_compare_impl(pkt, map, lookup, next);
       }
 
     }
@@ -590,7 +566,7 @@ namespace dart {
         auto it = lst.cbegin();
         typename Packet::view v = pkt;
         for (auto val : v) {
-          if (val != *it) return false;
+          if (it == lst.cend() || val != *it) return false;
           ++it;
         }
         return it == lst.cend();
@@ -653,7 +629,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          (std::is_convertible<Key, shim::string_view>::value || convert::is_castable<Key, Packet>::value)
           &&
           convert::are_comparable<Key, Packet>::value
           &&
@@ -734,7 +710,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          (std::is_convertible<Key, shim::string_view>::value || convert::is_castable<Key, Packet>::value)
           &&
           convert::are_comparable<Key, Packet>::value
           &&
@@ -821,7 +797,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          (std::is_convertible<Key, shim::string_view>::value || convert::is_castable<Key, Packet>::value)
           &&
           convert::are_comparable<Key, Packet>::value
           &&
@@ -903,7 +879,7 @@ namespace dart {
       // Equality
       template <class Packet, class =
         std::enable_if_t<
-          convert::is_castable<Key, Packet>::value
+          (std::is_convertible<Key, shim::string_view>::value || convert::is_castable<Key, Packet>::value)
           &&
           convert::are_comparable<Key, Packet>::value
           &&
-- 
2.43.0


From 84dedfa6744e434e506437b6c935aabca92e6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 39/43] fix: reading a variant reports a failed allocation,
 rather than taking a later alternative for it

---
 include/dart/conversions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 6be3ca5..439afbf 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -1243,6 +1243,9 @@ namespace dart {
         auto opt = [&] () -> shim::optional<Curr> {
           try {
             return convert::cast<Curr>(pkt);
+          } catch (std::bad_alloc const&) {
+            // Says nothing about whether the conversion fits.
+            throw;
           } catch (...) {
             return shim::nullopt;
           }
-- 
2.43.0


From 2a2d5c13660d6a157c5ca5d4b40f00e2be1b0ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 40/43] fix: finalized values that differ only in the sign of a
 zero compare equal, as the same dynamic values do

---
 include/dart/conversion_traits.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 154c08b..fb7a05e 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -209,6 +209,9 @@ namespace dart {
         return TargetPacket {std::forward<Packet>(pkt)};
       }
 
+      template <class Lhs, class Rhs>
+      bool generic_compare(Lhs const& lhs, Rhs const& rhs) noexcept;
+
       // Struct is basically a switch table of different Dart comparison operations
       // where both lhs and rhs are known to be specializations of the same Dart
       // template, even if instantiated with different reference counters.
@@ -260,11 +263,12 @@ namespace dart {
           // Fall back on a comparison of the underlying buffers.
           auto lhs_size = dart::detail::find_sizeof<RefCount>(rawlhs);
           auto rhs_size = dart::detail::find_sizeof<RefCount>(rawrhs);
-          if (lhs_size == rhs_size) {
-            return std::equal(rawlhs.buffer, rawlhs.buffer + lhs_size, rawrhs.buffer);
-          } else {
-            return false;
+          if (lhs_size == rhs_size && std::equal(rawlhs.buffer, rawlhs.buffer + lhs_size, rawrhs.buffer)) {
+            return true;
           }
+
+          // Different bytes can still hold equal values (zeros of either sign are equal).
+          return generic_compare(lhs, rhs);
         }
       };
       template <template <class> class RefCount>
-- 
2.43.0


From 106e1af35064e24d310ce533532e357602030ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:16 +0000
Subject: [PATCH 41/43] fix: typed wrappers honour the flags given to to_json

---
 include/dart/connector/json.tcc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 89612a5..90222f9 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -224,31 +224,31 @@ namespace dart {
   template <class Object>
   template <unsigned flags>
   std::string basic_object<Object>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Array>
   template <unsigned flags>
   std::string basic_array<Array>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class String>
   template <unsigned flags>
   std::string basic_string<String>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Number>
   template <unsigned flags>
   std::string basic_number<Number>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Boolean>
   template <unsigned flags>
   std::string basic_flag<Boolean>::to_json() const {
-    return val.to_json();
+    return val.template to_json<flags>();
   }
 
   template <class Null>
-- 
2.43.0


From 188d7645e2a5ed13310725325b8a84770b9630cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:44 +0000
Subject: [PATCH 42/43] fix: the value of an expiring optional can be taken

value() on an rvalue returned an lvalue where an rvalue reference is declared, and so never compiled.
---
 include/dart/support/optional.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/support/optional.tcc b/include/dart/support/optional.tcc
index fc1f311..8caa848 100644
--- a/include/dart/support/optional.tcc
+++ b/include/dart/support/optional.tcc
@@ -233,13 +233,13 @@ namespace dart {
 
   template <class T>
   auto optional<T>::value() && -> value_type&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
   template <class T>
   auto optional<T>::value() const&& -> value_type const&& {
-    if (*this) return *access();
+    if (*this) return std::move(*access());
     else throw bad_optional_access {};
   }
 
-- 
2.43.0


From 4ec950fea054f06199a5fe90b29cf60c8c75646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:44 +0000
Subject: [PATCH 43/43] fix: owning pointers can be assigned from a pointer
 that what they hold leads to

Move assignment released the old value before reading the new one, so p = std::move(p->next) read freed memory.
---
 include/dart/support/ptrs.tcc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dart/support/ptrs.tcc b/include/dart/support/ptrs.tcc
index 764f3a9..7601efe 100644
--- a/include/dart/support/ptrs.tcc
+++ b/include/dart/support/ptrs.tcc
@@ -92,10 +92,12 @@ namespace dart {
     counted_ptr_base<T, Counter>::operator =(counted_ptr_base<U, Counter>&& other) noexcept {
       if (value == other.value) return *this;
 
+      // Take ownership before releasing what we hold, as releasing it may be what destroys other.
       // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
       // all over the place.
+      counted_ptr_base tmp(std::move(other));
       this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      new(this) counted_ptr_base(std::move(tmp));
       return *this;
     }
 
@@ -113,10 +115,12 @@ namespace dart {
     counted_ptr_base<T, Counter>& counted_ptr_base<T, Counter>::operator =(counted_ptr_base&& other) noexcept {
       if (this == &other) return *this;
 
+      // Take ownership before releasing what we hold, as releasing it may be what destroys other.
       // Defer to destructor and move constructor to keep from copying stateful, easy to screw up, code
       // all over the place.
+      counted_ptr_base tmp(std::move(other));
       this->~counted_ptr_base();
-      new(this) counted_ptr_base(std::move(other));
+      new(this) counted_ptr_base(std::move(tmp));
       return *this;
     }
 
@@ -297,8 +301,10 @@ namespace dart {
     // XXX: If you have a throwing move constructor, you get what you deserve.
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
+    // Take ownership before releasing what we hold, as releasing it may be what destroys other.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
@@ -323,8 +329,10 @@ namespace dart {
     // I'm not allocating to avoid this, and I'm definitely not adding a "valueless by exception" state.
     // Good people don't throw from move constructors.
     if (this == &other) return *this;
+    // Take ownership before releasing what we hold, as releasing it may be what destroys other.
+    shareable_ptr tmp {std::move(other)};
     this->~shareable_ptr();
-    new(this) shareable_ptr(std::move(other));
+    new(this) shareable_ptr(std::move(tmp));
     return *this;
   }
 
-- 
2.43.0

