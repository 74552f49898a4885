From 918a9b3ccbc9a56983c6b0d0974be3c071f668ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 01/55] fix: generate compilable code for recursive messages
 reached through oneofs, nested messages and mixed dependency cycles

A field whose type is an enclosing message was spelled with an undeclared name,
self-referential oneof alternatives were held by value, and breaking one edge of
a dependency cycle emitted the message before its remaining dependencies.
---
 src/protoc-plugin/hpp_generator.cpp | 120 +++++++++++++++++++++++-----
 1 file changed, 98 insertions(+), 22 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f842518..539e8d2 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -553,9 +553,14 @@ struct code_generator {
   }
 
   // NOLINTBEGIN(misc-no-recursion)
-  static void mark_field_recursive(message_descriptor_t &descriptor, std::string_view dep) {
+  static bool is_message_field(const field_descriptor_t &field) {
+    using enum FieldDescriptorProto::Type;
+    return field.proto().type == TYPE_MESSAGE || field.proto().type == TYPE_GROUP;
+  }
+
+  static void mark_field_recursive(message_descriptor_t &descriptor, const message_descriptor_t *dep) {
     for (auto &f : descriptor.fields()) {
-      if (f.cpp_field_type.view() == dep) {
+      if (is_message_field(f) && f.message_field_type_descriptor() == dep) {
         f.is_recursive = true;
       }
     }
@@ -563,8 +568,41 @@ struct code_generator {
       mark_field_recursive(m, dep);
     }
   }
+
+  // A type nested inside `dep` cannot be forward declared, so `descriptor` must be emitted after `dep`.
+  static bool uses_nested_type_of(message_descriptor_t &descriptor, const message_descriptor_t *dep) {
+    const auto is_nested_in_dep = [dep](const message_descriptor_t *scope) {
+      while (scope != nullptr && scope != dep) {
+        scope = scope->parent_message();
+      }
+      return scope == dep;
+    };
+    for (auto &f : descriptor.fields()) {
+      const message_descriptor_t *scope = nullptr;
+      if (is_message_field(f)) {
+        scope = f.message_field_type_descriptor()->parent_message();
+      } else if (f.proto().type == FieldDescriptorProto::Type::TYPE_ENUM) {
+        scope = f.enum_field_type_descriptor()->parent_message();
+      }
+      if (is_nested_in_dep(scope)) {
+        return true;
+      }
+    }
+    return std::ranges::any_of(descriptor.messages(), [dep](auto &m) { return uses_nested_type_of(m, dep); });
+  }
   // NOLINTEND(misc-no-recursion)
 
+  // Emit `descriptor` ahead of `depended`: it then holds `depended` indirectly and only needs its forward declaration.
+  static bool break_dependency(message_descriptor_t &descriptor, message_descriptor_t *depended) {
+    if (!descriptor.dependencies.contains(depended) || uses_nested_type_of(descriptor, depended)) {
+      return false;
+    }
+    descriptor.dependencies.erase(depended);
+    descriptor.forward_messages.insert(depended);
+    mark_field_recursive(descriptor, depended);
+    return true;
+  }
+
   static message_descriptor_t *resolve_repeated_dependency_cycle(std::vector<message_descriptor_t *> &unresolved,
                                                                  message_descriptor_t *depended) {
     std::map<message_descriptor_t *, bool> used_by_messages;
@@ -582,9 +620,7 @@ struct code_generator {
     }
 
     for (auto [m, no_non_repeated_usage] : used_by_messages) {
-      if (!no_non_repeated_usage && !m->is_map_entry()) {
-        m->dependencies.erase(depended);
-        m->forward_messages.insert(depended);
+      if (!no_non_repeated_usage && !m->is_map_entry() && break_dependency(*m, depended)) {
         return m;
       }
     }
@@ -623,9 +659,10 @@ struct code_generator {
         if (std::ranges::find(unresolved, owner) == unresolved.end()) {
           continue;
         }
+        if (!break_dependency(*owner, depended)) {
+          continue;
+        }
         owner->has_recursive_map_field = true;
-        owner->dependencies.erase(depended);
-        owner->forward_messages.insert(depended);
         return owner;
       }
     }
@@ -648,10 +685,19 @@ struct code_generator {
     return nullptr;
   }
 
-  static void resolve_dependency_cycle(message_descriptor_t &descriptor) {
-    auto *dep = *descriptor.dependencies.begin();
-    descriptor.forward_messages.insert(descriptor.dependencies.extract(descriptor.dependencies.begin()));
-    mark_field_recursive(descriptor, dep->cpp_name.view());
+  static void resolve_dependency_cycle(const std::vector<message_descriptor_t *> &unresolved) {
+    for (auto *descriptor : std::ranges::reverse_view{unresolved}) {
+      for (auto *depended : unresolved) {
+        if (break_dependency(*descriptor, depended)) {
+          return;
+        }
+      }
+    }
+    auto &descriptor = *unresolved.back();
+    auto *depended = *descriptor.dependencies.begin();
+    descriptor.dependencies.erase(depended);
+    descriptor.forward_messages.insert(depended);
+    mark_field_recursive(descriptor, depended);
   }
 
   static std::vector<message_descriptor_t *> order_messages(auto messages_view) {
@@ -684,15 +730,11 @@ struct code_generator {
       if (!to_remove.empty()) {
         unresolved_messages.erase(to_remove.begin(), to_remove.end());
       } else {
-        auto *to_be_resolved = resolve_container_dependency_cycle(unresolved_messages);
-        if (to_be_resolved != nullptr) {
-          resolved_messages.push_back(to_be_resolved);
-          auto to_remove = std::ranges::remove(unresolved_messages, to_be_resolved);
-          unresolved_messages.erase(to_remove.begin(), to_remove.end());
-        } else {
+        // Breaking a container edge only lifts that one dependency; the message may still depend on others, so it is
+        // emitted by the loop above once all of them are resolved.
+        if (resolve_container_dependency_cycle(unresolved_messages) == nullptr) {
           std::ranges::sort(unresolved_messages, [](auto lhs, auto rhs) { return lhs->cpp_name < rhs->cpp_name; });
-          auto *x = *(unresolved_messages.rbegin());
-          resolve_dependency_cycle(*x);
+          resolve_dependency_cycle(unresolved_messages);
         }
       }
     }
@@ -730,8 +772,19 @@ struct code_generator {
     if (field.is_foreign) {
       field.cpp_field_type = field.qualified_cpp_field_type;
     } else if (field.is_recursive) {
-      // only the last component of the type_name should be used
-      field.cpp_field_type = cpp::format("{}", field.message_field_type_descriptor()->cpp_name);
+      auto *message_type = field.message_field_type_descriptor();
+      auto *owner = field.parent_message();
+      if (owner != nullptr && owner->is_map_entry()) {
+        owner = owner->parent_message();
+      }
+      if (owner == message_type) {
+        // the injected class name
+        field.cpp_field_type = cpp::format("{}", message_type->cpp_name);
+      } else {
+        // an enclosing message, which has to be declared before its nested messages
+        field.cpp_field_type = field.qualified_cpp_field_type;
+        message_type->forward_messages.insert(message_type);
+      }
     } else if (is_nested) {
       // Nested types have public aliases in the generated parent message, so retain
       // that concise spelling. Multi-level names need special treatment only when
@@ -1301,7 +1354,25 @@ struct msg_code_generator : code_generator {
     return parent != nullptr && message_type != nullptr && message_type->forward_messages.contains(parent);
   }
 
+  // The alternative's type is incomplete where the oneof member is declared: it is the message owning the oneof, one of
+  // its enclosing messages, or a message which is only forward declared at that point.
+  static bool is_incomplete_oneof_alternative(field_descriptor_t &descriptor) {
+    if (!is_message_field(descriptor)) {
+      return false;
+    }
+    auto *message_type = descriptor.message_field_type_descriptor();
+    for (auto *scope = descriptor.parent_message(); scope != nullptr; scope = scope->parent_message()) {
+      if (scope == message_type || scope->forward_messages.contains(message_type)) {
+        return true;
+      }
+    }
+    return false;
+  }
+
   static cpp::source_fragment oneof_field_type(field_descriptor_t &descriptor) {
+    if (is_incomplete_oneof_alternative(descriptor)) {
+      return cpp::format("typename Traits::template indirect_t<{}>", field_template_argument_type(descriptor));
+    }
     if (needs_indirect_oneof_alternative(descriptor)) {
       return cpp::format(
           "std::conditional_t<std::same_as<Traits, ::hpp_proto::non_owning_traits>, {0}, typename Traits::template "
@@ -1375,7 +1446,12 @@ struct msg_code_generator : code_generator {
       cpp::emit_to(target, "{}std::variant<std::monostate{}> {};\n", source_indent(), types, descriptor.cpp_name);
     } else {
       auto &f = fields[0];
-      cpp::emit_to(target, "{}std::optional<{}> {};\n", source_indent(), field_template_argument_type(f), f.cpp_name);
+      const auto type = field_template_argument_type(f);
+      if (is_incomplete_oneof_alternative(f)) {
+        cpp::emit_to(target, "{}Traits::template optional_indirect_t<{}> {};\n", source_indent(), type, f.cpp_name);
+      } else {
+        cpp::emit_to(target, "{}std::optional<{}> {};\n", source_indent(), type, f.cpp_name);
+      }
     }
   }
 
-- 
2.43.0


From b8ed4be8fb1e1108f0550f9193d50a8ea00ad4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 02/55] fix: unescape the default value of bytes fields

FieldDescriptorProto.default_value holds bytes defaults in C-escaped form; both
generated code and dynamic messages used the escaped text as the value.
---
 include/hpp_proto/descriptor_pool.hpp         | 52 +++++++++++++++++++
 .../dynamic_message/bytes_fields.hpp          |  8 +--
 .../dynamic_message/factory_addons.hpp        | 12 ++++-
 src/protoc-plugin/hpp_generator.cpp           | 11 ++--
 4 files changed, 73 insertions(+), 10 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index eb07cc9..9d877dd 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -27,6 +27,7 @@
 #include <expected>
 #include <iostream>
 #include <memory_resource>
+#include <string_view>
 #include <system_error>
 #include <type_traits>
 #include <unordered_set>
@@ -56,6 +57,57 @@ constexpr distinct_file_tag_t distinct_file_tag;
 namespace detail {
 struct empty_descriptor_pool_addon_context {};
 
+/// Appends the bytes denoted by the C-escaped `text` to `out`; FieldDescriptorProto.default_value uses this form for
+/// bytes fields. Returns false, leaving `out` partially filled, when `text` has a malformed escape sequence.
+constexpr bool unescape_bytes_default(std::string_view text, auto &out) {
+  using value_type = std::remove_cvref_t<decltype(out)>::value_type;
+  auto digit_of = [](char c) -> unsigned {
+    if (c >= '0' && c <= '9') {
+      return static_cast<unsigned>(c - '0');
+    }
+    if (c >= 'a' && c <= 'f') {
+      return static_cast<unsigned>(c - 'a') + 10U;
+    }
+    if (c >= 'A' && c <= 'F') {
+      return static_cast<unsigned>(c - 'A') + 10U;
+    }
+    return UINT32_MAX;
+  };
+  std::size_t i = 0;
+  auto number = [&](unsigned base, int max_digits) -> unsigned {
+    unsigned value = 0;
+    for (; max_digits > 0 && i < text.size() && digit_of(text[i]) < base; ++i, --max_digits) {
+      value = (value * base) + digit_of(text[i]);
+    }
+    return value;
+  };
+  while (i < text.size()) {
+    if (text[i] != '\\') {
+      out.push_back(static_cast<value_type>(text[i++]));
+      continue;
+    }
+    if (++i == text.size()) {
+      return false;
+    }
+    constexpr std::string_view escapes = "abfnrtv\\'\"?";
+    constexpr std::string_view escaped = "\a\b\f\n\r\t\v\\'\"?";
+    if (digit_of(text[i]) < 8U) {
+      out.push_back(static_cast<value_type>(number(8U, 3)));
+    } else if (text[i] == 'x' || text[i] == 'X') {
+      if (++i == text.size() || digit_of(text[i]) == UINT32_MAX) {
+        return false;
+      }
+      out.push_back(static_cast<value_type>(number(16U, 2)));
+    } else if (const auto pos = escapes.find(text[i]); pos != std::string_view::npos) {
+      out.push_back(static_cast<value_type>(escaped[pos]));
+      ++i;
+    } else {
+      return false;
+    }
+  }
+  return true;
+}
+
 template <typename AddOns, typename = void>
 struct descriptor_pool_addon_context {
   using type = empty_descriptor_pool_addon_context;
diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index f51dae2..b33fdca 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -60,11 +60,7 @@ public:
     return storage_->selection_matches(descriptor().resolved_info().selection_ordinal());
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
-  [[nodiscard]] bytes_view default_value() const noexcept {
-    const auto &v = descriptor_->proto().default_value;
-    auto bspan = std::as_bytes(std::span{v.data(), v.size()});
-    return {bspan.data(), bspan.size()};
-  }
+  [[nodiscard]] bytes_view default_value() const noexcept { return descriptor_->bytes_default_value(); }
   [[nodiscard]] bytes_view value() const noexcept {
     if (descriptor().resolved_info().explicit_presence() && !has_value()) {
       return default_value();
@@ -75,7 +71,7 @@ public:
   [[nodiscard]] bool is_present_or_explicit_default() const noexcept {
     if (has_value()) {
       auto val = std::span{storage_->of_bytes.content, storage_->of_bytes.size};
-      auto default_val = std::as_bytes(std::span{descriptor_->proto().default_value});
+      auto default_val = default_value();
       return descriptor().resolved_info().explicit_presence() || !std::ranges::equal(val, default_val);
     }
     return false;
diff --git a/include/hpp_proto/dynamic_message/factory_addons.hpp b/include/hpp_proto/dynamic_message/factory_addons.hpp
index 32ee519..5549f25 100644
--- a/include/hpp_proto/dynamic_message/factory_addons.hpp
+++ b/include/hpp_proto/dynamic_message/factory_addons.hpp
@@ -126,10 +126,16 @@ struct dynamic_message_factory_addons {
     using type = void;
 
     field_descriptor(Derived &self, [[maybe_unused]] const auto &inherited_options,
-                     [[maybe_unused]] std::pmr::memory_resource *resource) {
+                     [[maybe_unused]] std::pmr::memory_resource *resource)
+        : bytes_default_value_(resource) {
       set_default_value(self.proto(), resource);
     }
 
+    /** @brief Default value of a bytes field, i.e. the unescaped FieldDescriptorProto.default_value. */
+    [[nodiscard]] bytes_view bytes_default_value() const noexcept {
+      return {bytes_default_value_.data(), bytes_default_value_.size()};
+    }
+
     template <typename T>
     [[nodiscard]] const T &default_value_as() const {
       return std::get<T>(default_value_);
@@ -166,6 +172,7 @@ struct dynamic_message_factory_addons {
     friend class detail::dynamic_message_factory_impl;
 
     std::variant<bool, int32_t, uint32_t, int64_t, uint64_t, double, float> default_value_;
+    vector_t<std::byte> bytes_default_value_;
     bool default_value_valid_ = true;
     resolved_field_info resolved_info_;
 
@@ -218,6 +225,9 @@ struct dynamic_message_factory_addons {
       case TYPE_BOOL:
         default_value_ = proto.default_value == "true";
         break;
+      case TYPE_BYTES:
+        default_value_valid_ = detail::unescape_bytes_default(proto.default_value, bytes_default_value_);
+        break;
       default:
         break;
       }
diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 539e8d2..a34c702 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -325,7 +325,7 @@ struct hpp_addons {
         if (proto.type == TYPE_STRING) {
           set_string_default_value(proto);
         } else if (proto.type == TYPE_BYTES) {
-          set_bytes_default_value(proto);
+          set_bytes_default_value(proto, diagnostics);
         } else if (proto.type == TYPE_ENUM) {
           // set_enum_default_value(proto);
         } else if (proto.type == TYPE_DOUBLE || proto.type == TYPE_FLOAT) {
@@ -349,10 +349,15 @@ struct hpp_addons {
       }
     }
 
-    void set_bytes_default_value(const FieldDescriptorProto &proto) {
+    void set_bytes_default_value(const FieldDescriptorProto &proto, generation_diagnostics &diagnostics) {
       if (!proto.default_value.empty()) {
+        std::string unescaped;
+        if (!::hpp_proto::detail::unescape_bytes_default(proto.default_value, unescaped)) {
+          diagnostics.record(std::format("invalid escape sequence in the default value of bytes field '{}'", proto.name));
+          return;
+        }
         default_value_template_arg =
-            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{proto.default_value});
+            cpp::format("::hpp_proto::bytes_literal<{}>{{}}", cpp::string_literal_bytes{unescaped});
         default_value = default_value_template_arg;
       }
     }
-- 
2.43.0


From a711e0f6a046656fe40061c9bab07b495c2fc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 03/55] fix: keep embedded NUL bytes when a string default
 becomes a std::string

---
 include/hpp_proto/field_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index b47652b..ed2b701 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -536,7 +536,7 @@ struct string_literal {
   // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
   [[nodiscard]] constexpr const char *end() const { return str.data() + size(); }
 
-  explicit operator std::string() const { return std::string{data()}; }
+  explicit operator std::string() const { return std::string{data(), size()}; }
   constexpr operator std::string_view() const { return std::string_view(data(), size()); }
 
   friend constexpr bool operator==(const string_literal &lhs, const std::string &rhs) {
-- 
2.43.0


From 93492ffb9464d038d0966d9acb62bf12c4608afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 04/55] fix: absent optional fields compare equal regardless of
 their default value

An absent float or double field whose default is NaN made a message differ from itself.
---
 include/hpp_proto/field_types.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index ed2b701..a59b35c 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -255,7 +255,9 @@ public:
     _present = false;
   }
 
-  constexpr bool operator==(const optional &other) const = default;
+  constexpr bool operator==(const optional &other) const {
+    return _present == other._present && (!_present || _value == other._value);
+  }
 };
 
 class bool_proxy {
-- 
2.43.0


From 4e4494e79bc1be308c43dd698bca4ce3c3256885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 05/55] fix: decode tags of 5 bytes, and 32-bit varints of up
 to 10 bytes, as the wire format defines

Field numbers from 2^25 on need a 5-byte tag whose last byte was ignored, so
those fields were lost on parsing. uint32 values written with more than 6 bytes
were rejected, and oversized sint32 values were not truncated before zig-zag
decoding.
---
 include/hpp_proto/binpb/deserialize.hpp |  4 ++--
 include/hpp_proto/binpb/varint.hpp      | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index b55f159..180c71e 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -592,7 +592,7 @@ struct basic_in {
     maybe_advance_region();
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t, 5>(current, res); p <= current._end) {
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -602,7 +602,7 @@ struct basic_in {
   constexpr bool match_tag(std::uint32_t tag) {
     maybe_advance_region();
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t, 5>(current, res); p <= current._end) {
       if (std::cmp_equal(res, tag)) {
         current.advance_to(p);
         return true;
diff --git a/include/hpp_proto/binpb/varint.hpp b/include/hpp_proto/binpb/varint.hpp
index 420a2db..b7705f3 100644
--- a/include/hpp_proto/binpb/varint.hpp
+++ b/include/hpp_proto/binpb/varint.hpp
@@ -118,7 +118,7 @@ template <concepts::varint VarintType, concepts::byte_type Byte>
 // the function return `std::ranges::cdata(input) + std::ranges::size(input) +1`; otherwise, the function returns the
 // pointer passed the consumed input data.
 // NOLINTBEGIN
-template <typename Type, int MAX_BYTES = ((sizeof(Type) * 8 + 6) / 7)>
+template <typename Type, int MAX_BYTES = 10>
 [[nodiscard]] constexpr auto shift_mix_parse_varint(concepts::contiguous_byte_range auto const &input, int64_t &res1)
     -> decltype(std::ranges::cdata(input)) {
   // The algorithm relies on sign extension for each byte to set all high bits
@@ -189,10 +189,12 @@ template <typename Type, int MAX_BYTES = ((sizeof(Type) * 8 + 6) / 7)>
     return done2();
   }
 
-  if constexpr (MAX_BYTES > 4) {
-    if (shl_and(4, next(), res1, res3)) [[likely]] {
-      return done2();
-    }
+  if (shl_and(4, next(), res1, res3)) [[likely]] {
+    return done2();
+  }
+
+  if constexpr (MAX_BYTES == 5) {
+    return std::ranges::cdata(input) + std::ranges::size(input) + 1;
   }
 
   if constexpr (sizeof(Type) == 8) {
@@ -212,8 +214,8 @@ template <typename Type, int MAX_BYTES = ((sizeof(Type) * 8 + 6) / 7)>
     if (shl_and(8, next(), res1, res3)) [[unlikely]] {
       return done2();
     }
-  } else if constexpr (std::same_as<Type, int32_t>) {
-    // An overlong int32 is expected to span the full 10 bytes
+  } else {
+    // An overlong 32 bits integer may span the full 10 bytes
     if (!(next() & 0x80)) [[unlikely]] {
       return done2();
     }
@@ -326,9 +328,10 @@ template <concepts::varint VarintType>
   int64_t res; // NOLINT(cppcoreguidelines-init-variables)
   if constexpr (varint_encoding::zig_zag == VarintType::encoding) {
     auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-    auto ures = static_cast<uint64_t>(res);
-    auto sign = static_cast<int64_t>(ures & 0x1ULL);
-    item = static_cast<VarintType::value_type>((ures >> 1U) ^ static_cast<uint64_t>(-sign));
+    using unsigned_type = std::make_unsigned_t<typename VarintType::value_type>;
+    auto ures = static_cast<unsigned_type>(res);
+    auto sign = static_cast<unsigned_type>(ures & 0x1U);
+    item = static_cast<VarintType::value_type>((ures >> 1U) ^ static_cast<unsigned_type>(0U - sign));
     return p;
   } else {
     auto p = shift_mix_parse_varint<typename VarintType::value_type>(input, res);
-- 
2.43.0


From c5bfd806558f8c671d8893336826b0b20b7a7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 06/55] fix: keep unknown fields intact when their tag is
 encoded with more bytes than needed

---
 include/hpp_proto/binpb/deserialize.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 180c71e..2855726 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -146,6 +146,7 @@ struct basic_in {
   input_span<input_buffer_region<Byte>> rest;
   ptrdiff_t size_exclude_current = 0; // the remaining size excluding those in current region without slope area
   Context &context;                   // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
+  std::size_t last_tag_size = 0;      // encoded size of the tag returned by read_tag(), which may be overlong
 
   constexpr static bool endian_swapped = std::endian::little != std::endian::native;
 
@@ -506,10 +507,10 @@ struct basic_in {
     return {};
   }
 
-  constexpr auto unwind_tag(uint32_t tag) {
-    auto tag_len = varint_size<varint_encoding::normal>(tag);
+  // pre: the last item consumed is the tag returned by `read_tag()`
+  constexpr auto unwind_tag() {
     basic_in<byte_type, Context, contiguous> dup(*this);
-    dup.current.revert(tag_len);
+    dup.current.revert(last_tag_size);
     return dup;
   }
 
@@ -593,6 +594,7 @@ struct basic_in {
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
     if (auto p = shift_mix_parse_varint<std::uint32_t, 5>(current, res); p <= current._end) {
+      last_tag_size = static_cast<std::size_t>(p - current._begin);
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -676,7 +678,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
   if constexpr (std::is_empty_v<T>) {
     return do_skip_field(tag, archive);
   } else {
-    auto unwound_archive = archive.unwind_tag(tag);
+    auto unwound_archive = archive.unwind_tag();
     if (auto result = skip_fields_match_tag(tag, archive); !result.ok()) [[unlikely]] {
       return result;
     }
-- 
2.43.0


From ffa301401a07325dac79eafb5c6a7fef651efca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 07/55] fix: check string and bytes lengths against the
 remaining padded input

---
 include/hpp_proto/binpb/deserialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 2855726..3e4ba29 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -833,6 +833,9 @@ constexpr status deserialize_packed_repeated(Meta meta, auto &&item, Archive &ar
 template <typename Meta, typename Archive, typename Item>
 constexpr status deserialize_packed_repeated_padded(Meta meta, Item &item, Archive &archive, vuint32_t byte_count) {
   using type = std::remove_reference_t<Item>;
+  if (std::cmp_less(archive.in_avail(), byte_count.value)) [[unlikely]] {
+    return std::errc::bad_message;
+  }
   auto result = archive.read_bytes(byte_count, item);
   if constexpr (concepts::basic_string_view<type>) {
     return !result.ok() || utf8_validation_failed(meta, item) ? std::errc::bad_message : std::errc{};
-- 
2.43.0


From ccf53f48f6f10b939d26bb401cafe2ae99f6f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 08/55] fix: select the oneof alternative when a closed enum
 member is parsed

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 3e4ba29..735cfe8 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1252,7 +1252,7 @@ constexpr status deserialize_oneof(uint32_t tag, auto &&item, concepts::is_basic
         std::variant_alternative_t<Index + 1, std::decay_t<decltype(item)>> v;
         auto result = deserialize_field(v, meta{}, tag, archive, unknown_fields);
         if (result.ok()) [[likely]] {
-          std::get<Index + 1>(item) = v;
+          item.template emplace<Index + 1>(v);
           return {};
         }
         if (result == std::errc::value_too_large) {
-- 
2.43.0


From b910287034713fe190707d09ec2fb6c2105aa9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 09/55] fix: treat negative zero as a non-default value of
 fields without presence

---
 include/hpp_proto/dynamic_message/pb_serializer_ext.hpp | 4 +++-
 include/hpp_proto/dynamic_message/scalar_fields.hpp     | 2 +-
 include/hpp_proto/field_types.hpp                       | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index aaff309..f896c91 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -74,7 +74,9 @@ struct field_deserializer {
     if (auto ec = deserialize(value, mref.descriptor()); !ec.ok()) [[likely]] {
       return ec;
     }
-    if (mref.descriptor().resolved_info().explicit_presence() || value != mref.default_value()) {
+    using value_type = scalar_field_mref<T, Kind>::value_type;
+    if (mref.descriptor().resolved_info().explicit_presence() ||
+        !is_default_value(static_cast<value_type>(value))) {
       mref.set(value);
     } else {
       mref.reset();
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index a6eda1c..3590a96 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -76,7 +76,7 @@ public:
   [[nodiscard]] bool is_present_or_explicit_default() const {
     if (has_value()) {
       return descriptor().resolved_info().explicit_presence() ||
-             access_storage().content != descriptor_->template default_value_as<value_type>();
+             !is_default_value(access_storage().content);
     }
     return false;
   }
diff --git a/include/hpp_proto/field_types.hpp b/include/hpp_proto/field_types.hpp
index a59b35c..78d1597 100644
--- a/include/hpp_proto/field_types.hpp
+++ b/include/hpp_proto/field_types.hpp
@@ -572,6 +572,10 @@ constexpr bool is_default_value(const T &val) {
       return !val.has_value();
     } else if constexpr (std::is_class_v<T>) {
       return false;
+    } else if constexpr (std::is_floating_point_v<T>) {
+      // negative zero is not a default value
+      using bits_type = std::conditional_t<sizeof(T) == sizeof(std::uint64_t), std::uint64_t, std::uint32_t>;
+      return std::bit_cast<bits_type>(val) == 0;
     } else {
       return val == T{};
     }
-- 
2.43.0


From d4bd1e6bdf4385b7b6837a7da2680362cdf2a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 10/55] fix: store extension values equal to their default and
 replace earlier ones when an extension is set again

---
 include/hpp_proto/binpb.hpp         | 19 ++++++++++++++++---
 src/protoc-plugin/hpp_generator.cpp |  9 ++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/binpb.hpp b/include/hpp_proto/binpb.hpp
index 46fc8df..56b5fb1 100644
--- a/include/hpp_proto/binpb.hpp
+++ b/include/hpp_proto/binpb.hpp
@@ -329,12 +329,25 @@ struct extension_base { // NOLINT(bugprone-crtp-constructor-accessibility)
       return result;
     }
 
-    if (data.size()) {
-      if constexpr (concepts::associative_container<fields_type>) {
+    if constexpr (concepts::associative_container<fields_type>) {
+      if (data.size()) {
         fields[number()] = std::move(data);
       } else {
-        detail::as_modifiable(ctx, fields).emplace_back(number(), data);
+        fields.erase(number());
       }
+    } else {
+      // replace the values previously stored for the extension, if any
+      fields_type updated;
+      decltype(auto) entries = detail::as_modifiable(ctx, updated);
+      for (const auto &entry : fields) {
+        if (entry.first != number()) {
+          entries.emplace_back(entry.first, entry.second);
+        }
+      }
+      if (data.size()) {
+        entries.emplace_back(number(), data);
+      }
+      fields = updated;
     }
     return {};
   }
diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index a34c702..73be710 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1737,11 +1737,10 @@ struct hpp_meta_generator : code_generator {
     std::vector<cpp::source_fragment> options;
     using enum google::protobuf::FieldDescriptorProto_::Label;
     const bool is_oneof_alternative = descriptor.proto().oneof_index.has_value();
-    const bool is_optional_closed_enum_extension = descriptor.is_closed_enum &&
-                                                   descriptor.extendee_descriptor() != nullptr &&
-                                                   descriptor.proto().label == LABEL_OPTIONAL;
-    if (descriptor.is_cpp_optional || descriptor.is_required() || is_oneof_alternative ||
-        is_optional_closed_enum_extension) {
+    // a singular extension always has presence, a value equal to its default must not be dropped
+    const bool is_singular_extension =
+        descriptor.extendee_descriptor() != nullptr && descriptor.proto().label == LABEL_OPTIONAL;
+    if (descriptor.is_cpp_optional || descriptor.is_required() || is_oneof_alternative || is_singular_extension) {
       options.emplace_back("::hpp_proto::field_option::explicit_presence");
     } else if (descriptor.is_packed()) {
       options.emplace_back("::hpp_proto::field_option::is_packed");
-- 
2.43.0


From ce97e50d1912a85e2b2edff93581a6c804907cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 11/55] fix: keep the unknown fields of messages without fields

---
 src/protoc-plugin/hpp_generator.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 73be710..f96d852 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1690,10 +1690,8 @@ struct hpp_meta_generator : code_generator {
       }
     }
 
-    if (!descriptor.proto().extension_range.empty() || !descriptor.fields().empty()) {
-      cpp::emit_to(target, "{}::hpp_proto::field_meta<UINT32_MAX, &{}::unknown_fields_>", source_indent(),
-                   qualified_name);
-    }
+    cpp::emit_to(target, "{}::hpp_proto::field_meta<UINT32_MAX, &{}::unknown_fields_>", source_indent(),
+                 qualified_name);
     indent_num -= 2;
 
     format_to(target, ">;\n\n");
-- 
2.43.0


From 03016610d7f2247b25df69d12b1516453b1621b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 12/55] fix: dynamic messages: absent fields read as their
 default and resetting an inactive oneof member keeps the active one

---
 .../dynamic_message/bytes_fields.hpp          |  8 +++--
 .../hpp_proto/dynamic_message/enum_fields.hpp | 32 ++++++++++++-------
 .../hpp_proto/dynamic_message/field_refs.hpp  |  6 +++-
 .../dynamic_message/message_fields.hpp        |  9 ++++--
 .../dynamic_message/scalar_fields.hpp         |  8 +++--
 .../dynamic_message/string_fields.hpp         | 10 +++---
 6 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index b33fdca..632cca8 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -62,7 +62,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] bytes_view default_value() const noexcept { return descriptor_->bytes_default_value(); }
   [[nodiscard]] bytes_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {storage_->of_bytes.content, storage_->of_bytes.size};
@@ -168,8 +168,10 @@ public:
   void set_as_default() const noexcept { adopt(default_value()); }
 
   void reset() const noexcept {
-    storage_->of_bytes.size = 0;
-    storage_->of_bytes.selection = 0;
+    if (has_value()) {
+      storage_->of_bytes.size = 0;
+      storage_->of_bytes.selection = 0;
+    }
   }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index fcbc1e4..8c2c02c 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -172,7 +172,7 @@ public:
   }
 
   [[nodiscard]] enum_value value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {enum_descriptor(), storage_->of_int32.content};
@@ -212,8 +212,7 @@ public:
   }
 
   [[nodiscard]] std::int32_t number() const {
-    const bool is_default = descriptor().resolved_info().explicit_presence() && !has_value();
-    return is_default ? descriptor_->default_value_as<int32_t>() : storage_->of_int32.content;
+    return has_value() ? storage_->of_int32.content : descriptor_->default_value_as<int32_t>();
   }
 
   /**
@@ -241,8 +240,8 @@ public:
   static constexpr bool settable_from_v = std::same_as<U, enum_number> || std::same_as<U, enum_name>;
 
   enum_field_mref(const field_descriptor_t &descriptor, value_storage &storage,
-                  std::pmr::monotonic_buffer_resource & /*memory_resource*/) noexcept
-      : descriptor_(&descriptor), storage_(&storage) {}
+                  std::pmr::monotonic_buffer_resource &memory_resource) noexcept
+      : descriptor_(&descriptor), storage_(&storage), memory_resource_(&memory_resource) {}
 
   enum_field_mref(const enum_field_mref &) noexcept = default;
   enum_field_mref(enum_field_mref &&) noexcept = default;
@@ -267,16 +266,25 @@ public:
   [[nodiscard]] bool has_value() const noexcept { return cref().has_value(); }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] enum_value default_value() const noexcept { return cref().default_value(); }
-  // NOLINTNEXTLINE(bugprone-exception-escape)
-  [[nodiscard]] enum_value_mref value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+  [[nodiscard]] enum_value_mref value() const {
+    if (!has_value()) {
+      if (value_storage::selection_word(*storage_) != 0U) {
+        // the storage is in use by another member of the same oneof
+        auto *detached = static_cast<int32_t *>(memory_resource_->allocate(sizeof(int32_t), alignof(int32_t)));
+        *detached = descriptor_->default_value_as<int32_t>();
+        return {*descriptor_->enum_field_type_descriptor(), *detached};
+      }
       storage_->of_int32.content = descriptor_->default_value_as<int32_t>();
     }
     return {*descriptor_->enum_field_type_descriptor(), storage_->of_int32.content};
   }
-  [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return {value()}; }
+  [[nodiscard]] ::hpp_proto::value_proxy<value_type> operator->() const noexcept { return {cref().value()}; }
 
-  void reset() const noexcept { storage_->of_int32.selection = 0; }
+  void reset() const noexcept {
+    if (has_value()) {
+      storage_->of_int32.selection = 0;
+    }
+  }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] const enum_descriptor_t &enum_descriptor() const noexcept {
@@ -284,8 +292,7 @@ public:
   }
 
   [[nodiscard]] std::int32_t number() const {
-    return descriptor().resolved_info().explicit_presence() && !has_value() ? descriptor_->default_value_as<int32_t>()
-                                                                            : storage_->of_int32.content;
+    return cref().number();
   }
   /**
    * @brief Returns the enum value's symbolic name (empty if schema lacks this number).
@@ -317,6 +324,7 @@ public:
 private:
   const field_descriptor_t *descriptor_;
   value_storage *storage_;
+  std::pmr::monotonic_buffer_resource *memory_resource_;
 };
 
 } // namespace hpp_proto
diff --git a/include/hpp_proto/dynamic_message/field_refs.hpp b/include/hpp_proto/dynamic_message/field_refs.hpp
index 27250cf..ed9fc53 100644
--- a/include/hpp_proto/dynamic_message/field_refs.hpp
+++ b/include/hpp_proto/dynamic_message/field_refs.hpp
@@ -138,7 +138,11 @@ public:
 
   [[nodiscard]] std::pmr::monotonic_buffer_resource &memory_resource() const noexcept { return *memory_resource_; }
 
-  void reset() noexcept { storage_->reset(); }
+  void reset() const noexcept {
+    if (has_value()) {
+      storage_->reset();
+    }
+  }
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] field_kind_t field_kind() const noexcept { return cref().field_kind(); }
 
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index d2a05f5..37f672e 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -439,8 +439,7 @@ public:
 
   void clear_field(const field_descriptor_t &desc) const noexcept {
     assert(desc.parent_message() == descriptor_);
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-union-access)
-    storage_for(desc).reset();
+    field(desc).reset();
   }
 
   void clear_field(const oneof_descriptor_t &desc) const noexcept {
@@ -651,7 +650,11 @@ public:
     return cref().get<U>();
   }
 
-  void reset() const noexcept { storage_->of_message.selection = 0; }
+  void reset() const noexcept {
+    if (has_value()) {
+      storage_->of_message.selection = 0;
+    }
+  }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
   [[nodiscard]] const message_descriptor_t &message_descriptor() const noexcept {
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 3590a96..284c516 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -67,7 +67,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return descriptor_->template default_value_as<value_type>(); }
   [[nodiscard]] value_type value() const {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return access_storage().content;
@@ -166,7 +166,11 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return cref().default_value(); }
   [[nodiscard]] value_type value() const { return cref().value(); }
-  void reset() noexcept { access_storage().selection = 0; }
+  void reset() const noexcept {
+    if (has_value()) {
+      access_storage().selection = 0;
+    }
+  }
   void set_as_default() const { set(default_value()); }
 
   value_type &emplace() const noexcept { // NOLINT(modernize-use-nodiscard)
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 19e01e0..59d3ca0 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -61,11 +61,11 @@ public:
     return storage_->selection_matches(descriptor().resolved_info().selection_ordinal());
   }
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
-  [[nodiscard]] std::size_t size() const noexcept { return storage_->of_string.size; }
+  [[nodiscard]] std::size_t size() const noexcept { return value().size(); }
   [[nodiscard]] std::string_view default_value() const noexcept { return descriptor_->proto().default_value; }
 
   [[nodiscard]] std::string_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return descriptor_->proto().default_value;
     }
     return {storage_->of_string.content, storage_->of_string.size};
@@ -171,8 +171,10 @@ public:
   void set_as_default() const noexcept { adopt(default_value()); }
 
   void reset() const noexcept {
-    storage_->of_string.size = 0;
-    storage_->of_string.selection = 0;
+    if (has_value()) {
+      storage_->of_string.size = 0;
+      storage_->of_string.selection = 0;
+    }
   }
 
   [[nodiscard]] const field_descriptor_t &descriptor() const noexcept { return *descriptor_; }
-- 
2.43.0


From 3a13f17518f05de6ba170cd034eae5f62e404c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 13/55] fix: dynamic messages: clone_from and alias_from copy
 presence and every field

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp     |  8 +++++++-
 include/hpp_proto/dynamic_message/enum_fields.hpp      |  6 +++++-
 include/hpp_proto/dynamic_message/field_refs.hpp       |  6 +++++-
 include/hpp_proto/dynamic_message/message_fields.hpp   |  8 ++++++--
 .../dynamic_message/repeated_message_fields.hpp        |  7 ++++---
 include/hpp_proto/dynamic_message/scalar_fields.hpp    | 10 ++++++++--
 include/hpp_proto/dynamic_message/string_fields.hpp    |  8 +++++++-
 7 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index 632cca8..fffa493 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -145,7 +145,13 @@ public:
     storage_->of_bytes.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index 8c2c02c..5fad783 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -251,7 +251,11 @@ public:
 
   void alias_from(const cref_type &other) const noexcept {
     assert(this->descriptor_ == &other.descriptor());
-    storage_->of_int32 = other.storage_->of_int32;
+    if (other.has_value()) {
+      storage_->of_int32 = other.storage_->of_int32;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const noexcept {
diff --git a/include/hpp_proto/dynamic_message/field_refs.hpp b/include/hpp_proto/dynamic_message/field_refs.hpp
index ed9fc53..a009a36 100644
--- a/include/hpp_proto/dynamic_message/field_refs.hpp
+++ b/include/hpp_proto/dynamic_message/field_refs.hpp
@@ -163,7 +163,11 @@ public:
   auto visit(auto &&v) const;
   void alias_from(const field_mref &other) const noexcept {
     assert(this->descriptor_ == other.descriptor_);
-    *storage_ = *other.storage_;
+    if (other.has_value()) {
+      *storage_ = *other.storage_;
+    } else {
+      reset();
+    }
   }
   void clone_from(const field_cref &other) const;
 
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index 37f672e..fd36c01 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -479,7 +479,7 @@ public:
 
   void clone_from(const cref_type &other) const {
     assert(this->descriptor_ == &other.descriptor());
-    for (std::size_t i = 0; i < num_slots(); ++i) {
+    for (std::size_t i = 0; i < descriptor_->fields().size(); ++i) {
       fields()[i].clone_from(other.fields()[i]);
     }
   }
@@ -663,7 +663,11 @@ public:
 
   void alias_from(const message_field_mref &other) const noexcept {
     assert(&message_descriptor() == &other.message_descriptor());
-    storage_->of_message = other.storage_->of_message;
+    if (other.has_value()) {
+      storage_->of_message = other.storage_->of_message;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const {
diff --git a/include/hpp_proto/dynamic_message/repeated_message_fields.hpp b/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
index c48bc8f..d6c43e4 100644
--- a/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/repeated_message_fields.hpp
@@ -230,12 +230,13 @@ public:
   template <typename T>
     requires settable_from_v<T>
   std::expected<void, dynamic_message_errc> set(const T &v) const {
-    resize(v.size());
-
-    for (std::size_t i = 0; i < size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
       if (&message_descriptor() != &(v[i].descriptor())) {
         return std::unexpected(dynamic_message_errc::wrong_message_type);
       }
+    }
+    resize(v.size());
+    for (std::size_t i = 0; i < size(); ++i) {
       (*this)[i].clone_from(v[i]);
     }
     return {};
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 284c516..8b5ae4e 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -155,8 +155,14 @@ public:
     storage.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { set(other.value()); }
-  void clone_from(scalar_field_cref<T, Kind> other) const { set(other.value()); }
+  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept {
+    if (other.has_value()) {
+      set(other.value());
+    } else {
+      reset();
+    }
+  }
+  void clone_from(scalar_field_cref<T, Kind> other) const { alias_from(other); }
 
   [[nodiscard]] cref_type cref() const noexcept { return {*descriptor_, *storage_}; }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 59d3ca0..01df864 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -148,7 +148,13 @@ public:
     storage_->of_string.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
-- 
2.43.0


From 7d136f8ecc4468d869bba9a67953d430002661d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 14/55] fix: required enum fields default to the first
 enumerator

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index f96d852..269d264 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -893,7 +893,7 @@ struct code_generator {
       field.is_closed_enum = enum_d->is_closed();
       if (!field.proto().default_value.empty()) {
         field.set_enum_default_value(field.proto(), diagnostics);
-      } else if (field.proto().label == FieldDescriptorProto::Label::LABEL_OPTIONAL) {
+      } else if (field.proto().label != FieldDescriptorProto::Label::LABEL_REPEATED) {
         const auto proto_default_value = cpp_identifier(enum_d->proto().value[0].name, diagnostics);
         field.default_value = cpp::format("{}::{}", field.cpp_field_type, proto_default_value);
         field.default_value_template_arg = cpp::format("{}::{}", field.qualified_cpp_field_type, proto_default_value);
-- 
2.43.0


From 98724f62f724a7e81bd8db0c6a92930e4f951be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 15/55] fix: initialise required strings and bytes, and string
 extensions, with their complete default value

---
 src/protoc-plugin/hpp_generator.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 269d264..fc66b6c 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -557,6 +557,14 @@ struct code_generator {
     return std::move(*result);
   }
 
+  // The default value of a string or bytes member; the literals may contain embedded NUL characters.
+  static cpp::source_fragment string_or_bytes_initializer(const field_descriptor_t &descriptor) {
+    if (descriptor.default_value_template_arg.empty()) {
+      return {};
+    }
+    return cpp::format("{{{0}.begin(), {0}.end()}}", descriptor.default_value_template_arg);
+  }
+
   // NOLINTBEGIN(misc-no-recursion)
   static bool is_message_field(const field_descriptor_t &field) {
     using enum FieldDescriptorProto::Type;
@@ -1407,9 +1415,10 @@ struct msg_code_generator : code_generator {
     cpp::source_fragment initializer{" = {}"};
     using enum FieldDescriptorProto::Type;
 
-    if (field_type_wrapper(descriptor).size() > 1 || descriptor.proto().type == TYPE_STRING ||
-        descriptor.proto().type == TYPE_BYTES) {
+    if (field_type_wrapper(descriptor).size() > 1) {
       initializer = {};
+    } else if (descriptor.proto().type == TYPE_STRING || descriptor.proto().type == TYPE_BYTES) {
+      initializer = string_or_bytes_initializer(descriptor);
     } else if (!descriptor.default_value.empty()) {
       initializer = cpp::format(" = {}", descriptor.default_value);
     }
@@ -1849,7 +1858,9 @@ struct hpp_meta_generator : code_generator {
 
     cpp::source_fragment initializer{" = {}"};
 
-    if (!descriptor.default_value.empty()) {
+    if (!is_repeated && (proto.type == TYPE_STRING || proto.type == TYPE_BYTES)) {
+      initializer = string_or_bytes_initializer(descriptor);
+    } else if (!descriptor.default_value.empty()) {
       initializer = cpp::format(" = {}", descriptor.default_value);
     }
 
-- 
2.43.0


From 8d0de265561bb78354b87cc5d333f854980e6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 16/55] fix: a required closed enum field with an unknown value
 no longer fails the parse

---
 include/hpp_proto/binpb/deserialize.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 735cfe8..0b77e7a 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1283,7 +1283,14 @@ constexpr status deserialize_field_by_index(uint32_t tag, concepts::has_meta aut
   if constexpr (Index != UINT32_MAX) {
     using type = std::remove_reference_t<decltype(item)>;
     using Meta = util::field_meta_of<type, Index>::type;
-    return deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    auto result = deserialize_field(Meta::get(item), Meta(), tag, archive, unknown_fields);
+    if constexpr (concepts::is_enum<std::remove_cvref_t<decltype(Meta::get(item))>> &&
+                  requires { item.unknown_fields_; }) {
+      if (result == std::errc::value_too_large) {
+        return {}; // a required field and a value outside its closed enum, which is among the unknown fields by now
+      }
+    }
+    return result;
   } else if (archive.in_avail() > 0) {
     return skip_field(tag, archive, unknown_fields);
   } else {
-- 
2.43.0


From 003842b0d3610b8851621dd53b2b13022a86ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 17/55] fix: move map entries whose closed enum value is
 unknown to the unknown fields

---
 include/hpp_proto/binpb/deserialize.hpp | 52 ++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 0b77e7a..70c6fae 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -907,16 +907,50 @@ constexpr status deserialize_packed_repeated_with_byte_count(concepts::resizable
   }
 }
 
+// whether `Meta` describes a map whose values are of a closed enum type
+template <typename Meta>
+concept closed_enum_map = concepts::is_map_entry<typename Meta::type> &&
+                          std::tuple_element_t<1, typename Meta::type::mutable_type::pb_meta>::closed_enum();
+
+// Reads a map entry. When its value is not a member of the closed enum type of the map, the whole entry goes to the
+// unknown fields and `known` is set to false.
+template <typename Meta>
+constexpr status deserialize_map_entry(Meta /*meta*/, uint32_t tag, auto &element, bool &known, auto &unknown_fields,
+                                       auto &archive) {
+  if constexpr (closed_enum_map<Meta>) {
+    auto unwound_archive = archive.unwind_tag();
+    if (auto result = deserialize_sized(element, archive); !result.ok()) [[unlikely]] {
+      return result;
+    }
+    if (!is_valid(static_cast<typename Meta::type::mapped_type>(element.value.value))) [[unlikely]] {
+      known = false;
+      if constexpr (!std::is_empty_v<std::remove_cvref_t<decltype(unknown_fields)>>) {
+        auto entry_len = static_cast<std::size_t>(unwound_archive.in_avail() - archive.in_avail());
+        auto entry_archive = unwound_archive.split(entry_len);
+        return deserialize_unknown_fields(unknown_fields, tag_number(tag), entry_len, entry_archive);
+      }
+    }
+    return {};
+  } else {
+    return deserialize_sized(element, archive);
+  }
+}
+
 template <typename Meta, concepts::associative_container V>
-constexpr status deserialize_unpacked_associative_element(Meta /*meta*/, V &v, auto &hint, auto &archive) {
+constexpr status deserialize_unpacked_associative_element(Meta meta, uint32_t tag, V &v, auto &hint,
+                                                          auto &unknown_fields, auto &archive) {
   using type = std::remove_reference_t<V>;
   using value_type = type::value_type;
   using element_type = Meta::type::mutable_type;
 
   element_type element;
-  if (auto result = deserialize_sized(element, archive); !result.ok()) {
+  bool known = true;
+  if (auto result = deserialize_map_entry(meta, tag, element, known, unknown_fields, archive); !result.ok()) {
     return result;
   }
+  if (!known) [[unlikely]] {
+    return {};
+  }
 
   auto val = static_cast<value_type>(std::move(element));
   hint = v.insert_or_assign(hint, std::move(val.first), std::move(val.second));
@@ -940,8 +974,11 @@ constexpr status deserialize_unpacked_sequence_element(Meta meta, uint32_t tag,
   using value_type = type::value_type;
   using element_type = deserialize_element_type<typename Meta::type, value_type>::type;
 
+  [[maybe_unused]] bool known = true;
   auto deserialize_element = [&](auto &element) {
-    if constexpr (concepts::has_meta<element_type>) {
+    if constexpr (concepts::is_map_entry<typename Meta::type>) {
+      return deserialize_map_entry(meta, tag, element, known, unknown_fields, archive);
+    } else if constexpr (concepts::has_meta<element_type>) {
       return deserialize_sized(element, archive);
     } else {
       return deserialize_field(element, meta, tag, archive, unknown_fields);
@@ -965,6 +1002,10 @@ constexpr status deserialize_unpacked_sequence_element(Meta meta, uint32_t tag,
       } else {
         deserialize_unknown_enum(unknown_fields, tag_number(tag), std::to_underlying(element), archive);
       }
+    } else if constexpr (closed_enum_map<Meta>) {
+      if (known) {
+        v.push_back(static_cast<value_type>(std::move(element)));
+      }
     } else {
       v[index] = std::move(static_cast<value_type>(std::move(element)));
     }
@@ -981,7 +1022,8 @@ constexpr status deserialize_unpacked_repeated_elements(Meta meta, uint32_t tag,
 
   for (auto i = old_size; i < new_size; ++i) {
     if constexpr (concepts::associative_container<type>) {
-      if (auto result = deserialize_unpacked_associative_element(meta, v, hint, archive); !result.ok()) {
+      if (auto result = deserialize_unpacked_associative_element(meta, tag, v, hint, unknown_fields, archive);
+          !result.ok()) {
         return result;
       }
     } else {
@@ -1026,7 +1068,7 @@ constexpr status deserialize_unpacked_repeated(Meta meta, uint32_t tag, auto &&i
       v.reserve(new_size);
     }
   } else {
-    if constexpr (meta.closed_enum()) {
+    if constexpr (meta.closed_enum() || closed_enum_map<Meta>) {
       v.reserve(new_size);
     } else if constexpr (requires { v.resize(new_size); }) {
       v.resize(new_size);
-- 
2.43.0


From 4c5cd6fad69fcba667ea2e5e14764efe72f416aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 18/55] fix: dynamic messages: drop map entries whose closed
 enum value is unknown

---
 .../dynamic_message/pb_serializer_ext.hpp     | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index f896c91..6cca7c5 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -92,10 +92,10 @@ struct field_deserializer {
     if (auto ec = archive(value); !ec.ok()) [[unlikely]] {
       return ec;
     }
+    mref.set(static_cast<int32_t>(value.value));
     if (!mref.descriptor().valid_enum_value(static_cast<int32_t>(value))) [[unlikely]] {
       return std::errc::result_out_of_range;
     }
-    mref.set(static_cast<int32_t>(value.value));
     return std::errc{};
   }
 
@@ -111,7 +111,10 @@ struct field_deserializer {
       }
       return {};
     } else if (ec == std::errc::result_out_of_range) {
-      // out of range enum should be placed in the unknown fields
+      // out of range enum should be placed in the unknown fields, together with the map entry it belongs to
+      if (mref.descriptor().parent_message() != nullptr && mref.descriptor().parent_message()->is_map_entry()) {
+        mref.set(tmp);
+      }
       return {};
     }
     return ec;
@@ -198,12 +201,17 @@ struct field_deserializer {
       if (v.descriptor().is_map_entry()) {
         // make sure the mapped field is set even it is not present
         auto mapped_field = v.fields()[1];
-        mapped_field.visit([](auto f) {
+        mapped_field.visit([&r](auto f) {
           if constexpr (requires { f.set_as_default(); }) {
             if (!f.has_value()) {
               f.set_as_default();
             }
           }
+          if constexpr (std::same_as<decltype(f), enum_field_mref>) {
+            if (r.ok() && !f.enum_descriptor().valid_enum_value(f.number())) [[unlikely]] {
+              r = std::errc::result_out_of_range;
+            }
+          }
         });
       }
       return r;
@@ -265,9 +273,20 @@ struct field_deserializer {
     const std::size_t new_size = mref.size() + count;
     mref.resize(new_size);
 
-    for (std::size_t i = old_size; i < new_size; ++i, --count) {
-      if constexpr (std::same_as<typename MRef::encode_type, typename MRef::value_type>) {
-        if (auto ec = this->deserialize(mref[i], mref.descriptor()); !ec.ok()) [[unlikely]] {
+    auto i = old_size;
+    for (; count > 0; --count) {
+      if constexpr (std::same_as<MRef, repeated_message_field_mref>) {
+        auto element = mref[i];
+        if (auto ec = this->deserialize(element, mref.descriptor()); ec == std::errc::result_out_of_range)
+            [[unlikely]] {
+          element.reset(); // a map entry with an unknown enum value
+        } else if (!ec.ok()) {
+          return ec;
+        } else {
+          ++i;
+        }
+      } else if constexpr (std::same_as<typename MRef::encode_type, typename MRef::value_type>) {
+        if (auto ec = this->deserialize(mref[i++], mref.descriptor()); !ec.ok()) [[unlikely]] {
           return ec;
         }
       } else {
@@ -275,7 +294,7 @@ struct field_deserializer {
         if (auto ec = this->deserialize(v, mref.descriptor()); !ec.ok()) [[unlikely]] {
           return ec;
         }
-        mref[i] = v;
+        mref[i++] = v;
       }
       if (count > 1) {
         archive.maybe_advance_region();
@@ -283,6 +302,9 @@ struct field_deserializer {
       }
     }
 
+    if (i != new_size) {
+      mref.resize(i);
+    }
     return {};
   }
 
-- 
2.43.0


From 9b6b31cb805acbc0929c2be749945e344f574dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 19/55] fix: an explicit [packed = false] is honoured

---
 include/hpp_proto/descriptor_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index 9d877dd..b3383be 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -361,8 +361,10 @@ public:
           type == FieldDescriptorProto::Type::TYPE_BYTES || type == FieldDescriptorProto::Type::TYPE_GROUP) {
         return;
       }
-      if (proto_.options.has_value() && proto_.options->packed.has_value() && proto_.options->packed.value()) {
-        field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+      if (proto_.options.has_value() && proto_.options->packed.has_value()) {
+        if (proto_.options->packed.value()) {
+          field_option_bitset_ |= mask(field_option_mask::MASK_PACKED);
+        }
         return;
       }
       if (options_.features->repeated_field_encoding == FeatureSet::RepeatedFieldEncoding::PACKED) {
-- 
2.43.0


From a11949634464ec4b2eb1c74f783cd414de32851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 20/55] fix: a non-owning message with stored extensions can be
 merged with a second occurrence

Reading the elements of an arena_vector over a non-empty view went through a
null pointer, e.g. when a sub-message with extension ranges appeared twice.
---
 include/hpp_proto/memory_resource_utils.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/memory_resource_utils.hpp b/include/hpp_proto/memory_resource_utils.hpp
index ef734a4..cbbc4ca 100644
--- a/include/hpp_proto/memory_resource_utils.hpp
+++ b/include/hpp_proto/memory_resource_utils.hpp
@@ -245,9 +245,9 @@ auto bit_cast_view(const Bytes &input_range) {
 /// WARNING:
 /// `arena_vector` is a specialized adapter for hpp_proto internals and is not a general-purpose vector replacement.
 /// After construction, internal storage pointer `data_` is null until an operation that materializes storage
-/// (`resize`, `reserve`, `assign`, `append`, `append_range`, `push_back`, etc.) runs. Calling read/access APIs that
-/// use `data_` directly (`data`, `begin/end`, `operator[]`, `front/back`) before storage materialization is undefined
-/// behavior, even if the referenced input view was initially non-empty.
+/// (`resize`, `reserve`, `assign`, `append`, `append_range`, `push_back`, etc.) runs. Until then the access APIs
+/// (`data`, `begin/end`, `operator[]`, `front/back`) refer to the elements of the input view, which may be read but
+/// not modified.
 ///
 /// @tparam View
 /// @tparam MemoryResource
@@ -300,8 +300,8 @@ public:
   }
 
   [[nodiscard]] constexpr value_type *data() const {
-    assert(empty() || data_ != nullptr);
-    return data_;
+    // until something is appended, the elements are those the view referred to in the first place
+    return data_ != nullptr ? data_ : const_cast<value_type *>(view_.data());
   }
   constexpr reference operator[](std::size_t n) { return data()[n]; }
   [[nodiscard]] constexpr std::size_t size() const { return view_.size(); }
-- 
2.43.0


From 859942f436ccc7182ab9f1ecdab96d77a12944fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 21/55] fix: unknown closed enum values kept by non-owning
 messages are copied into the memory resource

The first one stored for a field of a message with extension ranges referred
to a local array of the parser.
---
 include/hpp_proto/binpb/deserialize.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 70c6fae..a60b8f7 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -663,10 +663,13 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
+    using bytes_type = unknown_fields_t::value_type::second_type;
     if (itr == unknown_fields.end()) {
-      unknown_fields.push_back({field_num, field_span});
+      bytes_type stored;
+      decltype(auto) v = detail::as_modifiable(archive.context, stored);
+      util::append_range(v, field_span);
+      unknown_fields.push_back({field_num, stored});
     } else {
-      using bytes_type = unknown_fields_t::value_type::second_type;
       decltype(auto) v = detail::as_modifiable(archive.context, const_cast<bytes_type &>(itr->second));
       util::append_range(v, field_span);
     }
-- 
2.43.0


From 42a491afd03d1e4faef89805e088ad8ff0eab0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 22/55] fix: reject a field number zero inside an unknown group

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index a60b8f7..940f93d 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -742,7 +742,7 @@ constexpr status do_skip_group(uint32_t field_num, concepts::is_basic_in auto &a
     if (next_type == wire_type::egroup && field_num == next_field_num) {
       return {};
     }
-    if (archive.in_avail() <= 0) [[unlikely]] {
+    if (next_field_num == 0 || archive.in_avail() <= 0) [[unlikely]] {
       return std::errc::bad_message;
     }
     if (auto result = do_skip_field(tag, archive); !result.ok()) {
-- 
2.43.0


From 1fe2cd15b1abce4d8243463d9831b45976986c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 23/55] fix: merge messages with recursive oneof members and
 non-owning message fields

---
 include/hpp_proto/merge.hpp | 39 +++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index ac8e006..519737c 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -145,7 +145,41 @@ struct message_merger {
   template <concepts::variant T, typename U>
   void assign(T & /*dest*/, const U & /*source*/, std::index_sequence<> /*seq*/) {}
 
+  /// The objects referenced by non-owning recursive fields may be shared; merge into a copy of them.
+  template <typename T>
+  constexpr T *copy_referenced(const T *source) {
+    void *const buffer = ctx.memory_resource().allocate(sizeof(T), alignof(T));
+    // NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+    return source == nullptr ? new (buffer) T : new (buffer) T(*source);
+  }
+
+  template <concepts::indirect T, typename U>
+  constexpr void perform(T &dest, U &&source) {
+    if constexpr (concepts::indirect<U> && std::is_rvalue_reference_v<U &&>) {
+      perform(*dest, std::move(*source));
+    } else {
+      perform(*dest, *source);
+    }
+  }
+
+  template <concepts::indirect_view T, typename U>
+  constexpr void perform(T &dest, U &&source) {
+    auto *const merged = copy_referenced(dest.pointer());
+    perform(*merged, *std::forward<U>(source));
+    dest.reset(merged);
+  }
+
+  template <concepts::optional_indirect_view T, typename U>
+  constexpr void perform(T &dest, U &&source) {
+    if (source.has_value()) {
+      auto *const merged = copy_referenced(dest.has_value() ? std::addressof(*dest) : nullptr);
+      perform(*merged, *std::forward<U>(source));
+      dest = merged;
+    }
+  }
+
   template <concepts::optional T, typename U>
+    requires(!concepts::optional_indirect_view<T>)
   constexpr void perform(T &dest, U &&source) {
     if constexpr (concepts::has_meta<typename T::value_type>) {
       if (source.has_value()) {
@@ -201,9 +235,10 @@ struct message_merger {
     bind_empty_container_to_context(dest);
     if constexpr (concepts::has_meta<typename T::value_type>) {
       auto original_size = dest.size();
-      dest.resize(original_size + source.size());
+      decltype(auto) elements = detail::as_modifiable(ctx, dest);
+      elements.resize(original_size + source.size());
       for (std::size_t i = 0; i < source.size(); ++i) {
-        perform(dest[original_size + i], source[i]);
+        perform(elements[original_size + i], source[i]);
       }
       return;
     }
-- 
2.43.0


From 59093c21f9340e8c85064887c0476fad4a03f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 24/55] fix: merge keeps the unknown fields of the destination

---
 include/hpp_proto/merge.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hpp_proto/merge.hpp b/include/hpp_proto/merge.hpp
index 519737c..bc5cfcb 100644
--- a/include/hpp_proto/merge.hpp
+++ b/include/hpp_proto/merge.hpp
@@ -341,6 +341,11 @@ struct message_merger {
         // Protobuf merge semantics preserve those occurrences in parent-to-child order.
         util::append_range(bytes, data);
       }
+    } else if constexpr (concepts::contiguous_byte_range<decltype(dest.fields)>) {
+      // the serialized unknown fields of both messages are kept
+      bind_empty_container_to_context(dest.fields);
+      decltype(auto) bytes = detail::as_modifiable(ctx, dest.fields);
+      util::append_range(bytes, source.fields);
     } else {
       perform(dest.fields, source.fields);
     }
-- 
2.43.0


From 72e2fb7f8a262ef3df3596d7a6e0915cca24bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 25/55] fix: append_binpb appends instead of overwriting the
 buffer

---
 include/hpp_proto/binpb/serialize.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index a0edc97..6117b97 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -556,20 +556,22 @@ template <bool overwrite_buffer = true, typename T, concepts::contiguous_byte_ra
   if (msg_sz >= max_message_size) {
     return std::errc::value_too_large;
   }
+  const std::size_t old_size = overwrite_buffer ? 0 : std::ranges::size(buffer);
   if (auto resize_status = resize_contiguous_buffer<overwrite_buffer>(buffer, static_cast<std::size_t>(msg_sz));
       !resize_status.ok()) {
     return resize_status;
   }
 
   if (std::is_constant_evaluated()) {
-    contiguous_out archive{buffer, context};
+    contiguous_out archive{std::span{buffer}.subspan(old_size), context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
     }
   } else {
-    contiguous_out archive{std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}),
-                           context};
+    contiguous_out archive{
+        std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}).subspan(old_size),
+        context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
-- 
2.43.0


From 3a5492f9efc225f87de41765e775cfcaa3520d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 26/55] fix: sinks are written in adaptive mode by default, as
 documented, and gRPC payloads in the mode requested

---
 include/hpp_proto/binpb/serialize.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index 6117b97..62e4213 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -606,10 +606,11 @@ constexpr status serialize(const T &item, Buffer &buffer, [[maybe_unused]] conce
 
 template <typename Context>
 consteval serialization_mode serialization_mode_for_context() {
-  if constexpr (requires { Context::serialization_mode; }) {
-    return Context::serialization_mode;
+  using context_type = std::remove_cvref_t<Context>;
+  if constexpr (requires { context_type::serialization_mode; }) {
+    return context_type::serialization_mode;
   } else {
-    return hpp_proto::serialization_mode::contiguous;
+    return hpp_proto::serialization_mode::adaptive;
   }
 }
 
-- 
2.43.0


From 220132b45a00a5e324a0ba09d6d1609f25952c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 27/55] fix: flat_map::erase and bulk construction keep the
 containers' allocators

---
 include/hpp_proto/flat_map.hpp | 49 ++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index b323cc1..a78c492 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -851,25 +851,27 @@ public:
   iterator erase(iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
-    auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
-    auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
-    using std::swap;
-    swap(c_.keys, copy.keys);
-    swap(c_.values, copy.values);
-    return flatmap_detail::make_iterator(kitmut, vitmut);
+    try {
+      auto kitmut = c_.keys.erase(c_.keys.begin() + (kit - c_.keys.begin()));
+      auto vitmut = c_.values.erase(c_.values.begin() + (vit - c_.values.begin()));
+      return flatmap_detail::make_iterator(kitmut, vitmut);
+    } catch (...) {
+      this->clear();
+      throw;
+    }
   }
 
   iterator erase(const_iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
-    auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
-    auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
-    using std::swap;
-    swap(c_.keys, copy.keys);
-    swap(c_.values, copy.values);
-    return flatmap_detail::make_iterator(kitmut, vitmut);
+    try {
+      auto kitmut = c_.keys.erase(c_.keys.begin() + (kit - c_.keys.begin()));
+      auto vitmut = c_.values.erase(c_.values.begin() + (vit - c_.values.begin()));
+      return flatmap_detail::make_iterator(kitmut, vitmut);
+    } catch (...) {
+      this->clear();
+      throw;
+    }
   }
 
   size_type erase(const Key &k) {
@@ -886,15 +888,16 @@ public:
     auto vfirst = first.private_impl_getmapped();
     auto klast = last.private_impl_getkey();
     auto vlast = last.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
-    auto kitmut =
-        copy.keys.erase(copy.keys.begin() + (kfirst - c_.keys.begin()), copy.keys.begin() + (klast - c_.keys.begin()));
-    auto vitmut = copy.values.erase(copy.values.begin() + (vfirst - c_.values.begin()),
-                                    copy.values.begin() + (vlast - c_.values.begin()));
-    using std::swap;
-    swap(c_.keys, copy.keys);
-    swap(c_.values, copy.values);
-    return flatmap_detail::make_iterator(kitmut, vitmut);
+    try {
+      auto kitmut =
+          c_.keys.erase(c_.keys.begin() + (kfirst - c_.keys.begin()), c_.keys.begin() + (klast - c_.keys.begin()));
+      auto vitmut = c_.values.erase(c_.values.begin() + (vfirst - c_.values.begin()),
+                                    c_.values.begin() + (vlast - c_.values.begin()));
+      return flatmap_detail::make_iterator(kitmut, vitmut);
+    } catch (...) {
+      this->clear();
+      throw;
+    }
   }
 
   void swap(flat_map &fm) noexcept
-- 
2.43.0


From 3736aa66eaf861109bfed33ee3f8b82a5e06b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 28/55] fix: flat_map::crbegin and crend are not swapped

---
 include/hpp_proto/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index a78c492..81f5a5c 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -587,8 +587,8 @@ public:
   reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
   const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
 
-  const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(begin()); }
-  const_reverse_iterator crend() const noexcept { return const_reverse_iterator(end()); }
+  const_reverse_iterator crbegin() const noexcept { return const_reverse_iterator(end()); }
+  const_reverse_iterator crend() const noexcept { return const_reverse_iterator(begin()); }
 
 #if __cplusplus >= 201703L
   [[nodiscard]]
-- 
2.43.0


From e9ba51e0caa4db6fd9f98b6b2a235145d5b7197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 29/55] fix: flat_map bulk construction with many equivalent
 keys is not quadratic

---
 include/hpp_proto/flat_map.hpp | 38 ++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index 81f5a5c..b475487 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -116,25 +116,28 @@ void swap_together(size_t i, size_t j, Its... its) {
   (void)dummy;
 }
 
-template <class Predicate, class Head, class... Rest>
-size_t partition_together(Predicate &pred, size_t left, size_t right, Head head, const Rest... rest) {
+template <class Predicate, class Predicate2, class Head, class... Rest>
+size_t partition_together(Predicate &less_than_pivot, Predicate2 &greater_than_pivot, size_t left, size_t right,
+                          Head head, const Rest... rest) {
+  // Elements equivalent to the pivot are spread over both sides, so that many duplicates don't degrade the sorting.
   while (left < right) {
-    while (left != right && pred(*(head + static_cast<std::ptrdiff_t>(left))))
-      ++left;
-    while (left != right && !pred(*(head + static_cast<std::ptrdiff_t>(right - 1))))
-      --right;
-    if (left + 1 < right) {
-      flatmap_detail::swap_together(left, right - 1, head, rest...);
+    while (left != right && less_than_pivot(*(head + static_cast<std::ptrdiff_t>(left))))
       ++left;
+    while (left != right && greater_than_pivot(*(head + static_cast<std::ptrdiff_t>(right - 1))))
       --right;
+    if (right - left <= 1) {
+      break;
     }
+    flatmap_detail::swap_together(left, right - 1, head, rest...);
+    ++left;
+    --right;
   }
   return right;
 }
 
 template <class Compare, class Head, class... Rest>
 void sort_together(Compare &less, size_t left, size_t right, Head head, Rest... rest) {
-  if (right - left >= 3) {
+  while (right - left >= 3) {
     size_t pivot_idx = left + (right - left) / 2;
     // Swap the pivot element all the way to the right.
     if (pivot_idx != right - 1) {
@@ -142,13 +145,22 @@ void sort_together(Compare &less, size_t left, size_t right, Head head, Rest...
     }
     const auto &pivot_elt = *(head + static_cast<std::ptrdiff_t>(right - 1));
     auto less_than_pivot = [&](const auto &x) -> bool { return less(x, pivot_elt); };
-    size_t correct_pivot_idx = flatmap_detail::partition_together(less_than_pivot, left, right - 1, head, rest...);
+    auto greater_than_pivot = [&](const auto &x) -> bool { return less(pivot_elt, x); };
+    size_t correct_pivot_idx =
+        flatmap_detail::partition_together(less_than_pivot, greater_than_pivot, left, right - 1, head, rest...);
     if (correct_pivot_idx != right - 1) {
       flatmap_detail::swap_together(correct_pivot_idx, right - 1, head, rest...);
     }
-    flatmap_detail::sort_together(less, left, correct_pivot_idx, head, rest...);
-    flatmap_detail::sort_together(less, correct_pivot_idx + 1, right, head, rest...);
-  } else if (right - left == 2) {
+    // Recurse into the smaller part only, so that the recursion depth is logarithmic.
+    if (correct_pivot_idx - left < right - (correct_pivot_idx + 1)) {
+      flatmap_detail::sort_together(less, left, correct_pivot_idx, head, rest...);
+      left = correct_pivot_idx + 1;
+    } else {
+      flatmap_detail::sort_together(less, correct_pivot_idx + 1, right, head, rest...);
+      right = correct_pivot_idx;
+    }
+  }
+  if (right - left == 2) {
     if (less(*(head + static_cast<std::ptrdiff_t>(left)), *(head + static_cast<std::ptrdiff_t>(left + 1)))) {
       // nothing to do
     } else {
-- 
2.43.0


From e8919d0fe267cecd1e1c1524c8961832db9694b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 30/55] fix: a throwing flat_map assignment keeps keys and
 values paired

---
 include/hpp_proto/flat_map.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index b475487..665b879 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -578,8 +578,38 @@ public:
   flat_map(sorted_unique_t s, std::initializer_list<value_type> il, const Alloc &a)
       : flat_map(s, il.begin(), il.end(), Compare(), a) {}
 
+  flat_map(const flat_map &) = default;
+  flat_map(flat_map &&) = default;
+  ~flat_map() = default;
+
   // ========================================================== OTHER MEMBERS
 
+  flat_map &operator=(const flat_map &other) {
+    try {
+      compare_ = other.compare_;
+      c_.keys = other.c_.keys;
+      c_.values = other.c_.values;
+    } catch (...) {
+      this->clear();
+      throw;
+    }
+    return *this;
+  }
+
+  flat_map &operator=(flat_map &&other) noexcept(std::is_nothrow_move_assignable<KeyContainer>::value &&
+                                                 std::is_nothrow_move_assignable<MappedContainer>::value &&
+                                                 std::is_nothrow_move_assignable<Compare>::value) {
+    try {
+      compare_ = std::move(other.compare_);
+      c_.keys = std::move(other.c_.keys);
+      c_.values = std::move(other.c_.values);
+    } catch (...) {
+      this->clear();
+      throw;
+    }
+    return *this;
+  }
+
   flat_map &operator=(std::initializer_list<value_type> il) {
     this->clear();
     this->insert(il);
-- 
2.43.0


From 9cb7f1599adc2339b52fc9090b3b44aa4114793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 31/55] fix: move assignment of indirect and optional_indirect
 from a part of their own value

---
 include/hpp_proto/indirect.hpp          | 13 +++++++++----
 include/hpp_proto/optional_indirect.hpp | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index d91dc2f..abeef55 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -117,18 +117,23 @@ public:
       return *this;
     }
     if constexpr (allocator_traits::propagate_on_container_move_assignment::value) {
+      // `other` may be part of the value held by `*this`
+      auto new_alloc = std::move(other.alloc_);
+      auto new_obj = std::exchange(other.obj_, nullptr);
       destroy();
-      alloc_ = std::move(other.alloc_);
-      obj_ = std::exchange(other.obj_, nullptr);
+      alloc_ = std::move(new_alloc);
+      obj_ = new_obj;
       return *this;
     } else if constexpr (allocator_traits::is_always_equal::value) {
+      auto new_obj = std::exchange(other.obj_, nullptr);
       destroy();
-      obj_ = std::exchange(other.obj_, nullptr);
+      obj_ = new_obj;
       return *this;
     } else {
       if (alloc_ == other.alloc_) {
+        auto new_obj = std::exchange(other.obj_, nullptr);
         destroy();
-        obj_ = std::exchange(other.obj_, nullptr);
+        obj_ = new_obj;
         return *this;
       }
       if (obj_) {
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 4dd4496..fc05b30 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -102,18 +102,23 @@ public:
       return *this;
     }
     if constexpr (allocator_traits::propagate_on_container_move_assignment::value) {
+      // `other` may be part of the value held by `*this`
+      auto new_alloc = std::move(other.alloc_);
+      auto new_obj = std::exchange(other.obj_, nullptr);
       reset();
-      alloc_ = std::move(other.alloc_);
-      obj_ = std::exchange(other.obj_, nullptr);
+      alloc_ = std::move(new_alloc);
+      obj_ = new_obj;
       return *this;
     } else if constexpr (allocator_traits::is_always_equal::value) {
+      auto new_obj = std::exchange(other.obj_, nullptr);
       reset();
-      obj_ = std::exchange(other.obj_, nullptr);
+      obj_ = new_obj;
       return *this;
     } else {
       if (alloc_ == other.alloc_) {
+        auto new_obj = std::exchange(other.obj_, nullptr);
         reset();
-        obj_ = std::exchange(other.obj_, nullptr);
+        obj_ = new_obj;
         return *this;
       }
       if (other.obj_) {
-- 
2.43.0


From 7efa7e3a453a03e3f7083f7eef921cb89be98df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 32/55] fix: copying, comparing and swapping a moved-from
 indirect doesn't dereference null

---
 include/hpp_proto/indirect.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index abeef55..2e75211 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -48,12 +48,12 @@ public:
 
   constexpr indirect(const indirect &other)
       : alloc_(allocator_traits::select_on_container_copy_construction(other.alloc_)),
-        obj_(allocate_construct(*other.raw_ptr())) {}
+        obj_(allocate_copy(other)) {}
   constexpr indirect(indirect &&other) noexcept(std::is_nothrow_move_constructible_v<allocator_type>)
       : alloc_(std::move(other.alloc_)), obj_(std::exchange(other.obj_, nullptr)) {}
 
   constexpr indirect(allocator_arg_t /*allocator_arg*/, allocator_type alloc, const indirect &other)
-      : alloc_(std::move(alloc)), obj_(allocate_construct(*other.raw_ptr())) {}
+      : alloc_(std::move(alloc)), obj_(allocate_copy(other)) {}
 
   // NOLINTNEXTLINE(cppcoreguidelines-rvalue-reference-param-not-moved)
   constexpr indirect(allocator_arg_t /*allocator_arg*/, allocator_type alloc, indirect &&other)
@@ -77,12 +77,14 @@ public:
         if (alloc_ != other.alloc_) {
           destroy();
           alloc_ = other.alloc_;
-          obj_ = allocate_construct(*other.raw_ptr());
+          obj_ = allocate_copy(other);
           return *this;
         }
         alloc_ = other.alloc_;
       }
-      if (obj_) {
+      if (!other.obj_) {
+        destroy();
+      } else if (obj_) {
         *raw_ptr() = *other.raw_ptr();
       } else {
         obj_ = allocate_construct(*other.raw_ptr());
@@ -136,7 +138,9 @@ public:
         obj_ = new_obj;
         return *this;
       }
-      if (obj_) {
+      if (!other.obj_) {
+        destroy();
+      } else if (obj_) {
         *raw_ptr() = std::move(*other.raw_ptr());
       } else {
         obj_ = allocate_construct(std::move(*other.raw_ptr()));
@@ -168,6 +172,9 @@ public:
       noexcept(noexcept(std::declval<const T &>() == std::declval<const T &>()))
     requires requires { *obj_ == *rhs.obj_; }
   {
+    if (!obj_ || !rhs.obj_) {
+      return !obj_ && !rhs.obj_;
+    }
     return *raw_ptr() == *rhs.raw_ptr();
   }
 
@@ -196,8 +203,14 @@ public:
     } else {
       if (alloc_ == other.alloc_) {
         swap(obj_, other.obj_);
-      } else {
+      } else if (obj_ && other.obj_) {
         swap(*raw_ptr(), *other.raw_ptr());
+      } else if (obj_) {
+        other.obj_ = other.allocate_construct(std::move(*raw_ptr()));
+        destroy();
+      } else if (other.obj_) {
+        obj_ = allocate_construct(std::move(*other.raw_ptr()));
+        other.destroy();
       }
     }
   }
@@ -231,6 +244,11 @@ private:
     return p;
   }
 
+  // A moved-from object holds nothing, and so does its copy.
+  constexpr pointer allocate_copy(const indirect &other) {
+    return other.obj_ ? allocate_construct(*other.raw_ptr()) : pointer{};
+  }
+
   constexpr void destroy() noexcept {
     if (obj_) {
       allocator_traits::destroy(alloc_, std::to_address(obj_));
-- 
2.43.0


From 497d6b3a70956a38ff28a9c01d8c2e964c2a5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 33/55] fix: swap of indirect and optional_indirect with
 propagating allocators swaps the values with them

---
 include/hpp_proto/indirect.hpp          | 4 ++--
 include/hpp_proto/optional_indirect.hpp | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index 2e75211..b45128c 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -197,8 +197,8 @@ public:
     using std::swap;
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
-    }
-    if constexpr (allocator_traits::is_always_equal::value) {
+      swap(obj_, other.obj_);
+    } else if constexpr (allocator_traits::is_always_equal::value) {
       swap(obj_, other.obj_);
     } else {
       if (alloc_ == other.alloc_) {
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index fc05b30..7b6ba94 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -214,6 +214,8 @@ public:
     using std::swap;
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
+      swap(obj_, other.obj_);
+      return;
     }
     if constexpr (allocator_traits::is_always_equal::value) {
       swap(obj_, other.obj_);
-- 
2.43.0


From 4d360bfe424c7c1d3bd1a3078f27274e94bd2cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 34/55] fix: base64 decoding rejects invalid characters before
 padding and ignores the padding's value

---
 include/hpp_proto/json/base64.hpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/hpp_proto/json/base64.hpp b/include/hpp_proto/json/base64.hpp
index c0ba9c7..ccc1715 100644
--- a/include/hpp_proto/json/base64.hpp
+++ b/include/hpp_proto/json/base64.hpp
@@ -179,8 +179,8 @@ struct base64 {
 
       uint32_t const a = decode_table[ch_a];
       uint32_t const b = decode_table[ch_b];
-      uint32_t const c = decode_table[ch_c];
-      uint32_t const d = decode_table[ch_d];
+      uint32_t c = decode_table[ch_c];
+      uint32_t d = decode_table[ch_d];
 
       if (!validate_and_decode_quartet(a, b, c, d, ch_c, ch_d, start, end)) {
         return false;
@@ -195,27 +195,22 @@ struct base64 {
 
   // Helper function to validate and decode a single base64 quartet
   // NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
-  constexpr static bool validate_and_decode_quartet(uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint8_t ch_c,
+  constexpr static bool validate_and_decode_quartet(uint32_t a, uint32_t b, uint32_t &c, uint32_t &d, uint8_t ch_c,
                                                     uint8_t ch_d, auto &source_begin, auto const &source_end) noexcept {
     if ((a | b | c | d) >= 64) {
       // Invalid character found. It might be padding.
-      if (ch_d == '=' && ch_c == '=') { // XY==
-        if (source_begin != source_end) {
-          return false; // padding must be at the end
-        }
-        if (c != 64 || d != 64) {
-          return false; // should not happen with '='
-        }
-      } else if (ch_d == '=') { // XYZ=
-        if (source_begin != source_end) {
-          return false;
-        }
-        if (d != 64) {
-          return false;
-        }
-      } else {
+      if ((a | b) >= 64 || ch_d != '=') {
         return false; // Not a valid padding sequence or invalid char
       }
+      if (source_begin != source_end) {
+        return false; // padding must be at the end
+      }
+      d = 0; // padding doesn't contribute to the value
+      if (ch_c == '=') {  // XY==
+        c = 0;
+      } else if (c >= 64) { // XYZ=
+        return false;
+      }
     }
     return true;
   }
-- 
2.43.0


From e6e27dbfb8c5fe039f95b72a6d9d2cea9e064c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 35/55] fix: timestamp decoding rejects negative zero
 components

---
 include/hpp_proto/json/timestamp_codec.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hpp_proto/json/timestamp_codec.hpp b/include/hpp_proto/json/timestamp_codec.hpp
index 506cec4..e9cb0e7 100644
--- a/include/hpp_proto/json/timestamp_codec.hpp
+++ b/include/hpp_proto/json/timestamp_codec.hpp
@@ -51,6 +51,9 @@ private:
       return false;
     }
     const auto *const next = std::next(ptr, width);
+    if (*ptr == '-') { // from_chars accepts a sign
+      return false;
+    }
     auto res = std::from_chars(ptr, next, val);
     if (res.ec != std::errc{} || res.ptr != next) {
       return false;
@@ -104,7 +107,7 @@ private:
     const auto *begin = nanos_sv.data();
     const auto *parse_end = std::next(begin, static_cast<std::ptrdiff_t>(nanos_sv.size()));
     auto r = std::from_chars(begin, parse_end, nanos);
-    if (r.ptr != parse_end || r.ec != std::errc() || nanos < 0) {
+    if (nanos_sv.front() == '-' || r.ptr != parse_end || r.ec != std::errc()) {
       return false;
     }
 
-- 
2.43.0


From 86e08a0d082b8e28f9ebf27b3f34beab0d685ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 36/55] fix: dynamic message serialization reports a sink that
 fails while a sub-message's tag is written

---
 .../dynamic_message/pb_serializer_ext.hpp     | 40 +++++--------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index 6cca7c5..da984f8 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -638,42 +638,20 @@ struct field_serializer {
                                [&](field_cref f) { return !is_present_or_explicit_default(f) || f.visit(*this); });
   }
 
-  struct message_tag_writer {
-    field_serializer *serializer;
-    int32_t number;
-    bool is_delimited;
-    message_tag_writer(const message_tag_writer &) = delete;
-    message_tag_writer(message_tag_writer &&) = delete;
-    message_tag_writer(field_serializer *ser, const field_descriptor_t &desc)
-        : serializer(ser), number(desc.proto().number), is_delimited(desc.resolved_info().is_delimited()) {
-      if (is_delimited) {
-        serializer->archive(make_tag(number, wire_type::sgroup));
-      } else {
-        serializer->archive(make_tag(number, wire_type::length_delimited), varint{*serializer->cache_itr++});
-      }
-    };
-
-    message_tag_writer &operator=(const message_tag_writer &) = delete;
-    message_tag_writer &operator=(message_tag_writer &&) = delete;
-    ~message_tag_writer() {
-      if (is_delimited) {
-        serializer->archive(make_tag(number, wire_type::egroup));
-      }
+  bool write_message(const field_descriptor_t &desc, message_value_cref msg) {
+    const auto number = desc.proto().number;
+    if (desc.resolved_info().is_delimited()) {
+      return archive(make_tag(number, wire_type::sgroup)) && (*this)(msg) &&
+             archive(make_tag(number, wire_type::egroup));
     }
-  };
-
-  bool operator()(message_field_cref item) {
-    const field_descriptor_t &desc = item.descriptor();
-    const message_tag_writer tag_writer{this, desc};
-    return (*this)(item.value());
+    return archive(make_tag(number, wire_type::length_delimited), varint{*cache_itr++}) && (*this)(msg);
   }
 
+  bool operator()(message_field_cref item) { return write_message(item.descriptor(), item.value()); }
+
   bool operator()(repeated_message_field_cref item) {
     const field_descriptor_t &desc = item.descriptor();
-    return std::ranges::all_of(item, [&](auto e) {
-      const message_tag_writer tag_writer{this, desc};
-      return (*this)(e);
-    });
+    return std::ranges::all_of(item, [&](auto e) { return write_message(desc, e); });
   }
 };
 
-- 
2.43.0


From 1323093b3d8e3aaa70a02a875dc54388945cfbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 37/55] fix: dynamic message field emplace does not select a
 message whose allocation failed

---
 include/hpp_proto/dynamic_message/message_fields.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index fd36c01..a541cd1 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -621,9 +621,11 @@ public:
 
   message_value_mref emplace() const { // NOLINT(modernize-use-nodiscard)
     if (!has_value()) {
-      storage_->of_message.selection = descriptor_->resolved_info().selection_ordinal();
-      storage_->of_message.content = static_cast<value_storage *>(
+      // allocate before selecting: a failed allocation must not leave a selected message without content
+      auto *content = static_cast<value_storage *>(
           memory_resource_->allocate(sizeof(value_storage) * num_slots(), alignof(value_storage)));
+      storage_->of_message.content = content;
+      storage_->of_message.selection = descriptor_->resolved_info().selection_ordinal();
     }
     auto result = message_value_mref{message_descriptor(), storage_->of_message.content, *memory_resource_};
     result.reset();
-- 
2.43.0


From df534578ce0698f4de80abfd20413605aba6f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 38/55] fix: cloning a dynamic message from itself keeps its
 nested messages

---
 include/hpp_proto/dynamic_message/message_fields.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index a541cd1..fe62d22 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -55,6 +55,7 @@ class message_value_cref {
     return field_cref{desc, storage_for(desc)};
   }
   friend class repeated_field_iterator<message_value_cref>;
+  friend class message_value_mref;
   using reference = field_cref;
 
 public:
@@ -479,6 +480,9 @@ public:
 
   void clone_from(const cref_type &other) const {
     assert(this->descriptor_ == &other.descriptor());
+    if (storage_ == other.storage_) {
+      return;
+    }
     for (std::size_t i = 0; i < descriptor_->fields().size(); ++i) {
       fields()[i].clone_from(other.fields()[i]);
     }
@@ -574,6 +578,7 @@ public:
   }
 
 private:
+  friend class message_field_mref;
   const field_descriptor_t *descriptor_;
   const value_storage *storage_;
   [[nodiscard]] std::size_t num_slots() const { return descriptor_->message_field_type_descriptor()->num_slots; }
@@ -675,6 +680,9 @@ public:
   void clone_from(const cref_type &other) const {
     assert(&this->message_descriptor() == &other.message_descriptor());
     if (other.has_value()) {
+      if (has_value() && storage_->of_message.content == other.storage_->of_message.content) {
+        return;
+      }
       emplace().clone_from(*other);
     } else {
       this->reset();
-- 
2.43.0


From e78ca50c817dca7d45aa8b4b2ee8d04de9e4febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 39/55] fix: map fields are never encoded as groups, whatever
 the file's message_encoding feature

---
 include/hpp_proto/descriptor_pool.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hpp_proto/descriptor_pool.hpp b/include/hpp_proto/descriptor_pool.hpp
index b3383be..5471e79 100644
--- a/include/hpp_proto/descriptor_pool.hpp
+++ b/include/hpp_proto/descriptor_pool.hpp
@@ -953,6 +953,11 @@ private:
         if (desc->is_map_entry()) {
           f.field_option_bitset_ |= mask(field_option_mask::MASK_MAP_ENTRY);
         }
+        // maps never use the delimited encoding, neither for their entries nor for the values in them
+        if (f.proto_.type == FieldDescriptorProto::Type::TYPE_MESSAGE &&
+            (desc->is_map_entry() || (f.parent_message_ != nullptr && f.parent_message_->is_map_entry()))) {
+          f.field_option_bitset_ &= static_cast<uint8_t>(~mask(field_option_mask::MASK_DELIMITED));
+        }
       } else if (f.proto_.type == FieldDescriptorProto::Type::TYPE_ENUM) {
         auto desc = find_type(enum_map_, f.proto_.type_name);
         if (!desc) {
-- 
2.43.0


From 6d82d11f94440c64d98a68f56694092eba3bd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 40/55] fix: a file level extension of a message type in a
 dependency cycle no longer crashes the generator

---
 src/protoc-plugin/hpp_generator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index fc66b6c..8795313 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -622,7 +622,8 @@ struct code_generator {
     for (auto *f : depended->used_by_fields) {
       auto *field = static_cast<field_descriptor_t *>(f);
       auto *message = parent_message_of(field);
-      if (message->parent_file() != depended->parent_file()) {
+      // A file level extension has no parent message.
+      if (message == nullptr || message->parent_file() != depended->parent_file()) {
         continue;
       }
       if (std::ranges::find(unresolved, message) != unresolved.end()) {
@@ -646,7 +647,8 @@ struct code_generator {
     for (auto *f : depended->used_by_fields) {
       auto *field = static_cast<field_descriptor_t *>(f);
       auto *message = parent_message_of(field);
-      if (message->parent_file() != depended->parent_file()) {
+      // A file level extension has no parent message.
+      if (message == nullptr || message->parent_file() != depended->parent_file()) {
         continue;
       }
       if (std::ranges::find(unresolved, message) != unresolved.end() || message->is_map_entry()) {
-- 
2.43.0


From 10ab8115183ec48c44dab97424430ee8db018ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 41/55] fix: proto3 optional fields with a capitalised name are
 not refused for their compiler made oneof name

---
 src/protoc-plugin/hpp_generator.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 8795313..9a30bd2 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -425,9 +425,21 @@ struct hpp_addons {
 
     explicit oneof_descriptor(Derived &self, context_type &context, [[maybe_unused]] const auto &inherited_options,
                               [[maybe_unused]] std::pmr::memory_resource *resource)
-        : cpp_name(cpp_identifier(self.proto().name, context.generation->diagnostics)),
+        : cpp_name(unchecked_identifier(self.proto().name)),
           case_name(cpp_name.append_word(cpp_identifier("oneof_case", context.generation->diagnostics))),
           number_table_name(cpp_name.append_word(cpp_identifier("oneof_numbers", context.generation->diagnostics))) {}
+
+    // The name is diagnosed by validate_message_members, when it is known whether it is a compiler made one.
+    static cpp::identifier unchecked_identifier(std::string_view name) {
+      generation_diagnostics ignored;
+      return cpp_identifier(name, ignored);
+    }
+
+    // The oneof of a proto3 optional field: protoc derives its name from the field's and nothing is generated under it.
+    [[nodiscard]] bool is_synthetic() const {
+      auto fields = static_cast<const Derived &>(*this).fields();
+      return fields.size() == 1 && fields.front().proto().proto3_optional;
+    }
   };
 
   template <typename Derived>
@@ -990,12 +1002,19 @@ struct code_generator {
     validate_range(message.fields(), "field", false, false);
     validate_range(message.messages(), "nested message", true, false);
     validate_range(message.enums(), "nested enum", true, false);
-    validate_range(message.oneofs(), "oneof", false, false);
+    const auto is_declared = [](const auto &oneof) { return !oneof.is_synthetic(); };
+    for (const auto &oneof : message.oneofs() | std::views::filter(is_declared)) {
+      cpp_identifier(oneof.proto().name, diagnostics);
+    }
+    validate_range(message.oneofs() | std::views::filter(is_declared), "oneof", false, false);
     validate_range(message.extensions(), "extension", false, true);
   }
 
   static void validate_oneof_helpers(message_descriptor_t &message, generation_diagnostics &diagnostics) {
     for (auto &oneof : message.oneofs()) {
+      if (oneof.is_synthetic()) {
+        continue;
+      }
       oneof.case_name = oneof.cpp_name.append_word(cpp_identifier("oneof_case", diagnostics));
       oneof.number_table_name = oneof.cpp_name.append_word(cpp_identifier("oneof_numbers", diagnostics));
       if (oneof.case_name == message.cpp_name || message_schema_uses_name(message, oneof.case_name)) {
-- 
2.43.0


From 4a710dfe2c20db98a0a70800f9f33d4fd8e5ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 42/55] fix: messages which use each other's nested types no
 longer generate references to undeclared types

---
 src/protoc-plugin/hpp_generator.cpp | 75 +++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 9a30bd2..fccbe66 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -450,10 +450,13 @@ struct hpp_addons {
     std::vector<void *> used_by_fields;
     std::set<Derived *> dependencies;
     std::set<Derived *> forward_messages;
+    // messages whose nested types this message uses even though it is emitted before them
+    std::set<Derived *> forward_scopes;
     cpp::source_fragment qualified_name;
     cpp::source_fragment no_namespace_qualified_name;
     bool has_recursive_map_field = false;
     bool has_non_map_nested_message = false;
+    bool nested_enums_emitted = false;
 
     explicit message_descriptor(Derived &self, context_type &context, [[maybe_unused]] const auto &inherited_options,
                                 [[maybe_unused]] std::pmr::memory_resource *resource)
@@ -583,9 +586,16 @@ struct code_generator {
     return field.proto().type == TYPE_MESSAGE || field.proto().type == TYPE_GROUP;
   }
 
+  static bool is_same_or_nested_in(const message_descriptor_t *message, const message_descriptor_t *scope) {
+    while (message != nullptr && message != scope) {
+      message = message->parent_message();
+    }
+    return message != nullptr;
+  }
+
   static void mark_field_recursive(message_descriptor_t &descriptor, const message_descriptor_t *dep) {
     for (auto &f : descriptor.fields()) {
-      if (is_message_field(f) && f.message_field_type_descriptor() == dep) {
+      if (is_message_field(f) && is_same_or_nested_in(f.message_field_type_descriptor(), dep)) {
         f.is_recursive = true;
       }
     }
@@ -594,14 +604,8 @@ struct code_generator {
     }
   }
 
-  // A type nested inside `dep` cannot be forward declared, so `descriptor` must be emitted after `dep`.
+  // `descriptor` is best emitted after `dep`: a type nested inside `dep` needs more than a forward declaration of `dep`.
   static bool uses_nested_type_of(message_descriptor_t &descriptor, const message_descriptor_t *dep) {
-    const auto is_nested_in_dep = [dep](const message_descriptor_t *scope) {
-      while (scope != nullptr && scope != dep) {
-        scope = scope->parent_message();
-      }
-      return scope == dep;
-    };
     for (auto &f : descriptor.fields()) {
       const message_descriptor_t *scope = nullptr;
       if (is_message_field(f)) {
@@ -609,7 +613,7 @@ struct code_generator {
       } else if (f.proto().type == FieldDescriptorProto::Type::TYPE_ENUM) {
         scope = f.enum_field_type_descriptor()->parent_message();
       }
-      if (is_nested_in_dep(scope)) {
+      if (is_same_or_nested_in(scope, dep)) {
         return true;
       }
     }
@@ -720,10 +724,14 @@ struct code_generator {
         }
       }
     }
+    // Every remaining edge uses nested types; they are declared along with the message they are nested in.
     auto &descriptor = *unresolved.back();
-    auto *depended = *descriptor.dependencies.begin();
+    auto *depended = *std::ranges::find_if(descriptor.dependencies, [&unresolved](auto *dep) {
+      return std::ranges::find(unresolved, dep) != unresolved.end();
+    });
     descriptor.dependencies.erase(depended);
     descriptor.forward_messages.insert(depended);
+    descriptor.forward_scopes.insert(depended);
     mark_field_recursive(descriptor, depended);
   }
 
@@ -1376,6 +1384,13 @@ struct msg_code_generator : code_generator {
     return descriptor.cpp_field_type;
   }
 
+  // `message` is only declared, not defined, where `user` is emitted.
+  static bool is_forward_declared_for(const message_descriptor_t &user, message_descriptor_t *message) {
+    return user.forward_messages.contains(message) ||
+           std::ranges::any_of(user.forward_scopes,
+                               [message](const auto *scope) { return is_same_or_nested_in(message, scope); });
+  }
+
   static bool needs_indirect_oneof_alternative(field_descriptor_t &descriptor) {
     using enum FieldDescriptorProto::Type;
     auto type = descriptor.proto().type;
@@ -1385,7 +1400,7 @@ struct msg_code_generator : code_generator {
 
     auto *parent = descriptor.parent_message();
     auto *message_type = descriptor.message_field_type_descriptor();
-    return parent != nullptr && message_type != nullptr && message_type->forward_messages.contains(parent);
+    return parent != nullptr && message_type != nullptr && is_forward_declared_for(*message_type, parent);
   }
 
   // The alternative's type is incomplete where the oneof member is declared: it is the message owning the oneof, one of
@@ -1396,7 +1411,7 @@ struct msg_code_generator : code_generator {
     }
     auto *message_type = descriptor.message_field_type_descriptor();
     for (auto *scope = descriptor.parent_message(); scope != nullptr; scope = scope->parent_message()) {
-      if (scope == message_type || scope->forward_messages.contains(message_type)) {
+      if (scope == message_type || is_forward_declared_for(*scope, message_type)) {
         return true;
       }
     }
@@ -1523,6 +1538,35 @@ struct msg_code_generator : code_generator {
   }
 
   // NOLINTBEGIN(misc-no-recursion,readability-function-cognitive-complexity)
+  void process_enums(message_descriptor_t &descriptor) {
+    if (!std::exchange(descriptor.nested_enums_emitted, true)) {
+      for (auto &e : descriptor.enums()) {
+        process(e);
+      }
+    }
+  }
+
+  // Declare the types nested in `descriptor` for a message which is emitted before it.
+  void declare_nested_types(message_descriptor_t &descriptor) {
+    if (descriptor.enums().empty() && !descriptor.has_non_map_nested_message) {
+      return;
+    }
+    cpp::emit_to(target, "{}namespace {} {{\n", source_indent(), descriptor.nested_scope_name);
+    indent_num += 2;
+    process_enums(descriptor);
+    for (auto &m : descriptor.messages()) {
+      if (!m.is_map_entry()) {
+        cpp::emit_to(target,
+                     "{0}template <typename Traits>\n"
+                     "{0}struct {1};\n",
+                     source_indent(), m.cpp_name);
+        declare_nested_types(m);
+      }
+    }
+    indent_num -= 2;
+    cpp::emit_to(target, "{}}} //namespace {}\n\n", source_indent(), descriptor.nested_scope_name);
+  }
+
   void process(message_descriptor_t &descriptor, const std::string &pb_scope) {
     if (descriptor.is_map_entry()) {
       return;
@@ -1538,13 +1582,14 @@ struct msg_code_generator : code_generator {
                    "{0}struct {1};\n",
                    source_indent(), fwd->cpp_name);
     }
+    for (auto *scope : descriptor.forward_scopes) {
+      declare_nested_types(*scope);
+    }
 
     if (!descriptor.enums().empty() || descriptor.has_non_map_nested_message) {
       cpp::emit_to(target, "{}namespace {} {{\n", source_indent(), descriptor.nested_scope_name);
       indent_num += 2;
-      for (auto &e : descriptor.enums()) {
-        process(e);
-      }
+      process_enums(descriptor);
 
       for (auto *m : order_messages(descriptor.messages())) {
         process(*m, descriptor.pb_name);
-- 
2.43.0


From bee975388f591e8e36cc1a009fe0a1fc85270559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 43/55] fix: generated type names are qualified from the global
 namespace and cannot be hidden by inner names

---
 src/protoc-plugin/hpp_generator.cpp | 47 +++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index fccbe66..2f3b108 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -353,7 +353,8 @@ struct hpp_addons {
       if (!proto.default_value.empty()) {
         std::string unescaped;
         if (!::hpp_proto::detail::unescape_bytes_default(proto.default_value, unescaped)) {
-          diagnostics.record(std::format("invalid escape sequence in the default value of bytes field '{}'", proto.name));
+          diagnostics.record(
+              std::format("invalid escape sequence in the default value of bytes field '{}'", proto.name));
           return;
         }
         default_value_template_arg =
@@ -604,7 +605,8 @@ struct code_generator {
     }
   }
 
-  // `descriptor` is best emitted after `dep`: a type nested inside `dep` needs more than a forward declaration of `dep`.
+  // `descriptor` is best emitted after `dep`: a type nested inside `dep` needs more than a forward declaration of
+  // `dep`.
   static bool uses_nested_type_of(message_descriptor_t &descriptor, const message_descriptor_t *dep) {
     for (auto &f : descriptor.fields()) {
       const message_descriptor_t *scope = nullptr;
@@ -795,11 +797,11 @@ struct code_generator {
   }
 
   static void set_field_cpp_type(field_descriptor_t &field, std::string_view relative_type_name, bool is_nested,
-                                 generation_diagnostics &diagnostics) {
+                                 std::string_view common_ancestor, generation_diagnostics &diagnostics) {
     using enum FieldDescriptorProto::Type;
     auto type = field.proto().type;
     if (type == TYPE_ENUM) {
-      field.qualified_cpp_field_type = cpp::format("{}", field.enum_field_type_descriptor()->qualified_name);
+      field.qualified_cpp_field_type = cpp::format("::{}", field.enum_field_type_descriptor()->qualified_name);
     } else {
       field.qualified_cpp_field_type = cpp::format("{}", field.message_field_type_descriptor()->qualified_name);
     }
@@ -835,8 +837,31 @@ struct code_generator {
       auto reverse_it =
           std::ranges::find_if(reverse_view, [&num_colons](char c) mutable { return c == ':' && (--num_colons == 0); });
       auto pos = static_cast<std::size_t>(std::distance(v.begin(), reverse_it.base()));
-      field.cpp_field_type = field.qualified_cpp_field_type.substr(pos);
+      const auto relative_type = field.qualified_cpp_field_type.substr(pos);
+      field.cpp_field_type = is_hidden_from(field, common_ancestor,
+                                            relative_type.view().substr(0, relative_type.view().find_first_of(":<")))
+                                 ? field.qualified_cpp_field_type
+                                 : relative_type;
+    }
+  }
+
+  // An inner scope of `common_ancestor` which encloses `field` declares `name`, too.
+  static bool is_hidden_from(field_descriptor_t &field, std::string_view common_ancestor, std::string_view name) {
+    const auto declares = [name](auto &&range) {
+      return std::ranges::any_of(range, [name](const auto &descriptor) { return descriptor.cpp_name.view() == name; });
+    };
+    for (auto *scope = field.parent_message(); scope != nullptr && scope->full_name().size() > common_ancestor.size();
+         scope = scope->parent_message()) {
+      const auto declares_nested = [name](const auto &message) {
+        return message.cpp_name.view() == name || message.nested_scope_name.view() == name;
+      };
+      if (declares_nested(*scope) || std::ranges::any_of(scope->messages(), declares_nested) ||
+          declares(scope->fields()) || declares(scope->oneofs()) || declares(scope->enums()) ||
+          declares(scope->extensions())) {
+        return true;
+      }
     }
+    return false;
   }
 
   /**
@@ -888,7 +913,8 @@ struct code_generator {
 
     auto relative_field_type =
         field_type_name.substr(common_ancestor.size() + (field_type_name.size() > common_ancestor.size() ? 1 : 0));
-    set_field_cpp_type(field, relative_field_type, common_ancestor.size() == field_message_name.size(), diagnostics);
+    set_field_cpp_type(field, relative_field_type, common_ancestor.size() == field_message_name.size(), common_ancestor,
+                       diagnostics);
 
     // If the common ancestor equals dependee_name, the field's type is a nested enum of the enclosing message or a
     // file level enum. If the common ancestor equals dependent_name, the field's type is a nested message of the
@@ -1222,7 +1248,8 @@ struct code_generator {
   // NOLINTNEXTLINE(misc-no-recursion)
   static void resolve_message_qualified_name(message_descriptor_t &msg, const message_name_scope &scope) {
     const auto unqualified_name = scope.nesting.append(msg.cpp_name);
-    msg.qualified_name = cpp::format("{}<Traits>", scope.namespace_prefix.append(unqualified_name));
+    // Start from the global namespace: a component may reappear as the name of an inner namespace or of a member.
+    msg.qualified_name = cpp::format("::{}<Traits>", scope.namespace_prefix.append(unqualified_name));
     msg.no_namespace_qualified_name = cpp::format("{}<Traits>", unqualified_name);
 
     const message_name_scope nested_scope = {
@@ -1606,7 +1633,7 @@ struct msg_code_generator : code_generator {
     indent_num += 2;
     format_to(target, "{}using hpp_proto_traits_type = Traits;\n", indent());
     for (auto &e : descriptor.enums()) {
-      cpp::emit_to(target, "{}using {} = {};\n", source_indent(), e.cpp_name, e.qualified_name);
+      cpp::emit_to(target, "{}using {} = ::{};\n", source_indent(), e.cpp_name, e.qualified_name);
     }
 
     if (well_known_codecs.contains(descriptor.pb_name)) {
@@ -1745,7 +1772,7 @@ struct hpp_meta_generator : code_generator {
       pb_name = pb_scope + "." + pb_name;
     }
 
-    auto &qualified_name = descriptor.no_namespace_qualified_name;
+    auto &qualified_name = descriptor.qualified_name;
 
     cpp::emit_to(target,
                  "{0}template <typename Traits>\n"
@@ -1949,7 +1976,7 @@ struct hpp_meta_generator : code_generator {
     if (fields.size() > 1) {
       format_to(target, "{}::hpp_proto::oneof_field_meta<\n", indent());
       indent_num += 2;
-      cpp::emit_to(target, "{}&{}::{},\n", source_indent(), parent.no_namespace_qualified_name, descriptor.cpp_name);
+      cpp::emit_to(target, "{}&{}::{},\n", source_indent(), parent.qualified_name, descriptor.cpp_name);
       std::size_t i = 0;
       for (auto &f : fields) {
         process(f, ++i);
-- 
2.43.0


From b2f918980353577d8d5485fafb296bfbd65a102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 44/55] fix: generated service headers can be included more
 than once

---
 src/protoc-plugin/hpp_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 2f3b108..8fb13ff 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -2543,6 +2543,7 @@ struct service_generator : code_generator {
     auto path = descriptor.proto().name;
     gen_file_header(path);
     file.name = path.substr(0, path.size() - proto_suffix_length) + "service.hpp";
+    format_to(target, "#pragma once\n\n");
 
     for (const auto &d : descriptor.proto().dependency) {
       auto include = generated_include(d, ".pb.hpp");
-- 
2.43.0


From c6673dffbf383468db7bc36107d8465815049f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 45/55] fix: descriptor headers are generated for files without
 messages, which other descriptor headers include

---
 src/protoc-plugin/hpp_generator.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 8fb13ff..7d821a5 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -2634,10 +2634,8 @@ void generate_outputs_for_file(CodeGeneratorResponse &response, hpp_gen_descript
     return;
   }
 
-  if (!descriptor.messages().empty()) {
-    desc_hpp_generator desc_hpp_code(response.file, context);
-    desc_hpp_code.process(descriptor);
-  }
+  desc_hpp_generator desc_hpp_code(response.file, context);
+  desc_hpp_code.process(descriptor);
   if (context.diagnostics.has_error() || descriptor.proto().service.empty()) {
     return;
   }
-- 
2.43.0


From 04d29da0793b3906b8f475c0cb3fea20a7d38dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 46/55] fix: an enum whose values are more than INT32_MAX apart
 is not taken for one without gaps

---
 src/protoc-plugin/hpp_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 7d821a5..cf4c456 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -410,7 +410,7 @@ struct hpp_addons {
       std::ranges::transform(self.proto().value, sorted_values.begin(), [](auto &desc) { return desc.number; });
       std::ranges::sort(sorted_values);
       for (unsigned i = 1; i < sorted_values.size(); ++i) {
-        if (sorted_values[i] - sorted_values[i - 1] > 1) {
+        if (std::int64_t{sorted_values[i]} - sorted_values[i - 1] > 1) {
           continuous = false;
           break;
         }
-- 
2.43.0


From b538a709586523bda0756e0510c58faf245e0b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 47/55] fix: proto2_explicit_presence scopes match whole name
 components, and an empty one no longer aborts the generator

---
 src/protoc-plugin/hpp_generator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index cf4c456..8178cd9 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -1469,7 +1469,13 @@ struct msg_code_generator : code_generator {
             : (descriptor.proto().label == LABEL_OPTIONAL &&
                (descriptor.proto().type == TYPE_MESSAGE || descriptor.proto().type == TYPE_GROUP ||
                 std::ranges::any_of(context.options().proto2_explicit_presences, [&qualified_name](const auto &s) {
-                  return qualified_name.starts_with(std::string_view{s}.substr(1));
+                  if (s.empty()) {
+                    return false;
+                  }
+                  const auto scope = std::string_view{s}.substr(1);
+                  return qualified_name.starts_with(scope) &&
+                         (scope.empty() || scope.ends_with('.') || qualified_name.size() == scope.size() ||
+                          qualified_name[scope.size()] == '.');
                 })));
   }
 
-- 
2.43.0


From 6a0de3877882263c0f7c3f0c565ca9750497c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 48/55] fix: an enum without values is refused instead of read
 out of bounds

---
 src/protoc-plugin/hpp_generator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protoc-plugin/hpp_generator.cpp b/src/protoc-plugin/hpp_generator.cpp
index 8178cd9..1ec9367 100644
--- a/src/protoc-plugin/hpp_generator.cpp
+++ b/src/protoc-plugin/hpp_generator.cpp
@@ -946,6 +946,10 @@ struct code_generator {
     resolve_field_dependency(pool, field.qualified_parent_name(), field, diagnostics);
     auto *enum_d = field.enum_field_type_descriptor();
     if (enum_d != nullptr) {
+      if (enum_d->proto().value.empty()) {
+        diagnostics.record(std::format("hpp enum without values: {}", enum_d->full_name()));
+        return;
+      }
       field.is_closed_enum = enum_d->is_closed();
       if (!field.proto().default_value.empty()) {
         field.set_enum_default_value(field.proto(), diagnostics);
-- 
2.43.0


From 655beb49b1462281d7e2a9b9602b273d874280e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 49/55] fix: a variant of indirects of mutually recursive
 messages compiles with gcc

Copying an indirect considered its constructor and assignment from const T&,
which instantiated T while the variant T holds was itself being instantiated.
---
 include/hpp_proto/indirect.hpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index b45128c..e5dd359 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -37,11 +37,12 @@ public:
                               Args &&...args)
       : alloc_(std::move(alloc)), obj_(allocate_construct(std::forward<Args>(args)...)) {}
 
+  // Not a constructor from `const T &`: copying an indirect would then need T to be complete, which it isn't yet when
+  // T holds, in a variant, an indirect of itself.
+  template <class U = T>
+    requires(!std::is_same_v<std::remove_cvref_t<U>, indirect> && std::is_convertible_v<U &&, T>)
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
-  constexpr indirect(T &&object) : obj_(allocate_construct(std::move(object))) {}
-
-  // NOLINTNEXTLINE(hicpp-explicit-conversions)
-  constexpr indirect(const T &object) : obj_(allocate_construct(object)) {}
+  constexpr indirect(U &&object) : obj_(allocate_construct(std::forward<U>(object))) {}
 
   constexpr indirect(allocator_arg_t /*allocator_arg*/, allocator_type alloc, T &&object)
       : alloc_(std::move(alloc)), obj_(allocate_construct(std::move(object))) {}
@@ -93,20 +94,13 @@ public:
     return *this;
   }
 
-  constexpr indirect &operator=(T &&other) {
-    if (obj_) {
-      *raw_ptr() = std::move(other);
-    } else {
-      obj_ = allocate_construct(std::move(other));
-    }
-    return *this;
-  }
-
-  constexpr indirect &operator=(const T &other) {
+  template <class U = T>
+    requires(!std::is_same_v<std::remove_cvref_t<U>, indirect> && std::is_convertible_v<U &&, T>)
+  constexpr indirect &operator=(U &&other) {
     if (obj_) {
-      *raw_ptr() = other;
+      *raw_ptr() = std::forward<U>(other);
     } else {
-      obj_ = allocate_construct(other);
+      obj_ = allocate_construct(std::forward<U>(other));
     }
     return *this;
   }
-- 
2.43.0


From 05cbaa665448b3b994c5c0fbaf9331753e2c4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 50/55] fix: serialization options of streaming server calls
 compile

---
 include/hpp_proto/grpc/server.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index de1db72..60b1b4b 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -105,8 +105,8 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, *resp_buf_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     this->Finish(std::move(result));
   }
 
@@ -130,8 +130,8 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -142,7 +142,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
@@ -153,8 +153,8 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWriteAndFinish(&response_, options, std::move(s));
     } else {
@@ -166,13 +166,14 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     this->finish(reply, ::grpc::WriteOptions{}, ::grpc::Status{},
-                 std::forward<serialization_option>(serialization_option)...);
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->finish(reply, options, ::grpc::Status{}, std::forward<serialization_option>(serialization_option)...);
+    this->finish(reply, options, ::grpc::Status{},
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
@@ -203,8 +204,8 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+    auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
+                                                 std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -215,7 +216,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
-- 
2.43.0


From 511edfbed555f5527a03e426a9181161e2cc3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 51/55] fix: holds of client reactors compile

---
 include/hpp_proto/grpc/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index d87e0e1..18bbdef 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -232,7 +232,7 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddHold(holds);
+    this->AddMultipleHolds(holds);
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
-- 
2.43.0


From eacf1f040035aef2cdf7ab7ccdec98fae9ec2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 52/55] fix: calls ended with OK but without a reply no longer
 abort the server

gRPC asserts that a message goes with the OK status of a unary or client
streaming call. The library itself ends client streams this way when the
handler has no on_read_eof.
---
 include/hpp_proto/grpc/server.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index 60b1b4b..84643a6 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -60,7 +60,12 @@ public:
       : context_(context), resp_buf_(resp_buf) {}
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
-  void finish(::grpc::Status s) { this->Finish(std::move(s)); }
+  void finish(::grpc::Status s) {
+    if (s.ok() && !resp_buf_->Valid()) {
+      *resp_buf_ = ::grpc::ByteBuffer{nullptr, 0}; // gRPC requires a message along with an OK status
+    }
+    this->Finish(std::move(s));
+  }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::Status s,
@@ -100,7 +105,12 @@ public:
   void start_read() { this->StartRead(&request_); }
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
-  void finish(::grpc::Status s) { this->Finish(std::move(s)); }
+  void finish(::grpc::Status s) {
+    if (s.ok() && !resp_buf_->Valid()) {
+      *resp_buf_ = ::grpc::ByteBuffer{nullptr, 0}; // gRPC requires a message along with an OK status
+    }
+    this->Finish(std::move(s));
+  }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply,
@@ -277,7 +287,7 @@ protected:
         handled = handler_.on_write_error(*this);
       }
       if (!handled) {
-        this->Finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED
+        this->finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED
                                                    : ::grpc::Status{::grpc::StatusCode::UNKNOWN, "write failed"});
       }
     }
@@ -304,7 +314,7 @@ protected:
         }
       }
       if (!handled) {
-        this->Finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED : ::grpc::Status::OK);
+        this->finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED : ::grpc::Status::OK);
       }
     }
   }
-- 
2.43.0


From 919b9a3e1b386573178e01b9730f0938ff335cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 53/55] fix: streaming calls ended twice no longer abort the
 server

A call can be ended by its handler, by a reply that cannot be serialized and
by the fallbacks for failed reads and writes; only the first end reaches gRPC.
---
 include/hpp_proto/grpc/server.hpp | 64 +++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index 84643a6..4db0d2d 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <atomic>
+
 #include <grpcpp/grpcpp.h>
 #include <grpcpp/impl/service_type.h>
 #include <grpcpp/support/server_callback.h>
@@ -49,6 +51,16 @@ public:
 template <typename Method, RpcType Type = static_cast<RpcType>(Method::rpc_type)>
 class ServerRPC;
 
+/// Tells the first end of a streaming call from later ones: a call can be ended by its handler, by a reply which cannot
+/// be serialized, and by the fallbacks for reads and writes that fail, but gRPC aborts when it is ended twice.
+class call_end {
+  std::atomic<bool> ended_{false};
+
+public:
+  [[nodiscard]] bool first() { return !ended_.exchange(true); }
+  [[nodiscard]] bool ended() const { return ended_.load(); }
+};
+
 // NOLINTBEGIN(portability-template-virtual-member-function)
 template <typename Method>
 class ServerRPC<Method, RpcType::NORMAL_RPC> : public ::grpc::ServerUnaryReactor {
@@ -92,6 +104,7 @@ public:
 template <typename Method>
 class ServerRPC<Method, RpcType::CLIENT_STREAMING> : public ::grpc::ServerReadReactor<::grpc::ByteBuffer> {
   ::grpc::CallbackServerContext *context_;
+  call_end end_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer *resp_buf_;
 
@@ -106,6 +119,9 @@ public:
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
   void finish(::grpc::Status s) {
+    if (!end_.first()) {
+      return;
+    }
     if (s.ok() && !resp_buf_->Valid()) {
       *resp_buf_ = ::grpc::ByteBuffer{nullptr, 0}; // gRPC requires a message along with an OK status
     }
@@ -115,12 +131,18 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!end_.first()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, *resp_buf_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
     this->Finish(std::move(result));
   }
 
   void finish(const ::grpc::ByteBuffer &response, ::grpc::Status s = ::grpc::Status{}) {
+    if (!end_.first()) {
+      return;
+    }
     *resp_buf_ = response;
     this->Finish(std::move(s));
   }
@@ -129,23 +151,31 @@ public:
 template <typename Method>
 class ServerRPC<Method, RpcType::SERVER_STREAMING> : public ::grpc::ServerWriteReactor<::grpc::ByteBuffer> {
   ::grpc::CallbackServerContext *context_;
+  call_end end_;
   ::grpc::ByteBuffer response_;
 
 public:
   ServerRPC(::grpc::CallbackServerContext *context, ::grpc::ByteBuffer * /*byte_buffer*/) : context_(context) {}
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
-  void finish(::grpc::Status s) { this->Finish(std::move(s)); }
+  void finish(::grpc::Status s) {
+    if (end_.first()) {
+      this->Finish(std::move(s));
+    }
+  }
 
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (end_.ended()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
-      this->Finish(std::move(result));
+      this->finish(std::move(result));
     }
   }
 
@@ -156,6 +186,9 @@ public:
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
+    if (end_.ended()) {
+      return;
+    }
     response_ = reply;
     this->StartWrite(&response_, options);
   }
@@ -163,6 +196,9 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!end_.first()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
@@ -188,6 +224,9 @@ public:
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
               ::grpc::Status s = ::grpc::Status{}) {
+    if (!end_.first()) {
+      return;
+    }
     response_ = reply;
     this->StartWriteAndFinish(&response_, options, std::move(s));
   }
@@ -197,6 +236,7 @@ template <typename Method>
 class ServerRPC<Method, RpcType::BIDI_STREAMING>
     : public ::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer> {
   ::grpc::CallbackServerContext *context_;
+  call_end end_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
 
@@ -209,17 +249,24 @@ public:
   void start_read() { this->StartRead(&request_); }
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
-  void finish(::grpc::Status s) { this->Finish(std::move(s)); }
+  void finish(::grpc::Status s) {
+    if (end_.first()) {
+      this->Finish(std::move(s));
+    }
+  }
 
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (end_.ended()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
-      this->Finish(std::move(result));
+      this->finish(std::move(result));
     }
   }
 
@@ -230,6 +277,9 @@ public:
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
+    if (end_.ended()) {
+      return;
+    }
     response_ = reply;
     this->StartWrite(&response_, options);
   }
@@ -237,6 +287,9 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!end_.first()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
@@ -262,6 +315,9 @@ public:
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
               ::grpc::Status s = ::grpc::Status{}) {
+    if (!end_.first()) {
+      return;
+    }
     response_ = reply;
     this->StartWriteAndFinish(&response_, options, std::move(s));
   }
-- 
2.43.0


From 231493b7a07c7bcfefb624126ecf3b2c5e2ee36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 54/55] fix: asynchronous calls whose request cannot be
 serialized no longer use a null or deleted call

prepare() delivered OnDone() before the call was started; the callback form
then started a deleted reactor, and a reactor's own start_call(), start_read()
and holds used a call that did not exist. The failure is now delivered once
the reactor is started and its holds are gone.
---
 include/hpp_proto/grpc/client.hpp | 42 ++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index 18bbdef..cb1fa21 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -7,6 +7,7 @@
 #include <grpcpp/support/stub_options.h>
 
 #include <array>
+#include <atomic>
 #include <condition_variable>
 #include <hpp_proto/grpc/serialization.hpp>
 #include <memory>
@@ -140,6 +141,17 @@ class ClientCallbackReactor : public ClientCallbackSelector<static_cast<RpcType>
   using base = ClientCallbackSelector<static_cast<RpcType>(Method::rpc_type)>::reactor;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
+  // A request which cannot be serialized has no underlying call: OnDone() is delivered once the reactor has been
+  // started and its holds are gone, the way gRPC would deliver it.
+  ::grpc::Status failure_;
+  std::atomic<int> failure_holds_{1};
+
+  void release_failure() {
+    if (failure_holds_.fetch_sub(1) == 1) {
+      const auto status = failure_; // the reactor may be deleted by OnDone()
+      this->OnDone(status);
+    }
+  }
 
 public:
   static const auto rpc_type = static_cast<RpcType>(Method::rpc_type);
@@ -155,7 +167,7 @@ public:
       ::grpc::internal::ClientCallbackUnaryFactory::Create<::grpc::ByteBuffer, ::grpc::ByteBuffer>(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, &response_, this);
     } else {
-      this->OnDone(result);
+      failure_ = std::move(result);
     }
   }
 
@@ -175,7 +187,7 @@ public:
       ::grpc::internal::ClientCallbackReaderFactory<::grpc::ByteBuffer>::Create(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, this);
     } else {
-      this->OnDone(result);
+      failure_ = std::move(result);
     }
   }
 
@@ -186,11 +198,21 @@ public:
         stub.channel_.get(), stub.template grpc_method<Method>(), &context, this);
   }
 
-  void start_call() { this->StartCall(); }
+  void start_call() {
+    if (failure_.ok()) {
+      this->StartCall();
+    } else {
+      release_failure();
+    }
+  }
   void start_read()
     requires Method::server_streaming
   {
-    this->StartRead(&response_);
+    if (failure_.ok()) {
+      this->StartRead(&response_);
+    } else {
+      this->OnReadDone(false);
+    }
   }
 
   template <typename Traits>
@@ -232,12 +254,20 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddMultipleHolds(holds);
+    if (failure_.ok()) {
+      this->AddMultipleHolds(holds);
+    } else {
+      failure_holds_.fetch_add(holds);
+    }
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->RemoveHold();
+    if (failure_.ok()) {
+      this->RemoveHold();
+    } else {
+      release_failure();
+    }
   }
 
   template <typename Traits>
-- 
2.43.0


From dcf2e4302fa40c06a938560ecfa4e074e40f4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 55/55] fix: blocking calls whose request cannot be serialized
 fail instead of aborting

---
 include/hpp_proto/grpc/client.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index cb1fa21..fa54a9e 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -110,11 +110,15 @@ public:
   call(::grpc::ClientContext &context, const Request &request, Response &response,
        hpp_proto::concepts::is_option_type auto &&...option) {
     pb_context ctx{std::forward<decltype(option)>(option)...};
-    const hpp_proto::with_pb_context request_with_context{request, ctx};
+    // gRPC aborts on a request whose serialization fails
+    ::grpc::ByteBuffer request_buffer;
+    if (auto status = ::hpp_proto::grpc::write_binpb(request, request_buffer, ctx); !status.ok()) {
+      return status;
+    }
     hpp_proto::with_pb_context response_with_context{response, ctx};
 
     return ::grpc::internal::BlockingUnaryCallImpl{this->channel_.get(), grpc_method<Method>(), &context,
-                                                   request_with_context, &response_with_context}
+                                                   request_buffer, &response_with_context}
         .status();
   }
 
-- 
2.43.0

