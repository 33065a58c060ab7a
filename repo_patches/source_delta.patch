From 249fde9de46f30bf7617b50590ea9172eb5ce0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 01/43] fix: size UTF-8 code points with lead bytes 0xDF and
 0xEF correctly

The last lead byte of the two and three byte ranges was excluded from its
range, so U+07C0-U+07FF were treated as three bytes long and U+F000-U+FFFF as
four, swallowing the first byte of whatever followed.
---
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index c1dfffd..3144160 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -162,12 +162,12 @@ private:
 
     // Can't think of a way to do this without branches
     constexpr auto max_2_byte_header = std::uint8_t{0b1101'1111};
-    if (first_byte < max_2_byte_header) {
+    if (first_byte <= max_2_byte_header) {
         return 2;
     }
 
     constexpr auto max_3_byte_header = std::uint8_t{0b1110'1111};
-    if (first_byte < max_3_byte_header) {
+    if (first_byte <= max_3_byte_header) {
         return 3;
     }
 
-- 
2.43.0


From 7bb09bd1515c9092a52495e9dcde684bc8ab258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 02/43] fix: do not iterate past the end of a string holding a
 truncated code point

The code point, grapheme cluster, and line iterators advanced by the size
claimed by the leading byte even if the string ended before that, which reads
out of bounds (and usually never terminates) on a malformed command line token.
---
 include/arg_router/utility/utf8.hpp            | 4 ++--
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a313b75..277f56b 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -235,7 +235,7 @@ private:
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-            current_ += code_point::size(*it);
+            current_ += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
@@ -528,7 +528,7 @@ private:
                 return;
             }
 
-            bytes += code_point::size(*it);
+            bytes += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index 3144160..12dcbb3 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -325,8 +325,8 @@ public:
      */
     constexpr iterator& operator++() noexcept
     {
-        const auto num_bytes = code_point::size(str_);
-        str_.remove_prefix(num_bytes);
+        // A truncated code point claims more bytes than are available, so only remove what is there
+        str_.remove_prefix((**this).size());
         return *this;
     }
 
-- 
2.43.0


From 11299f9ceb53ca5e4fcbad74de509d5c6b1b661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 03/43] fix: do not let one_of remember the selected child
 between parses

---
 include/arg_router/dependency/one_of.hpp | 37 ++++++++++++++++++++----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/dependency/one_of.hpp b/include/arg_router/dependency/one_of.hpp
index 0a7e3c5..c943a60 100644
--- a/include/arg_router/dependency/one_of.hpp
+++ b/include/arg_router/dependency/one_of.hpp
@@ -90,14 +90,26 @@ public:
         const auto validator = [&](const auto& child, const auto&... parents) {
             using child_type = std::decay_t<decltype(child)>;
 
-            auto type_hash = utility::type_hash<child_type>();
-            if (last_typeid_) {
-                if (type_hash != *last_typeid_) {
-                    throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
-                                               parsing::node_token_type<one_of_t>()};
+            const auto type_hash = utility::type_hash<child_type>();
+            if constexpr (HasTarget) {
+                // The parent's target holds everything processed so far in _this_ parse, so don't
+                // depend on any state which would outlive it
+                for (const auto& sub_target : pre_parse_data.target().sub_targets()) {
+                    if ((sub_target.node_type() != type_hash) &&
+                        is_child_type(sub_target.node_type())) {
+                        throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
+                                                   parsing::node_token_type<one_of_t>()};
+                    }
                 }
             } else {
-                last_typeid_ = type_hash;
+                if (last_typeid_) {
+                    if (type_hash != *last_typeid_) {
+                        throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
+                                                   parsing::node_token_type<one_of_t>()};
+                    }
+                } else {
+                    last_typeid_ = type_hash;
+                }
             }
 
             return pre_parse_data.validator()(child, parents...);
@@ -129,6 +141,19 @@ public:
     }
 
 private:
+    [[nodiscard]] bool is_child_type(std::size_t type_hash) const noexcept
+    {
+        auto found = false;
+        utility::tuple_iterator(
+            [&](auto /*i*/, const auto& child) {
+                found |= (type_hash == utility::type_hash<std::decay_t<decltype(child)>>());
+            },
+            this->children());
+
+        return found;
+    }
+
+    // Only used when pre-parsing without a parent target
     mutable std::optional<std::size_t> last_typeid_;
 };
 
-- 
2.43.0


From 6ee22511a109aef3cd05b20da1c6c6f55ce2cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 04/43] fix: return the help string from the multi-language
 roots

---
 include/arg_router/multi_lang/root.hpp         | 2 +-
 include/arg_router/multi_lang/root_wrapper.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index e76aaaa..c2c1d4a 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -194,7 +194,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
diff --git a/include/arg_router/multi_lang/root_wrapper.hpp b/include/arg_router/multi_lang/root_wrapper.hpp
index 8a32fdd..db95f25 100644
--- a/include/arg_router/multi_lang/root_wrapper.hpp
+++ b/include/arg_router/multi_lang/root_wrapper.hpp
@@ -131,7 +131,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
-- 
2.43.0


From 1cd5ad2b85f9d042aea5720977bf7e81f5d56207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 05/43] fix: search for the whole of a multi-byte value
 separator

---
 include/arg_router/policy/value_separator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index 91675b1..d10e955 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -94,7 +94,7 @@ public:
         const auto first_token = *first;
 
         // Find the separator
-        const auto separator_index = first_token.name.find_first_of(value_separator());
+        const auto separator_index = first_token.name.find(value_separator());
         if (separator_index == std::string_view::npos) {
             // If we can't find the separator but the token matches the parent node name, then we
             // need to throw as the user has just forgotten the separator and needs to be told
-- 
2.43.0


From 582ec5094f3f8391c800b2676c93987f533a0846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 06/43] fix: check for a disabled node before splitting its
 value separator

---
 include/arg_router/policy/runtime_enable.hpp  | 2 +-
 include/arg_router/policy/value_separator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/runtime_enable.hpp b/include/arg_router/policy/runtime_enable.hpp
index b7276f1..fe8044b 100644
--- a/include/arg_router/policy/runtime_enable.hpp
+++ b/include/arg_router/policy/runtime_enable.hpp
@@ -25,7 +25,7 @@ class runtime_enable
 {
 public:
     /** Policy priority. */
-    constexpr static auto priority = std::size_t{800};
+    constexpr static auto priority = std::size_t{1000};
 
     /** Constructor.
      *
diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index d10e955..bd188bf 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -40,7 +40,7 @@ public:
     using string_type = S;
 
     /** Policy priority. */
-    constexpr static auto priority = std::size_t{1000};
+    constexpr static auto priority = std::size_t{950};
 
     /** Constructor.
      *
-- 
2.43.0


From 5e77dc872e324191308dae9f18042240262275b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 07/43] fix: do not take tokens for a node whose value list is
 empty

---
 include/arg_router/policy/min_max_count.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/policy/min_max_count.hpp b/include/arg_router/policy/min_max_count.hpp
index 1e8a5d7..6232b9a 100644
--- a/include/arg_router/policy/min_max_count.hpp
+++ b/include/arg_router/policy/min_max_count.hpp
@@ -110,7 +110,10 @@ public:
         }
 
         // Transfer any remaining up to the maximum count
-        tokens.transfer(tokens.begin() + std::min(mx_count - 1, num_tokens - 1));
+        const auto count = std::min(mx_count, num_tokens);
+        if (count > 0) {
+            tokens.transfer(tokens.begin() + (count - 1));
+        }
 
         return parsing::pre_parse_action::valid_node;
     }
-- 
2.43.0


From 187e9336143e1dba1161d7c71db4fd579adbbb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 08/43] fix: treat a lone short prefix as an unknown argument

---
 include/arg_router/policy/short_form_expander.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/short_form_expander.hpp b/include/arg_router/policy/short_form_expander.hpp
index d3ffa80..7b6557b 100644
--- a/include/arg_router/policy/short_form_expander.hpp
+++ b/include/arg_router/policy/short_form_expander.hpp
@@ -87,8 +87,9 @@ public:
             return parsing::pre_parse_action::valid_node;
         }
 
-        // Exit early if there's no expansion to be done
-        if (first_token.name.size() == owner_type::short_name().size()) {
+        // Exit early if there's no expansion to be done, which includes a lone prefix
+        if (first_token.name.empty() ||
+            (first_token.name.size() == owner_type::short_name().size())) {
             return parsing::pre_parse_action::valid_node;
         }
 
-- 
2.43.0


From 96ca17eb36bdfa99ee636fd581ca4227ec905172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 09/43] fix: name the disabled node when it is the requested
 help target

---
 include/arg_router/help.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index ec53378..da73723 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -237,12 +237,6 @@ private:
                                  const Node& node,
                                  const TargetFn& fn)
     {
-        if constexpr (traits::has_runtime_enabled_method_v<Node>) {
-            if (!node.runtime_enabled()) {
-                throw multi_lang_exception{error_code::unknown_argument, tokens.front()};
-            }
-        }
-
         if (tokens.empty()) {
             fn(node);
             return;
@@ -262,6 +256,13 @@ private:
                 // token_type from them, as they all of a prefix_type of none
                 const auto token = parsing::get_token_type(child, tokens.front().name);
                 if (!result && parsing::match<child_type>(token)) {
+                    if constexpr (traits::has_runtime_enabled_method_v<child_type>) {
+                        if (!child.runtime_enabled()) {
+                            throw multi_lang_exception{error_code::unknown_argument,
+                                                       tokens.front()};
+                        }
+                    }
+
                     result = true;
                     tokens.erase(tokens.begin());
                     find_help_target(tokens, child, fn);
-- 
2.43.0


From 6921a6e63c53ef6c58eb070bc5869d4461c501f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 10/43] fix: always consume at least one code point per line

---
 include/arg_router/utility/utf8.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 277f56b..b40dc88 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -520,8 +520,9 @@ private:
             if (column > max_columns_) {
                 if (line_break_column == 0) {
                     // Oh dear, the line has no whitespace in it to break on, so force break on the
-                    // last code point
-                    line_break_byte_ = bytes;
+                    // last code point.  A line is never empty though, otherwise a code point wider
+                    // than the column limit would never be consumed
+                    line_break_byte_ = bytes == 0 ? (*it).size() : bytes;
                 } else {
                     line_break_byte_ = line_break_byte;
                 }
-- 
2.43.0


From 51436400a615196d3a1be8c5612f5ec4c1f273e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 11/43] fix: reject sibling nodes with identical names and
 types

---
 include/arg_router/policy/validator.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index db925ed..92f74e4 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -239,6 +239,15 @@ struct policy_unique_from_owner_parent_to_mode_or_root {
         }
     };
 
+    template <typename PathType, std::size_t... I>
+    [[nodiscard]] constexpr static bool path_is_unambiguous(std::index_sequence<I...>) noexcept
+    {
+        return ((boost::mp11::mp_count<
+                     typename std::tuple_element_t<I + 1, PathType>::children_type,
+                     std::tuple_element_t<I, PathType>>::value == 1) &&
+                ...);
+    }
+
     template <typename T, typename... Parents>
     constexpr static void check() noexcept
     {
@@ -255,6 +264,13 @@ struct policy_unique_from_owner_parent_to_mode_or_root {
                 boost::mp11::mp_take_c<ParentTuple, std::min(mode_index + 1, NumParents)>;
             using start_type = boost::mp11::mp_back<path_type>;
 
+            // A sibling of exactly the same type as one of the nodes in our path has an identical
+            // path to ours, so the recursion below cannot tell them apart
+            static_assert(path_is_unambiguous<path_type>(
+                              std::make_index_sequence<std::tuple_size_v<path_type> - 1>{}),
+                          "Policy must be unique in the parse tree up to "
+                          "the nearest mode or root");
+
             // Recurse the tree from the oldest generation, testing that no other policy matches
             // ours
             utility::tree_type_recursor<checker<T, path_type>, skipper<start_type>, start_type>();
-- 
2.43.0


From d887382192eae762d45f25b269818f8d33fab943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 12/43] fix: exact compile-time text of integrals with zero
 digits and of the most negative value

---
 .../utility/compile_time_string.hpp           | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index 4302b3a..c70a618 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -242,24 +242,29 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    template <typename Str, auto NewValue, auto NumDigits>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
+        constexpr auto power10 = math::pow<10>(NumDigits - 1);
         constexpr auto digit = NewValue / power10;
 
         using digit_str = str<'0' + digit>;
 
-        if constexpr (num_digits != 1) {
+        if constexpr (NumDigits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<typename Str::template append_t<digit_str>, next_value>();
+            return build<typename Str::template append_t<digit_str>, next_value, NumDigits - 1>();
         } else {
             return typename Str::template append_t<digit_str>{};
         }
     }
 
-    using digit_str = decltype(build<str<>, math::abs(Value)>());
+    // Unsigned so that the magnitude of the most negative value is representable
+    using unsigned_type = std::make_unsigned_t<decltype(Value)>;
+    constexpr static auto magnitude =
+        static_cast<unsigned_type>(Value < 0 ? unsigned_type{0} - static_cast<unsigned_type>(Value) :
+                                               static_cast<unsigned_type>(Value));
+
+    using digit_str = decltype(build<str<>, magnitude, math::num_digits(magnitude)>());
 
 public:
     using type = std::conditional_t<(Value < 0), str<'-'>::template append_t<digit_str>, digit_str>;
@@ -452,24 +457,30 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    template <typename Str, auto NewValue, auto NumDigits>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
+        constexpr auto power10 = math::pow<10>(NumDigits - 1);
         constexpr auto digit = NewValue / power10;
 
         using digit_str = typename Str::template append_t<compile_time_string<'0' + digit>>;
 
-        if constexpr (num_digits != 1) {
+        if constexpr (NumDigits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<digit_str, next_value>();
+            return build<digit_str, next_value, NumDigits - 1>();
         } else {
             return digit_str{};
         }
     }
 
-    using digit_str = decltype(build<compile_time_string<>, math::abs(Value)>());
+    // Unsigned so that the magnitude of the most negative value is representable
+    using unsigned_type = std::make_unsigned_t<decltype(Value)>;
+    constexpr static auto magnitude =
+        static_cast<unsigned_type>(Value < 0 ? unsigned_type{0} - static_cast<unsigned_type>(Value) :
+                                               static_cast<unsigned_type>(Value));
+
+    using digit_str =
+        decltype(build<compile_time_string<>, magnitude, math::num_digits(magnitude)>());
 
 public:
     using type = std::conditional_t<(Value < 0),
-- 
2.43.0


From 2838d46e433ea6696227d2fe18c89b8febe87482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 13/43] fix: single character compile-time strings are the same
 type as the literal

---
 include/arg_router/utility/compile_time_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index c70a618..8c43c42 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -78,7 +78,8 @@ public:
 };
 
 compile_time_string_storage()->compile_time_string_storage<0>;
-compile_time_string_storage(char)->compile_time_string_storage<1>;
+// Null terminated, so that a character gives the same type as the equivalent string literal
+compile_time_string_storage(char)->compile_time_string_storage<2>;
 }  // namespace detail
 
 /** Compile-time string.
-- 
2.43.0


From 7cf42487525686719e905989cb768fce51df4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 14/43] fix: honour runtime_enable on anonymous modes

---
 include/arg_router/mode.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 495f6ca..c7eb4b2 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -271,6 +271,11 @@ private:
                     return match;
                 }
             }
+        } else if constexpr (traits::has_runtime_enabled_method_v<mode_t>) {
+            // The pre-parse policies are not run for anonymous modes
+            if (!this->runtime_enabled()) {
+                return {};
+            }
         }
 
         if (!pre_parse_data.validator()(this_mode, parents...)) {
-- 
2.43.0


From dc008bc0f37ebae1e82a099ca1fd2d678456c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 15/43] fix: reject negative values for unsigned types

---
 include/arg_router/parsing/global_parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 75bcea4..60ca4f5 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -40,7 +40,12 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace std::string_view_literals;
 
         auto result = T{};
-        if (!boost::conversion::try_lexical_convert(token, result)) {
+        auto success = boost::conversion::try_lexical_convert(token, result);
+        if constexpr (std::is_unsigned_v<T> && !std::is_same_v<T, char>) {
+            // Negative values are out of range, but the conversion wraps them
+            success = success && ((token.front() != '-') || (result == T{}));
+        }
+        if (!success) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
-- 
2.43.0


From 155a568fc41fd856a0db6a2f8cae04d35ec3f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 16/43] fix: parse 8 bit integers as numbers, not as characters

---
 include/arg_router/parsing/global_parser.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 60ca4f5..bdbaeba 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -10,6 +10,8 @@
 
 #include <boost/lexical_cast/try_lexical_convert.hpp>
 
+#include <limits>
+
 namespace arg_router
 {
 /** Global parsing struct.
@@ -39,18 +41,26 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace utility::string_view_ops;
         using namespace std::string_view_literals;
 
-        auto result = T{};
+        // The conversion treats the 8 bit integers as characters
+        constexpr auto is_8bit = std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>;
+        using converted_type = std::conditional_t<is_8bit, int, T>;
+
+        auto result = converted_type{};
         auto success = boost::conversion::try_lexical_convert(token, result);
+        if constexpr (is_8bit) {
+            success = success && (result >= std::numeric_limits<T>::min()) &&
+                      (result <= std::numeric_limits<T>::max());
+        }
         if constexpr (std::is_unsigned_v<T> && !std::is_same_v<T, char>) {
             // Negative values are out of range, but the conversion wraps them
-            success = success && ((token.front() != '-') || (result == T{}));
+            success = success && ((token.front() != '-') || (result == converted_type{}));
         }
         if (!success) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
 
-        return result;
+        return static_cast<T>(result);
     }
 };
 
-- 
2.43.0


From 930a0c2208fd391d8a1738f44e39f3917c952579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 17/43] fix: apply an alias_group's value bounds to values
 given on the command line

---
 include/arg_router/mode.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index c7eb4b2..349fb4c 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -528,8 +528,8 @@ private:
     template <typename ResultsType, typename... Parents>
     void multi_stage_validation(const ResultsType& results, const Parents&... parents) const
     {
-        // For all the children that use multi-stage values, invoke any policy
-        // that supports a validation phase
+        // For all the children that use multi-stage values, or that take the value of one of their
+        // own children, invoke any policy that supports a validation phase
         utility::tuple_iterator(
             [&](auto i, const auto& child) {
                 using child_type = std::decay_t<decltype(child)>;
@@ -537,8 +537,7 @@ private:
                 using optional_result_type = std::tuple_element_t<i, ResultsType>;
 
                 constexpr auto msv = policy::has_multi_stage_value_v<child_type> ||
-                                     boost::mp11::mp_any_of<typename child_type::children_type,
-                                                            policy::has_multi_stage_value>::value;
+                                     (std::tuple_size_v<typename child_type::children_type> > 0);
 
                 if constexpr (!is_skip_tag_v<optional_result_type> && msv) {
                     using result_type = typename optional_result_type::value_type;
-- 
2.43.0


From a2f57b1bd940b2c0f665ffef5e3b96bef07f1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 18/43] fix: follow aliases of aliases instead of losing their
 values

---
 include/arg_router/policy/alias.hpp | 62 +++++++++++++++++++----------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 134dce0..e782c58 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -118,30 +118,9 @@ public:
         tokens.transfer(tokens.begin() + count);
 
         // Now do the runtime target building
-        const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
-            using policies_type = typename std::decay_t<decltype(current)>::policies_type;
-
-            using intersection =
-                boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
-
-            if constexpr ((std::tuple_size_v<intersection>) > 0) {
-                auto target_tokens = vector<parsing::token_type>{};
-                target_tokens.reserve(count);
-
-                auto value_it = tokens.begin();
-                for (auto j = 0u; j < count; ++j) {
-                    // Pre-increment the value iterator so we skip over the label token
-                    target_tokens.push_back(*(++value_it));
-                }
-
-                target.add_sub_target({std::move(target_tokens),  //
-                                       current,
-                                       parents...});
-            }
-        };
         const auto& mode =
             std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
-        utility::tree_recursor(visitor, mode);
+        add_sub_targets<aliased_policies_type>(tokens, count, target, mode);
 
         // Now remove the original tokens as they refer to the aliased node
         tokens.processed().erase(tokens.processed().begin(),
@@ -166,6 +145,45 @@ private:
     static_assert(boost::mp11::mp_all_of<aliased_policies_type, policy_checker>::value,
                   "All parameters must provide a long and/or short form name");
 
+    // Adds a sub-target for each of the nodes under mode referred to in AliasPolicies.  If one of
+    // those nodes is an alias itself, then its aliased nodes are used instead
+    template <typename AliasPolicies, typename Mode>
+    static void add_sub_targets(parsing::dynamic_token_adapter& tokens,
+                                std::size_t count,
+                                parsing::parse_target& target,
+                                const Mode& mode)
+    {
+        const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
+            using current_type = std::decay_t<decltype(current)>;
+            using policies_type = typename current_type::policies_type;
+
+            using intersection = boost::mp11::mp_set_intersection<AliasPolicies, policies_type>;
+
+            if constexpr ((std::tuple_size_v<intersection>) > 0) {
+                if constexpr (algorithm::has_specialisation_v<alias_t, policies_type>) {
+                    add_sub_targets<typename current_type::aliased_policies_type>(tokens,
+                                                                                  count,
+                                                                                  target,
+                                                                                  mode);
+                } else {
+                    auto target_tokens = vector<parsing::token_type>{};
+                    target_tokens.reserve(count);
+
+                    auto value_it = tokens.begin();
+                    for (auto j = 0u; j < count; ++j) {
+                        // Pre-increment the value iterator so we skip over the label token
+                        target_tokens.push_back(*(++value_it));
+                    }
+
+                    target.add_sub_target({std::move(target_tokens),  //
+                                           current,
+                                           parents...});
+                }
+            }
+        };
+        utility::tree_recursor(visitor, mode);
+    }
+
     template <typename NodeType>
     [[nodiscard]] constexpr static std::size_t node_fixed_count() noexcept
     {
-- 
2.43.0


From dd9b26f727d526155392da254081b82077701f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 19/43] fix: do not let a counting flag's total wrap around

---
 include/arg_router/counting_flag.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/arg_router/counting_flag.hpp b/include/arg_router/counting_flag.hpp
index 8d4c2c0..094ae8a 100644
--- a/include/arg_router/counting_flag.hpp
+++ b/include/arg_router/counting_flag.hpp
@@ -13,6 +13,9 @@
 #include "arg_router/tree_node.hpp"
 #include "arg_router/utility/string_to_policy.hpp"
 
+#include <limits>
+#include <type_traits>
+
 namespace arg_router
 {
 /** Represents a flag that can appear multiple times in the command line.
@@ -113,6 +116,19 @@ private:
             return;
         }
 
+        // Wrapping around would let a total out of the bounds back into them, so stop at the limit
+        if constexpr (std::is_integral_v<value_type>) {
+            if (*result == std::numeric_limits<value_type>::max()) {
+                return;
+            }
+        } else if constexpr (std::is_enum_v<value_type>) {
+            using underlying_type = std::underlying_type_t<value_type>;
+            if (static_cast<underlying_type>(*result) ==
+                std::numeric_limits<underlying_type>::max()) {
+                return;
+            }
+        }
+
         *result = static_cast<value_type>(static_cast<std::size_t>(*result) + 1);
     }
 };
-- 
2.43.0


From fa00ef7093d0c08bfe27b55e86e5cfc82ff6290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 20/43] fix: do not validate the fallback value of a disabled
 node

---
 include/arg_router/mode.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 349fb4c..c6d38b1 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -420,6 +420,16 @@ private:
         }
     }
 
+    template <typename Child>
+    [[nodiscard]] static bool is_disabled([[maybe_unused]] const Child& child) noexcept
+    {
+        if constexpr (traits::has_runtime_enabled_method_v<Child>) {
+            return !child.runtime_enabled();
+        } else {
+            return false;
+        }
+    }
+
     template <typename Child, typename Handler>
     static void match_child(const Child& child, std::size_t hash, Handler handler)
     {
@@ -516,6 +526,11 @@ private:
             result = ValueType{};
         }
 
+        // A disabled node cannot be given a value, so its fallback cannot be held against the user
+        if (is_disabled(child)) {
+            return;
+        }
+
         // Irritatingly, we have to run the validation phase on the new value
         utility::tuple_type_iterator<typename ChildType::policies_type>([&](auto i) {
             using policy_type = std::tuple_element_t<i, typename ChildType::policies_type>;
@@ -543,6 +558,10 @@ private:
                     using result_type = typename optional_result_type::value_type;
                     const auto& result = *std::get<i>(results);
 
+                    if (is_disabled(child)) {
+                        return;
+                    }
+
                     utility::tuple_type_iterator<child_policies_type>([&](auto j) {
                         using policy_type = std::tuple_element_t<j, child_policies_type>;
                         if constexpr (policy::has_validation_phase_method_v<policy_type,
-- 
2.43.0


From ba6c046e0aa5626da2722c00a644591182fea520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 21/43] fix: break lines after spaces whatever follows them

---
 include/arg_router/utility/utf8/line_break.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index f9c3c97..fba2e36 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -314,7 +314,9 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::QU) ||  //
+    // LB18, always break after spaces, takes precedence
+    return ((trailing_window[0] != line_break_class::SP) &&
+            (next_class == line_break_class::QU)) ||
            (trailing_window[0] == line_break_class::QU);
 }
 
@@ -333,9 +335,11 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::BA) ||  //
-           (next_class == line_break_class::HY) ||  //
-           (next_class == line_break_class::NS) ||  //
+    // LB18, always break after spaces, takes precedence
+    return ((trailing_window[0] != line_break_class::SP) &&
+            ((next_class == line_break_class::BA) ||  //
+             (next_class == line_break_class::HY) ||  //
+             (next_class == line_break_class::NS))) ||
            (trailing_window[0] == line_break_class::BB);
 }
 
@@ -390,7 +394,8 @@ template <std::size_t N>
     [[maybe_unused]] const std::array<line_break_class, N>& trailing_window,
     line_break_class next_class) noexcept
 {
-    return next_class == line_break_class::IN_;
+    // LB18, always break after spaces, takes precedence
+    return (trailing_window[0] != line_break_class::SP) && (next_class == line_break_class::IN_);
 }
 
 /** Rule LB23, do not break between digits and letters.
-- 
2.43.0


From 14658ede35048e3ceb6436bc8c066c3aadd8b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 22/43] fix: start each wrapped line with an empty trailing
 window

---
 include/arg_router/utility/utf8.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index b40dc88..2a5dbb5 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -506,6 +506,10 @@ private:
             if (str_.empty()) {
                 return;
             }
+
+            // The window has moved past the line break, those code points are about to be iterated
+            // over again
+            fill_trailing_window();
         }
 
         // Iterate over the code points until you reach or exceed the column limit, setting the
-- 
2.43.0


From 1c72d3e13e5ae1f710fce7c9604fbb40cf6ab9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 23/43] fix: do not break lines before combining marks

---
 include/arg_router/utility/utf8.hpp           | 20 +++++++++++++--
 .../arg_router/utility/utf8/line_break.hpp    | 25 ++++++++++++++++++-
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 2a5dbb5..08a39ef 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -482,6 +482,23 @@ private:
         }
     }
 
+    constexpr void update_trailing_window(line_break_class this_class) noexcept
+    {
+        if (this_class == line_break_class::CM) {
+            const auto base = trailing_window_.front();
+            if ((base != line_break_class::any) &&
+                no_break_rules::LB9(trailing_window_, this_class)) {
+                // Rule LB9, treat a combining character sequence as if it were its base character
+                return;
+            }
+            // Rule LB10, treat any remaining combining mark as if it were alphabetic
+            this_class = line_break_class::AL;
+        }
+
+        rotate_trailing_window();
+        trailing_window_.front() = this_class;
+    }
+
     constexpr void consume() noexcept
     {
         if (str_.empty()) {
@@ -541,8 +558,7 @@ private:
                 continue;
             }
 
-            rotate_trailing_window();
-            trailing_window_.front() = extract_class(*this_cp);
+            update_trailing_window(extract_class(*this_cp));
 
             // If there is a following code point, use it to update the next_break_class
             auto next_break_class = line_break_class::any;
diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index fba2e36..eded6d2 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -112,6 +112,29 @@ template <std::size_t N>
            (trailing_window[0] == line_break_class::ZWJ);
 }
 
+/** Rule LB9, do not break a combining character sequence.
+ *
+ * From https://www.unicode.org/reports/tr14/#Algorithm.
+ * @tparam N Size of trailing window
+ * @param trailing_window Trailing window of properties, the zeroth index is the 'current' class
+ * begin iterated over
+ * @param next_class The class after the current one
+ * @return True if you should not break between these break classes
+ */
+template <std::size_t N>
+[[nodiscard]] constexpr bool LB9(const std::array<line_break_class, N>& trailing_window,
+                                 line_break_class next_class) noexcept
+{
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return ((next_class == line_break_class::CM) || (next_class == line_break_class::ZWJ)) &&
+           (trailing_window[0] != line_break_class::BK) &&
+           (trailing_window[0] != line_break_class::CR) &&
+           (trailing_window[0] != line_break_class::LF) &&
+           (trailing_window[0] != line_break_class::NL) &&
+           (trailing_window[0] != line_break_class::SP) &&
+           (trailing_window[0] != line_break_class::ZW);
+}
+
 /** Rule LB11, do not break before or after Word joiner and related characters.
  *
  * From https://www.unicode.org/reports/tr14/#Algorithm.
@@ -688,7 +711,7 @@ template <std::size_t N>
  */
 template <std::size_t N>
 constexpr auto line_break = std::array{
-    &LB6<N>,  &LB7<N>,  &LB8a_9<N>, &LB11<N>, &LB12<N>,  &LB12a<N>, &LB13<N>, &LB14<N>,  &LB15<N>,
+    &LB6<N>,  &LB7<N>,  &LB8a_9<N>, &LB9<N>, &LB11<N>, &LB12<N>,  &LB12a<N>, &LB13<N>, &LB14<N>,  &LB15<N>,
     &LB16<N>, &LB17<N>, &LB19<N>,   &LB21<N>, &LB21a<N>, &LB21b<N>, &LB22<N>, &LB23<N>,  &LB23a<N>,
     &LB24<N>, &LB25<N>, &LB26<N>,   &LB27<N>, &LB28<N>,  &LB29<N>,  &LB30<N>, &LB30a<N>, &LB30b<N>,
 };
-- 
2.43.0


From 9293f5cb671dda4ce7f20b4db80d054624d4d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 24/43] fix: always break grapheme clusters around control
 characters

---
 include/arg_router/utility/utf8.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 08a39ef..6058942 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -193,8 +193,20 @@ private:
         return result;
     }
 
+    [[nodiscard]] constexpr static bool is_control(grapheme_cluster_break_class cls) noexcept
+    {
+        return (cls == grapheme_cluster_break_class::CR) ||
+               (cls == grapheme_cluster_break_class::LF) ||
+               (cls == grapheme_cluster_break_class::control);
+    }
+
     [[nodiscard]] constexpr bool should_break(grapheme_cluster_break_class next_class) noexcept
     {
+        // Rules GB4 and GB5, other than within CR LF always break before and after controls
+        if (is_control(trailing_window_.front()) || is_control(next_class)) {
+            return !no_break_rules::GB3(trailing_window_, next_class);
+        }
+
         for (auto rule : no_break_rules::grapheme_cluster<trailing_window_size>) {
             if (rule(trailing_window_, next_class)) {
                 return false;
-- 
2.43.0


From 91394df8aaf7d6b73bc7d11dffbcb01f63f20e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 25/43] fix: only join emoji over a zero width joiner that
 follows an emoji

---
 .../utility/utf8/grapheme_cluster_break.hpp       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
index e5e74f5..c28487e 100644
--- a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
+++ b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
@@ -185,8 +185,19 @@ template <std::size_t N>
     grapheme_cluster_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (trailing_window[0] == grapheme_cluster_break_class::ZWJ) &&
-           (next_class == grapheme_cluster_break_class::extended_pictographic);
+    if ((trailing_window[0] != grapheme_cluster_break_class::ZWJ) ||
+        (next_class != grapheme_cluster_break_class::extended_pictographic)) {
+        return false;
+    }
+
+    // The ZWJ must itself follow an emoji, otherwise there is no emoji ZWJ sequence to split
+    for (auto i = std::size_t{1}; i < trailing_window.size(); ++i) {
+        if (trailing_window[i] != grapheme_cluster_break_class::extend) {
+            return trailing_window[i] == grapheme_cluster_break_class::extended_pictographic;
+        }
+    }
+
+    return true;
 };
 
 /** Rule GB12 and GB13, do not break within emoji flag sequences.
-- 
2.43.0


From d505b8d478c4542be1d13a534ddcaa7db39d778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 26/43] fix: do not shift the first line of coloured help

---
 .../arg_router/policy/colour_help_formatter.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 1be3dbe..3eb2010 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -86,14 +86,17 @@ public:
     {
         if (!help_data.label.empty()) {
             const auto indent = depth * Indent;
-            stream << red_colour << std::setw(indent) << ' ' << help_data.label;
+            stream << red_colour;
+            set_gap(stream, indent);
+            stream << help_data.label;
 
             if (!help_data.description.empty()) {
                 const auto gap =
                     desc_start - indent - utility::utf8::terminal_width(help_data.label);
 
                 // Spacing between the end of the args label and start of description
-                stream << green_colour << std::setw(gap) << ' ';
+                stream << green_colour;
+                set_gap(stream, gap);
 
                 // Print the description, breaking if a word will exceed the terminal width
                 for (auto it =
@@ -103,7 +106,8 @@ public:
 
                     // If there's more data to follow, then add the offset
                     if (++it != utility::utf8::line_iterator{}) {
-                        stream << '\n' << std::setw(desc_start) << ' ';
+                        stream << '\n';
+                        set_gap(stream, desc_start);
                     }
                 }
             }
@@ -118,6 +122,13 @@ private:
     {
         return Depth * Indent;
     }
+
+    static void set_gap(std::ostream& stream, std::size_t num_chars)
+    {
+        if (num_chars > 0) {
+            stream << std::setw(num_chars) << ' ';
+        }
+    }
 };
 }  // namespace help_formatter_component
 
-- 
2.43.0


From 105760ed1e033f9d1195ab012becd6a777ad4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 27/43] fix: return the inserted element when inserting at the
 end of a token adapter

The end iterator carries no position, so the returned iterator referred to the
first token.
---
 include/arg_router/parsing/dynamic_token_adapter.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/parsing/dynamic_token_adapter.hpp b/include/arg_router/parsing/dynamic_token_adapter.hpp
index 064b011..a8b76fa 100644
--- a/include/arg_router/parsing/dynamic_token_adapter.hpp
+++ b/include/arg_router/parsing/dynamic_token_adapter.hpp
@@ -390,8 +390,8 @@ public:
         auto processed_it = it.is_end() ? processed_->end() :  //
                                           processed_->begin() + it.i_;
 
-        processed_->insert(processed_it, value);
-        return {this, it.i_};
+        processed_it = processed_->insert(processed_it, value);
+        return {this, processed_it - processed_->begin()};
     }
 
     /** Inserts the value in the range [ @a first, @a last ) at position @a it.
@@ -410,8 +410,8 @@ public:
         auto processed_it = it.is_end() ? processed_->end() :  //
                                           processed_->begin() + it.i_;
 
-        processed_->insert(processed_it, first, last);
-        return {this, it.i_};
+        processed_it = processed_->insert(processed_it, first, last);
+        return {this, processed_it - processed_->begin()};
     }
 
     /** Erases the element at @a it.
-- 
2.43.0


From 09fbd54589ec5dcafa84f7313493aa034757b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 28/43] fix: allow an empty unsafe_any to be copied

Copying a default constructed or moved-from instance called an empty function.
---
 include/arg_router/utility/unsafe_any.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 4443ee6..5d9d0f4 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -107,8 +107,10 @@ public:
      */
     unsafe_any_t(const unsafe_any_t& other)
     {
-        auto new_any = other.copier_(other.storage_);
-        swap(*this, new_any);
+        if (other.copier_) {
+            auto new_any = other.copier_(other.storage_);
+            swap(*this, new_any);
+        }
     }
 
     /** Assignment operator.
-- 
2.43.0


From f31692613db261291bf622f552bb89d028f45bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 29/43] fix: release the allocation when constructing the
 unsafe_any value throws

---
 include/arg_router/utility/unsafe_any.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 5d9d0f4..720e498 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -80,7 +80,12 @@ public:
 
         // Build using memory from allocator
         storage_.ptr = alloc.allocate(1);
-        new (storage_.ptr) value_type(std::forward<T>(value));
+        try {
+            new (storage_.ptr) value_type(std::forward<T>(value));
+        } catch (...) {
+            alloc.deallocate(static_cast<value_type*>(storage_.ptr), 1);
+            throw;
+        }
 
         copier_ = [](const storage_type& storage) -> unsafe_any_t {
             return *reinterpret_cast<const value_type*>(storage.ptr);
-- 
2.43.0


From 8979c14535896342c4775de06a4283b5653ba21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 30/43] fix: let exceptions leave the unsafe_any small object
 constructor

A throwing copy or move constructor of the value terminated the process.
---
 include/arg_router/utility/unsafe_any.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 720e498..99c261a 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -8,6 +8,8 @@
 
 #include <cstring>
 #include <functional>
+#include <string_view>
+#include <type_traits>
 
 namespace arg_router::utility
 {
@@ -44,7 +46,7 @@ public:
               typename = std::enable_if_t<use_internal_storage<T> &&
                                           !std::is_same_v<std::decay_t<T>, unsafe_any_t>>>
     // NOLINTNEXTLINE(google-explicit-constructor, hicpp-explicit-conversions)
-    unsafe_any_t(T&& value) noexcept
+    unsafe_any_t(T&& value) noexcept(std::is_nothrow_constructible_v<std::decay_t<T>, T&&>)
     {
         using value_type = std::decay_t<T>;
 
-- 
2.43.0


From 014d70f01addcccf9b3920230571c589f00834c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 31/43] fix: only keep trivially copyable objects inside
 unsafe_any

The internal storage is swapped bytewise, which is not valid for other types.  Use
the decayed type throughout, so that an array is stored where get() looks for it.
---
 include/arg_router/utility/unsafe_any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 99c261a..ffffccf 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -26,7 +26,8 @@ class unsafe_any_t
     using aligned_storage_type = std::aligned_storage_t<SmallObjectOptimisationSize>;
 
     template <typename T>
-    constexpr static bool use_internal_storage = (sizeof(T) <= sizeof(aligned_storage_type));
+    constexpr static bool use_internal_storage = (sizeof(std::decay_t<T>) <= sizeof(aligned_storage_type)) &&
+                                          std::is_trivially_copyable_v<std::decay_t<T>>;
 
 public:
     /** Default constructor.
-- 
2.43.0


From 51d2fecc07af65a729032c1badd591aceb3087a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 32/43] fix: search for the end of a message placeholder after
 its start

A closing bracket in the text before a placeholder was paired with it.
---
 include/arg_router/utility/exception_formatter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/exception_formatter.hpp b/include/arg_router/utility/exception_formatter.hpp
index 4b2212a..fbd1702 100644
--- a/include/arg_router/utility/exception_formatter.hpp
+++ b/include/arg_router/utility/exception_formatter.hpp
@@ -62,7 +62,9 @@ class exception_formatter
     [[nodiscard]] static constexpr auto placeholders_impl() noexcept
     {
         constexpr auto start = Str::get().find('{', Current);
-        constexpr auto end = Str::get().find('}', Current + 1);
+        constexpr auto end = (start == std::string_view::npos) ?
+                                 std::string_view::npos :
+                                 Str::get().find('}', start + 1);
 
         if constexpr ((start != std::string_view::npos) && (end != std::string_view::npos)) {
             return placeholders_impl<
-- 
2.43.0


From 1bf989e3d53e044f9ba6bfd1c5dc5ef49ae8697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 33/43] fix: do not narrow the parsed value when checking
 run-time bounds

The bounds were compared using std::less of the bound type, so a wider integer was
wrapped and a floating point value truncated before the comparison.
---
 include/arg_router/policy/min_max_value.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/min_max_value.hpp b/include/arg_router/policy/min_max_value.hpp
index 5b21d3c..50025e2 100644
--- a/include/arg_router/policy/min_max_value.hpp
+++ b/include/arg_router/policy/min_max_value.hpp
@@ -67,17 +67,30 @@ public:
 
         using node_type = boost::mp11::mp_first<std::tuple<Parents...>>;
 
-        if (min_ && comp_(value, *min_)) {
+        if (min_ && less(value, *min_)) {
             throw multi_lang_exception{error_code::minimum_value_not_reached,
                                        parsing::node_token_type<node_type>()};
         }
-        if (max_ && comp_(*max_, value)) {
+        if (max_ && less(*max_, value)) {
             throw multi_lang_exception{error_code::maximum_value_exceeded,
                                        parsing::node_token_type<node_type>()};
         }
     }
 
 private:
+    template <typename A, typename B>
+    [[nodiscard]] constexpr bool less(const A& a, const B& b) const
+    {
+        // The default comparator takes its operands as a value_type, which would silently narrow
+        // (and so wrap or truncate) a parsed value of a wider type
+        if constexpr (std::is_same_v<less_than_compare, std::less<value_type>> &&
+                      std::is_arithmetic_v<A> && std::is_arithmetic_v<B>) {
+            return std::less<>{}(a, b);
+        } else {
+            return comp_(a, b);
+        }
+    }
+
     std::optional<value_type> min_;
     std::optional<value_type> max_;
     less_than_compare comp_;
-- 
2.43.0


From 7872fbdadb01c0fe0f559ac0ec68e0f1c406429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 34/43] fix: no trailing comma when a comment follows the last
 translated error code

The generated header did not compile when the last line of the translation file was
not an error code entry.
---
 .../translation_generator_script.cmake             | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index 4470fba..d1445f0 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -29,6 +29,7 @@ public:
     # Write the header
     set(output_data "${${ARGS_OUTPUT_VAR}}${header}")
     set(error_code_section FALSE)
+    set(error_code_separator "")
 
     cmake_policy(PUSH)
     cmake_policy(SET CMP0007 NEW)
@@ -69,13 +70,9 @@ public:
         # Process the entry data
         if (error_code_section)
             set(output_line "        std::pair<traits::integral_constant<error_code::${key}>, ${value_str}>")
-            # Don't append a comma if this is the last tuple entry, won't compile in C++
-            if (line_index EQUAL num_lines)
-                string(APPEND output_line "\n")
-            else()
-                string(APPEND output_line ",\n")
-            endif()
-            string(APPEND output_data "${output_line}")
+            # Don't append a comma after the last tuple entry, won't compile in C++
+            string(APPEND output_data "${error_code_separator}${output_line}")
+            set(error_code_separator ",\n")
         else()
             set(output_line "    using ${key} = ${value_str};\n")
             string(APPEND output_data "${output_line}")
@@ -86,6 +83,9 @@ public:
 
     # Write the footer and finish
     if (error_code_section)
+        if (NOT (error_code_separator STREQUAL ""))
+            string(APPEND output_data "\n")
+        endif()
         string(APPEND output_data "${error_code_footer}")
     endif()
     string(APPEND output_data "${footer}")
-- 
2.43.0


From 9e6495ff03d5e8f43468d4ed2bec659501b7870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 35/43] fix: keep translation file lines separate whatever they
 hold

The lines were held in a CMake list, where an unpaired square bracket or a trailing
backslash joins elements, so translations were silently lost.  An empty file failed.
---
 .../translation_generator_script.cmake        | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index d1445f0..d552990 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -34,14 +34,26 @@ public:
     cmake_policy(PUSH)
     cmake_policy(SET CMP0007 NEW)
 
-    # CMake ranges are inclusive for some reason, so we need to decrement the array length before
-    # using in the for-loop
-    file(STRINGS "${ARGS_SOURCE}" lines ENCODING UTF-8)
-    list(LENGTH lines num_lines_over)
-    math(EXPR num_lines "${num_lines_over}-1")
+    # The lines can't be held in a list, an unpaired square bracket or a trailing backslash in one
+    # would join it to those that follow
+    file(READ "${ARGS_SOURCE}" remaining)
+    string(ASCII 239 187 191 byte_order_mark)
+    string(FIND "${remaining}" "${byte_order_mark}" bom_pos)
+    if (bom_pos EQUAL 0)
+        string(SUBSTRING "${remaining}" 3 -1 remaining)
+    endif()
 
-    foreach(line_index RANGE ${num_lines})
-        list(GET lines ${line_index} line)
+    while(NOT (remaining STREQUAL ""))
+        string(FIND "${remaining}" "\n" line_end)
+        if (line_end EQUAL -1)
+            set(line "${remaining}")
+            set(remaining "")
+        else()
+            string(SUBSTRING "${remaining}" 0 ${line_end} line)
+            math(EXPR line_end "${line_end}+1")
+            string(SUBSTRING "${remaining}" ${line_end} -1 remaining)
+        endif()
+        string(REGEX REPLACE "\r$" "" line "${line}")
 
         # Skip comment lines
         string(SUBSTRING "${line}" 0 1 first_char)
@@ -77,7 +89,7 @@ public:
             set(output_line "    using ${key} = ${value_str};\n")
             string(APPEND output_data "${output_line}")
         endif()
-    endforeach()
+    endwhile()
 
     cmake_policy(POP)
 
-- 
2.43.0


From 49e42933352de88224e5fd91a3acca37544e9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 36/43] fix: refuse required or defaulted children of groups
 whatever their number

basic_child_must_have_policy only spotted the policy when more than one child had it (it tests 'all'), so a single required or default-valued child of a one_of or alias_group, or a single required or aliased child of the root, was accepted. A flag always carries a default value, which the group rules have to tolerate.
---
 include/arg_router/policy/validator.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index 92f74e4..4cf3523 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -398,16 +398,22 @@ struct child_must_have_policy {
 /** A rule condition that checks that every child under @a T does not have a particular policy.
  *
  * @tparam Policy Despecialised policy to check for
+ * @tparam ExemptNodes Despecialised node types that may have the policy, because they always do
  */
-template <template <typename...> typename Policy>
+template <template <typename...> typename Policy, template <typename...> typename... ExemptNodes>
 struct child_must_not_have_policy {
+    template <typename Child>
+    struct child_checker {
+        constexpr static bool value =
+            algorithm::has_specialisation_v<Policy, typename Child::policies_type> &&
+            !(traits::is_specialisation_of_v<Child, ExemptNodes> || ...);
+    };
+
     template <typename T, typename...>
     constexpr static void check() noexcept
     {
-        if constexpr ((std::tuple_size_v<typename T::children_type>) > 0) {
-            static_assert(!basic_child_must_have_policy<Policy>::template value<T>,
-                          "All children of T must not have this policy");
-        }
+        static_assert(boost::mp11::mp_none_of<typename T::children_type, child_checker>::value,
+                      "All children of T must not have this policy");
     }
 };
 
@@ -709,13 +715,13 @@ constexpr auto default_validator = validator<
                                   policy::multi_stage_value,
                                   policy::validation::validator>,
            child_must_not_have_policy<policy::required_t>,
-           child_must_not_have_policy<policy::default_value>,
+           child_must_not_have_policy<policy::default_value, flag_t>,
            parent_types<parent_index_pair_type<0, mode_t>>>,
     // alias_group
     rule_q<common_rules::despecialised_any_of_rule<dependency::one_of_t, dependency::alias_group_t>,
            must_not_have_policies<policy::no_result_value, policy::validation::validator>,
            child_must_not_have_policy<policy::required_t>,
-           child_must_not_have_policy<policy::default_value>,
+           child_must_not_have_policy<policy::default_value, flag_t>,
            parent_types<parent_index_pair_type<0, mode_t>>>,
     // Mode
     rule_q<common_rules::despecialised_any_of_rule<mode_t>,
-- 
2.43.0


From ca089c47dba89572b437df046046aae19f70de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 37/43] fix: run validation policies in priority order

---
 include/arg_router/mode.hpp           | 7 ++++---
 include/arg_router/multi_arg_base.hpp | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index c6d38b1..3d8f950 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -532,8 +532,9 @@ private:
         }
 
         // Irritatingly, we have to run the validation phase on the new value
-        utility::tuple_type_iterator<typename ChildType::policies_type>([&](auto i) {
-            using policy_type = std::tuple_element_t<i, typename ChildType::policies_type>;
+        using child_policies_type = typename ChildType::priority_ordered_policies_type;
+        utility::tuple_type_iterator<child_policies_type>([&](auto i) {
+            using policy_type = std::tuple_element_t<i, child_policies_type>;
             if constexpr (policy::has_validation_phase_method_v<policy_type, ValueType>) {
                 child.policy_type::template validation_phase(*result, child, parents...);
             }
@@ -548,7 +549,7 @@ private:
         utility::tuple_iterator(
             [&](auto i, const auto& child) {
                 using child_type = std::decay_t<decltype(child)>;
-                using child_policies_type = typename child_type::policies_type;
+                using child_policies_type = typename child_type::priority_ordered_policies_type;
                 using optional_result_type = std::tuple_element_t<i, ResultsType>;
 
                 constexpr auto msv = policy::has_multi_stage_value_v<child_type> ||
diff --git a/include/arg_router/multi_arg_base.hpp b/include/arg_router/multi_arg_base.hpp
index ee47e20..f1ca373 100644
--- a/include/arg_router/multi_arg_base.hpp
+++ b/include/arg_router/multi_arg_base.hpp
@@ -114,8 +114,9 @@ protected:
         // Validation
         std::apply(
             [&](auto&&... ancestors) {
-                utility::tuple_type_iterator<policies_type>([&](auto i) {
-                    using policy_type = std::tuple_element_t<i, policies_type>;
+                using ordered_policies_type = typename parent_type::priority_ordered_policies_type;
+                utility::tuple_type_iterator<ordered_policies_type>([&](auto i) {
+                    using policy_type = std::tuple_element_t<i, ordered_policies_type>;
                     if constexpr (policy::has_validation_phase_method_v<policy_type, value_type>) {
                         this->policy_type::validation_phase(result, ancestors.get()...);
                     }
-- 
2.43.0


From 13f6bedeee30ee8c17f65f2e08574507f483f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 38/43] fix: allow a list without children

---
 include/arg_router/list.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/arg_router/list.hpp b/include/arg_router/list.hpp
index bdae2a8..19a3254 100644
--- a/include/arg_router/list.hpp
+++ b/include/arg_router/list.hpp
@@ -52,6 +52,9 @@ private:
 namespace detail
 {
 // Forward declared
+template <typename Result>
+constexpr auto list_expander_impl(Result r) noexcept;
+
 template <typename Result, typename Next, typename... Others>
 constexpr auto list_expander_impl(Result r, Next n, Others... others) noexcept;
 
-- 
2.43.0


From 6e6398a2c0ff4c4bcdd07f187b66d8fa604feb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 39/43] fix: report the exception of a policy that follows an
 aliasing one

---
 include/arg_router/tree_node.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/tree_node.hpp b/include/arg_router/tree_node.hpp
index c50d0e2..6059c47 100644
--- a/include/arg_router/tree_node.hpp
+++ b/include/arg_router/tree_node.hpp
@@ -558,6 +558,11 @@ private:
         auto target = parsing::parse_target{node, parents...};
 
         auto match = parsing::pre_parse_result{parsing::pre_parse_action::valid_node};
+
+        // Once a policy has replaced this node by sub-targets the label token is gone, so a later
+        // policy's exception cannot be subject to the name checking
+        auto label_replaced = false;
+
         utility::tuple_type_iterator<priority_ordered_policies_type>([&](auto i) {
             using policy_type = std::tuple_element_t<i, priority_ordered_policies_type>;
             if constexpr (policy::has_pre_parse_phase_method_v<policy_type>) {
@@ -568,6 +573,7 @@ private:
                 // Keep the skip_node_but_use_sub_targets state if later policies return valid_node
                 const auto use_subs =
                     match == parsing::pre_parse_action::skip_node_but_use_sub_targets;
+                label_replaced = label_replaced || use_subs;
                 match = this->policy_type::pre_parse_phase(adapter,
                                                            extract_parent_target(pre_parse_data),
                                                            target,
@@ -588,7 +594,8 @@ private:
 
         if constexpr (is_named) {
             // Check the first token against the names (if the node is named of course)
-            if (match != parsing::pre_parse_action::skip_node_but_use_sub_targets) {
+            if (!label_replaced &&
+                (match != parsing::pre_parse_action::skip_node_but_use_sub_targets)) {
                 // If the node is named but there are no tokens, then take the first from args.
                 // If args is empty, then return false
                 if (result.empty()) {
-- 
2.43.0


From 6d242c0552a48377237b2538507ccfd9b558637f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 40/43] fix: make compile-time strings of equal content the
 same type

---
 .../utility/compile_time_string.hpp           | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index 8c43c42..005543d 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -80,6 +80,26 @@ public:
 compile_time_string_storage()->compile_time_string_storage<0>;
 // Null terminated, so that a character gives the same type as the equivalent string literal
 compile_time_string_storage(char)->compile_time_string_storage<2>;
+
+// Returns the content of S up to the first null, followed by a single null.  That is the layout of a
+// string literal, so equal strings give the same type irrespective of what they were declared from
+template <compile_time_string_storage S>
+[[nodiscard]] constexpr auto null_terminated() noexcept
+{
+    constexpr auto size = []() {
+        auto count = std::size_t{0};
+        while ((count < S.value.size()) && (S.value[count] != '\0')) {
+            ++count;
+        }
+        return count;
+    }();
+
+    auto result = std::array<char, size + 1>{};
+    for (auto i = std::size_t{0}; i < size; ++i) {
+        result[i] = S.value[i];
+    }
+    return result;
+}
 }  // namespace detail
 
 /** Compile-time string.
@@ -216,10 +236,10 @@ class create_sequence_cts
     }
 
     template <std::size_t... Is>
-    [[nodiscard]] constexpr static std::array<char, N> builder(
+    [[nodiscard]] constexpr static std::array<char, N + 1> builder(
         [[maybe_unused]] std::index_sequence<Is...> seq) noexcept
     {
-        return {get<Is>()...};
+        return {get<Is>()..., '\0'};
     }
 
 public:
@@ -281,10 +301,11 @@ using convert_integral_to_cts_t = typename convert_integral_to_cts<Value>::type;
 
 /** Alias to make the compile-time string type available in the top-level namespace.
  *
+ * Strings of equal content are of the same type, whatever they were declared from.
  * @tparam S Internal storage type
  */
 template <utility::detail::compile_time_string_storage S>
-using str = utility::str<S>;
+using str = utility::str<utility::detail::null_terminated<S>()>;
 
 namespace traits
 {
-- 
2.43.0


From 7dc49d449aba28f7a27ac085319721f06fa9b92f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:50:44 +0000
Subject: [PATCH 41/43] fix: do not match the results of a mode against the
 nodes of its child modes

---
 include/arg_router/mode.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 3d8f950..47084bb 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -368,10 +368,14 @@ private:
                             return;
                         }
 
-                        match_child(child, node_hash, [&](const auto& sub_child) {
-                            found = true;
-                            process_result<i>(results, result, sub_child);
-                        });
+                        // A child mode's nodes can be of the same type as ours, but are never targets
+                        // of this mode
+                        if constexpr (!is_child_mode<child_type>::value) {
+                            match_child(child, node_hash, [&](const auto& sub_child) {
+                                found = true;
+                                process_result<i>(results, result, sub_child);
+                            });
+                        }
                     },
                     this->children());
             }
-- 
2.43.0


From 8162f1e6cf398fc072416b581fea14d766300412 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:50:44 +0000
Subject: [PATCH 42/43] fix: give the results of unnamed nodes of the same type
 in order

---
 include/arg_router/mode.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 47084bb..bfd1fb2 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -368,6 +368,18 @@ private:
                             return;
                         }
 
+                        // Unnamed siblings can be of the same type (e.g. positional args sharing a
+                        // display name), their results are in the order of the children
+                        using child_type = std::decay_t<decltype(child)>;
+                        if constexpr (!child_type::is_named &&
+                                      !policy::has_no_result_value_v<child_type> &&
+                                      (boost::mp11::mp_count<children_type, child_type>::value >
+                                       1)) {
+                            if (std::get<i>(results)) {
+                                return;
+                            }
+                        }
+
                         // A child mode's nodes can be of the same type as ours, but are never targets
                         // of this mode
                         if constexpr (!is_child_mode<child_type>::value) {
-- 
2.43.0


From ce4be481f48a442c5dac453dd7947473f3f664ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 43/43] fix: a disabled node does not keep a mode from
 reporting unhandled arguments

---
 include/arg_router/mode.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index bfd1fb2..5aa07c7 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -323,6 +323,14 @@ private:
                 this->children());
 
             if (!match) {
+                // Disabled children can never be matched
+                utility::tuple_iterator(
+                    [&]([[maybe_unused]] auto i, const auto& child) {
+                        if (is_disabled(child)) {
+                            matched.set(i);
+                        }
+                    },
+                    this->children());
                 if (matched.all()) {
                     throw multi_lang_exception{error_code::unhandled_arguments, args};
                 }
-- 
2.43.0

