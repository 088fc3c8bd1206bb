From 97d3ed570640362240fb31a45cf247b496deb8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 01/38] fix: base64 decoder indexes its table out of bounds for
 bytes >= 0x80 of a signed char type

---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 3515df2..1d2c026 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -150,7 +150,7 @@ private:
   template <typename Byte>
   static std::size_t s(Byte byte) noexcept
   {
-    return static_cast<std::size_t>(byte);
+    return static_cast<std::size_t>(static_cast<std::uint8_t>(byte));
   }
 
   state state_ = state::s0;
-- 
2.43.0


From ef76ed9b4f88d6b4574554f76bb4ac6dbad8fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 02/38] fix: base64 decoder accepts a text that ends after the
 first of two padding characters

---
 include/fitoria/encoding/base64/decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/encoding/base64/decoder.hpp b/include/fitoria/encoding/base64/decoder.hpp
index 1d2c026..2104a0c 100644
--- a/include/fitoria/encoding/base64/decoder.hpp
+++ b/include/fitoria/encoding/base64/decoder.hpp
@@ -40,7 +40,7 @@ public:
 
   bool is_done() const noexcept
   {
-    return !is_error() && state_ != state::s1;
+    return !is_error() && state_ != state::s1 && state_ != state::end1;
   }
 
   template <typename InputIt, typename OutputIt>
-- 
2.43.0


From b2aefddfee79a42528e8c97fcf63c75471a2fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 03/38] fix: expected<T&, E> never constructs its error when an
 unexpected is assigned over a value

---
 include/fitoria/core/expected.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/expected.hpp b/include/fitoria/core/expected.hpp
index 9ed1d42..5a987e3 100644
--- a/include/fitoria/core/expected.hpp
+++ b/include/fitoria/core/expected.hpp
@@ -1856,6 +1856,7 @@ public:
              && std::is_assignable_v<E&, const G&>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), other.error());
       this->has_ = false;
     } else {
       this->err_ = other.error();
@@ -1869,6 +1870,7 @@ public:
     requires(std::is_constructible_v<E, G> && std::is_assignable_v<E&, G>)
   {
     if (has_value()) {
+      std::construct_at(std::addressof(this->err_), std::move(other.error()));
       this->has_ = false;
     } else {
       this->err_ = std::move(other.error());
-- 
2.43.0


From 31b7b932ea1e7739d2a80e2bc97703783b9c492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 04/38] fix: optional<T&> keeps its old referent when an empty
 optional of another type is assigned

---
 include/fitoria/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index c8e9db1..cd3b97d 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -773,6 +773,8 @@ public:
 
     if (other) {
       this->valptr_ = std::addressof(*other);
+    } else {
+      this->valptr_ = nullptr;
     }
 
     return *this;
-- 
2.43.0


From 2b36ebf36eb4d930b5c06c94bf4c5c523e25216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 05/38] fix: optional <=> dereferences empty operands

---
 include/fitoria/core/optional.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index cd3b97d..1786908 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1016,7 +1016,11 @@ template <typename T, std::three_way_comparable_with<T> U>
 constexpr std::compare_three_way_result_t<T, U>
 operator<=>(const optional<T>& lhs, const optional<U>& rhs)
 {
-  return *lhs <=> *rhs;
+  if (lhs && rhs) {
+    return *lhs <=> *rhs;
+  }
+
+  return lhs.has_value() <=> rhs.has_value();
 }
 
 template <typename T>
-- 
2.43.0


From 7417c6e6998b3ea9316ef86e4a50547f1966f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 06/38] fix: range accepts a suffix longer than the
 representation, an empty one, and positions that wrap around

---
 include/fitoria/http/header/range.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/http/header/range.hpp b/include/fitoria/http/header/range.hpp
index a981173..3e19d59 100644
--- a/include/fitoria/http/header/range.hpp
+++ b/include/fitoria/http/header/range.hpp
@@ -15,6 +15,7 @@
 #include <fitoria/core/optional.hpp>
 #include <fitoria/core/strings.hpp>
 
+#include <limits>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -164,9 +165,12 @@ public:
     }
 
     if (unit[1].starts_with("-")) {
-      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1)); suffix) {
+      if (auto suffix = from_string<std::uint64_t>(unit[1].substr(1));
+          suffix && *suffix > 0 && total_length > 0) {
+        // the whole representation is used when it is shorter than the suffix
+        const auto length = *suffix < total_length ? *suffix : total_length;
         return range(std::string(unit[0]),
-                     { { total_length - *suffix, *suffix } });
+                     { { total_length - length, length } });
       }
     } else {
       if (auto subranges = parse_subranges(unit[1], total_length); subranges) {
@@ -189,12 +193,13 @@ private:
     for (auto& token : tokens) {
       if (auto subrange = split_of(token, "-"); subrange.size() == 2) {
         auto start = from_string<std::uint64_t>(subrange[0]);
-        if (subrange[1].empty() && start) {
+        if (subrange[1].empty() && start && *start < total_length) {
           subranges.push_back(subrange_t { *start, total_length - *start });
           continue;
         }
         auto end = from_string<std::uint64_t>(subrange[1]);
-        if (start && end && *start <= *end) {
+        if (start && end && *start <= *end
+            && *end < (std::numeric_limits<std::uint64_t>::max)()) {
           subranges.push_back(subrange_t { *start, *end - *start + 1 });
           continue;
         }
-- 
2.43.0


From a63eeb72b7d20c065bea798d4550813541f76d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 07/38] fix: entity_tag rejects obs-text bytes and accepts DEL
 in a tag value

---
 include/fitoria/http/header/entity_tag.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/http/header/entity_tag.hpp b/include/fitoria/http/header/entity_tag.hpp
index 40a470a..c4be08f 100644
--- a/include/fitoria/http/header/entity_tag.hpp
+++ b/include/fitoria/http/header/entity_tag.hpp
@@ -173,7 +173,8 @@ public:
 private:
   static auto is_valid_char(char c) noexcept -> bool
   {
-    return c >= 0x21 && c != '\"';
+    const auto uc = static_cast<unsigned char>(c);
+    return uc >= 0x21 && uc != '\"' && uc != 0x7f;
   }
 
   bool strong_;
-- 
2.43.0


From 5a90027b832d7f3984888ed229c5239790de7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 08/38] fix: if_none_match splits a quoted tag at the commas
 inside of it

---
 include/fitoria/http/header/if_none_match.hpp | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/http/header/if_none_match.hpp b/include/fitoria/http/header/if_none_match.hpp
index dc49bac..0c3880e 100644
--- a/include/fitoria/http/header/if_none_match.hpp
+++ b/include/fitoria/http/header/if_none_match.hpp
@@ -120,8 +120,7 @@ public:
     }
 
     std::vector<entity_tag> etags;
-    auto tokens = split_of(input, ",");
-    for (auto& token : tokens) {
+    for (auto& token : split_tags(input)) {
       auto etag = entity_tag::parse(token);
       if (!etag) {
         return nullopt;
@@ -141,6 +140,26 @@ private:
   {
   }
 
+  // commas are allowed inside of the quoted value of a tag
+  static auto split_tags(std::string_view input)
+      -> std::vector<std::string_view>
+  {
+    std::vector<std::string_view> tokens;
+    bool quoted = false;
+    std::size_t first = 0;
+    for (std::size_t i = 0; i < input.size(); ++i) {
+      if (input[i] == '\"') {
+        quoted = !quoted;
+      } else if (input[i] == ',' && !quoted) {
+        tokens.push_back(trim(input.substr(first, i - first)));
+        first = i + 1;
+      }
+    }
+    tokens.push_back(trim(input.substr(first)));
+
+    return tokens;
+  }
+
   std::vector<entity_tag> etags_;
 };
 
-- 
2.43.0


From 1616538b600198f8013bebe71e0cd70c34d6a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 09/38] fix: date is formatted in local time with fmt older
 than 10

---
 include/fitoria/http/header/date.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/http/header/date.hpp b/include/fitoria/http/header/date.hpp
index d1dd4e4..2284d67 100644
--- a/include/fitoria/http/header/date.hpp
+++ b/include/fitoria/http/header/date.hpp
@@ -17,6 +17,7 @@
 #include <fitoria/core/strings.hpp>
 
 #include <chrono>
+#include <ctime>
 #include <sstream>
 #include <string>
 
@@ -82,8 +83,15 @@ public:
   /// @endverbatim
   auto to_string() -> std::string
   {
-    return fmt::format("{:%a, %d %b %Y %T} GMT",
-                       std::chrono::floor<std::chrono::seconds>(time_));
+    const auto seconds = std::chrono::floor<std::chrono::seconds>(time_);
+#if defined(FITORIA_TARGET_WINDOWS)
+    return fmt::format("{:%a, %d %b %Y %T} GMT", seconds);
+#else
+    // a time point itself is formatted in local time by fmt before 10.0
+    return fmt::format(
+        "{:%a, %d %b %Y %T} GMT",
+        fmt::gmtime(static_cast<std::time_t>(seconds.time_since_epoch().count())));
+#endif
   }
 
 #if defined(FITORIA_HAS_STD_CHRONO_PARSE)
-- 
2.43.0


From 6cffb65671586e3a888d02d6be022915149a50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 10/38] fix: log lines carry local time labelled as UTC with
 fmt older than 10

---
 include/fitoria/log/formatter.hpp | 33 +++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/fitoria/log/formatter.hpp b/include/fitoria/log/formatter.hpp
index e49acae..c1e5907 100644
--- a/include/fitoria/log/formatter.hpp
+++ b/include/fitoria/log/formatter.hpp
@@ -17,6 +17,35 @@
 
 #include <array>
 
+#if FMT_VERSION < 100000
+
+FITORIA_NAMESPACE_BEGIN
+
+namespace log::detail {
+
+// a time point itself is formatted in local time by fmt before 10.0
+struct utc_time {
+  record::clock_t::time_point time;
+};
+
+}
+
+FITORIA_NAMESPACE_END
+
+template <>
+struct fmt::formatter<FITORIA_NAMESPACE::log::detail::utc_time, char>
+    : fmt::formatter<FITORIA_NAMESPACE::log::record::clock_t::time_point,
+                     char> {
+  template <typename FormatContext>
+  auto format(const FITORIA_NAMESPACE::log::detail::utc_time& t,
+              FormatContext& ctx) const
+  {
+    return fmt::formatter<std::tm, char>::format(fmt::gmtime(t.time), ctx);
+  }
+};
+
+#endif
+
 FITORIA_NAMESPACE_BEGIN
 
 namespace log {
@@ -154,7 +183,11 @@ public:
   {
     auto s = fmt::format(
         fmt::runtime(fmt_),
+#if FMT_VERSION < 100000
+        fmt::arg("TIME", detail::utc_time { rec->time }),
+#else
         fmt::arg("TIME", rec->time),
+#endif
         fmt::arg("LV", format(rec->lv)),
         fmt::arg("MSG", rec->msg),
         fmt::arg("LINE", rec->line),
-- 
2.43.0


From 973bb5bdc875308024df4b068ca649d248ec90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 11/38] fix: path_parser takes static text for a duplicate of a
 parameter name

---
 include/fitoria/web/path_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/path_parser.hpp b/include/fitoria/web/path_parser.hpp
index 63a009c..3177f3a 100644
--- a/include/fitoria/web/path_parser.hpp
+++ b/include/fitoria/web/path_parser.hpp
@@ -138,7 +138,7 @@ private:
                                             std::string value)
   {
     for (auto& token : tokens_) {
-      if (value == token.value) {
+      if (token.kind != path_token_kind::static_ && value == token.value) {
         return false;
       }
     }
-- 
2.43.0


From a6ad07c35261e64f90dea705b2dd91e5fb6f0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 12/38] fix: state_storage::copy_insert_front changes the maps
 shared with the original

---
 include/fitoria/web/state_storage.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fitoria/web/state_storage.hpp b/include/fitoria/web/state_storage.hpp
index 56dbb80..cbc2c9f 100644
--- a/include/fitoria/web/state_storage.hpp
+++ b/include/fitoria/web/state_storage.hpp
@@ -49,13 +49,11 @@ public:
   auto copy_insert_front(std::type_index ti,
                          std::any obj) const -> state_storage
   {
-    auto copy = *this;
-    if (copy.maps_.empty()) {
-      copy.maps_.push_back(std::make_shared<state_map>());
-    }
-    (*copy.maps_.front())[ti] = std::move(obj);
+    // the existing maps are shared with other storages and must stay as is
+    auto map = std::make_shared<state_map>();
+    map->emplace(ti, std::move(obj));
 
-    return copy;
+    return copy_prepend(std::move(map));
   }
 
   template <typename T>
-- 
2.43.0


From f0e82e7d0b5f191d1837f55221331d149ae65e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 13/38] fix: optional<void>::transform drops the value the
 function returns

---
 include/fitoria/core/optional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 1786908..5c38143 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -669,8 +669,12 @@ public:
   {
     using U = std::remove_cv_t<std::invoke_result_t<F>>;
     if (has_value()) {
-      std::forward<F>(f)();
-      return optional<U>(std::in_place);
+      if constexpr (std::is_void_v<U>) {
+        std::invoke(std::forward<F>(f));
+        return optional<U>(std::in_place);
+      } else {
+        return optional<U>(std::invoke(std::forward<F>(f)));
+      }
     } else {
       return optional<U>();
     }
-- 
2.43.0


From 723b24963972254e78c05dda6748560ec670b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 14/38] fix: optional compares greater than a value it is not
 ordered with

---
 include/fitoria/core/optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/core/optional.hpp b/include/fitoria/core/optional.hpp
index 5c38143..8a5e7cf 100644
--- a/include/fitoria/core/optional.hpp
+++ b/include/fitoria/core/optional.hpp
@@ -1100,28 +1100,28 @@ template <typename T, typename U>
 constexpr bool operator>(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt <= val);
+  return opt && *opt > val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val <= opt);
+  return !opt || val > *opt;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const optional<T>& opt, const U& val)
   requires(!std::is_void_v<T> && !std::is_same_v<U, nullopt_t>)
 {
-  return !(opt < val);
+  return opt && *opt >= val;
 }
 
 template <typename T, typename U>
 constexpr bool operator>=(const T& val, const optional<U>& opt)
   requires(!std::is_same_v<T, nullopt_t> && !std::is_void_v<U>)
 {
-  return !(val < opt);
+  return !opt || val >= *opt;
 }
 
 template <typename T>
-- 
2.43.0


From abcf50fba35570ced462bb749e5458f29cbf6328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:31 +0000
Subject: [PATCH 15/38] fix: dynamic_buffer::prepare returns memory past the
 end of the container

---
 include/fitoria/core/dynamic_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 0e98691..100a535 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -132,6 +132,7 @@ public:
       container_.resize(woffset_ + n);
     } else if (n <= (limit_ - size())) {
       compress();
+      container_.resize(woffset_ + n);
     } else {
       FITORIA_THROW_OR(std::length_error("dynamic_buffer too large"),
                        std::terminate());
-- 
2.43.0


From aacacd3a2b82d942cae35e03254d4c7de19dbf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:31 +0000
Subject: [PATCH 16/38] fix: dynamic_buffer::consume and commit wrap around for
 large sizes

---
 include/fitoria/core/dynamic_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/core/dynamic_buffer.hpp b/include/fitoria/core/dynamic_buffer.hpp
index 100a535..6294e40 100644
--- a/include/fitoria/core/dynamic_buffer.hpp
+++ b/include/fitoria/core/dynamic_buffer.hpp
@@ -114,7 +114,7 @@ public:
   /// @endverbatim
   void consume(std::size_t n)
   {
-    roffset_ = std::min(roffset_ + n, woffset_);
+    roffset_ += std::min(n, size());
     if (roffset_ == woffset_) {
       roffset_ = 0;
       woffset_ = 0;
@@ -148,7 +148,7 @@ public:
   /// @endverbatim
   void commit(std::size_t n)
   {
-    woffset_ = std::min(woffset_ + n, container_.size());
+    woffset_ += std::min(n, container_.size() - woffset_);
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From fc6aa5ab2a9d8ef8e3b8d95c37ca7fb359168d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 17/38] fix: path_matcher pastes the text of a pattern into a
 regular expression

---
 include/fitoria/web/path_matcher.hpp | 57 +++++++++++-----------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/include/fitoria/web/path_matcher.hpp b/include/fitoria/web/path_matcher.hpp
index 72b0409..f6f4f35 100644
--- a/include/fitoria/web/path_matcher.hpp
+++ b/include/fitoria/web/path_matcher.hpp
@@ -18,9 +18,9 @@
 #include <fitoria/web/error.hpp>
 #include <fitoria/web/path_parser.hpp>
 
-#include <boost/regex.hpp>
-
 #include <string>
+#include <string_view>
+#include <utility>
 #include <vector>
 
 FITORIA_NAMESPACE_BEGIN
@@ -41,7 +41,6 @@ public:
           std::terminate());
     }
     tokens_ = parser.get();
-    regex_ = to_regex(tokens_);
   }
 
   auto pattern() const noexcept -> std::string_view
@@ -57,47 +56,37 @@ public:
   auto match(const std::string& input) const
       -> optional<std::vector<std::pair<std::string, std::string>>>
   {
-    if (boost::smatch match; boost::regex_match(input, match, regex_)) {
-      std::vector<std::pair<std::string, std::string>> matches;
-      for (auto token : tokens_) {
-        if (token.kind == path_token_kind::param
-            || token.kind == path_token_kind::wildcard) {
-          matches.emplace_back(token.value, match[token.value].str());
-        }
-      }
-
-      return matches;
-    }
-
-    return nullopt;
-  }
-
-private:
-  static auto to_regex(const path_tokens_t& tokens) -> boost::regex
-  {
-    std::string regex;
-    for (auto& token : tokens) {
+    std::vector<std::pair<std::string, std::string>> matches;
+    auto rest = std::string_view(input);
+    for (auto& token : tokens_) {
       if (token.kind == path_token_kind::static_) {
-        regex += token.value;
+        if (!rest.starts_with(token.value)) {
+          return nullopt;
+        }
+        rest.remove_prefix(token.value.size());
       } else if (token.kind == path_token_kind::param) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">[^{}/]+)";
+        auto value = rest.substr(0, rest.find('/'));
+        if (value.empty()) {
+          return nullopt;
+        }
+        matches.emplace_back(token.value, value);
+        rest.remove_prefix(value.size());
       } else if (token.kind == path_token_kind::wildcard) {
-        // {name} => (?<name>pattern)
-        regex += "(?<";
-        regex += token.value;
-        regex += ">.*)";
+        matches.emplace_back(token.value, rest);
+        rest = {};
       }
     }
 
-    return boost::regex(regex);
+    if (!rest.empty()) {
+      return nullopt;
+    }
+
+    return matches;
   }
 
+private:
   std::string pattern_;
   path_tokens_t tokens_;
-  boost::regex regex_;
 };
 
 }
-- 
2.43.0


From e86693997342fa97a8f33e4e94bb46ef6e260637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 18/38] fix: router misses routes that share a prefix and
 accepts empty parameters

---
 include/fitoria/web/router.hpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/fitoria/web/router.hpp b/include/fitoria/web/router.hpp
index b4b5bb4..07cee71 100644
--- a/include/fitoria/web/router.hpp
+++ b/include/fitoria/web/router.hpp
@@ -19,6 +19,7 @@
 #include <fitoria/web/error.hpp>
 #include <fitoria/web/path_matcher.hpp>
 
+#include <algorithm>
 #include <map>
 #include <memory>
 #include <unordered_map>
@@ -68,21 +69,24 @@ public:
         return try_insert(std::move(route), token_index + 1);
       }
 
-      for (auto& node : statics_) {
-        if (token.starts_with(node.prefix_)) {
-          return node.try_insert_static(
-              std::move(route), token.substr(node.prefix_.size()), token_index);
+      for (auto& child : statics_) {
+        auto [it, _] = std::ranges::mismatch(child.prefix_, token);
+        auto count = static_cast<std::size_t>(it - child.prefix_.begin());
+        if (count == 0) {
+          continue;
         }
-      }
 
-      for (std::size_t i = 0; i < statics_.size(); ++i) {
-        if (statics_[i].prefix_.starts_with(token)) {
-          auto n = node(token);
-          statics_[i].prefix_.erase(0, token.size());
-          n.statics_.push_back(std::move(statics_[i]));
-          std::swap(n, statics_[i]);
-          return statics_[i].try_insert(std::move(route), token_index + 1);
+        if (count < child.prefix_.size()) {
+          // siblings never share a leading character, so that at most one of
+          // them could match a path
+          auto n = node(token.substr(0, count));
+          child.prefix_.erase(0, count);
+          n.statics_.push_back(std::move(child));
+          child = std::move(n);
         }
+
+        return child.try_insert_static(
+            std::move(route), token.substr(count), token_index);
       }
 
       return statics_.emplace_back(token).try_insert(std::move(route),
@@ -146,7 +150,8 @@ public:
     auto try_find_param(http::verb method, std::string_view path) const
         -> expected<const route_type&, std::error_code>
     {
-      if (params_) {
+      // a parameter has at least one character
+      if (params_ && !path.starts_with('/')) {
         if (auto pos = path.find('/'); pos != std::string_view::npos) {
           return params_->try_find(method, path.substr(pos));
         }
-- 
2.43.0


From 187a8f67ed5c2267631431ab8d90d6d9f1ff022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 19/38] fix: query_map::set does not update an existing
 parameter

---
 include/fitoria/web/query_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/query_map.hpp b/include/fitoria/web/query_map.hpp
index 0c7950f..a33c9ce 100644
--- a/include/fitoria/web/query_map.hpp
+++ b/include/fitoria/web/query_map.hpp
@@ -122,7 +122,7 @@ public:
   /// @endverbatim
   void set(std::string name, std::string value)
   {
-    map_.insert({ std::move(name), std::move(value) });
+    map_.insert_or_assign(std::move(name), std::move(value));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From dab386189fbacc2ef526c9b51d8cd7abad28796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 20/38] fix: request_builder::set_body and set_json build an
 empty request

---
 include/fitoria/web/request.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fitoria/web/request.hpp b/include/fitoria/web/request.hpp
index a9ae7d5..244635e 100644
--- a/include/fitoria/web/request.hpp
+++ b/include/fitoria/web/request.hpp
@@ -410,8 +410,7 @@ public:
   /// @endverbatim
   auto set_body(std::string_view sv) -> request
   {
-    set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(sv.begin(), sv.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
@@ -444,8 +443,7 @@ public:
   {
     auto str = boost::json::serialize(jv);
     set_header(http::field::content_type, mime::application_json());
-    set_body(std::as_bytes(std::span(str.begin(), str.end())));
-    return build();
+    return set_body(std::as_bytes(std::span(str.begin(), str.end())));
   }
 
   /// @verbatim embed:rst:leading-slashes
-- 
2.43.0


From c285866f865d5d317a0fd207352b45e16d9c576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 21/38] fix: as_form does not decode '+' as a space

---
 include/fitoria/web/detail/as_form.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/detail/as_form.hpp b/include/fitoria/web/detail/as_form.hpp
index b8c385a..8d41086 100644
--- a/include/fitoria/web/detail/as_form.hpp
+++ b/include/fitoria/web/detail/as_form.hpp
@@ -28,7 +28,9 @@ inline expected<query_map, std::error_code> as_form(std::string_view text)
     return unexpected { res.error() };
   }
 
-  auto params = static_cast<boost::urls::params_view>(*res);
+  // application/x-www-form-urlencoded encodes spaces as '+'
+  auto params = boost::urls::params_view(
+      text, boost::urls::encoding_opts(true, false, false));
 
   query_map map;
   for (auto kv : params) {
-- 
2.43.0


From 494ec3578e2f3a7156cd7c4d98625d7da8a80281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 22/38] fix: async_write_chunks ends the body at an empty piece

---
 include/fitoria/web/async_write_chunks.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fitoria/web/async_write_chunks.hpp b/include/fitoria/web/async_write_chunks.hpp
index b0586d0..02052ff 100644
--- a/include/fitoria/web/async_write_chunks.hpp
+++ b/include/fitoria/web/async_write_chunks.hpp
@@ -34,6 +34,10 @@ auto async_write_chunks(AsyncWritableStream&& to, AsyncReadableStream&& from)
        data = co_await from.async_read_some()) {
     auto& d = *data;
     if (d) {
+      // a chunk without data would end the body
+      if (d->empty()) {
+        continue;
+      }
       if (auto result = co_await async_write(
               to, make_chunk(net::buffer(*d)), use_awaitable);
           !result) {
-- 
2.43.0


From 2031eb9c8f01672368b164b189337ab374593aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 23/38] fix: an unread request body is taken for the next
 request

---
 include/fitoria/web/http_server.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a119e23..914e235 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -491,6 +491,18 @@ private:
         if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
           co_return unexpected { exp.error() };
         }
+
+        // what the handler left unread of the body must not be taken for the
+        // next request
+        if (keep_alive && !parser->is_done()) {
+          auto rest = async_message_parser_stream(buffer, stream, parser);
+          for (auto data = co_await rest.async_read_some(); data;
+               data = co_await rest.async_read_some()) {
+            if (!*data) {
+              co_return unexpected { data->error() };
+            }
+          }
+        }
       }
 
       if (!keep_alive) {
-- 
2.43.0


From bcdd6d5ff7ccb90335576b64dbf24386197bd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 24/38] fix: the response to a HEAD request carries a body

---
 include/fitoria/web/http_server.hpp | 38 ++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 914e235..cce155d 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -488,7 +488,12 @@ private:
           co_return unexpected { result.error() };
         }
       } else {
-        if (auto exp = co_await do_response(stream, res, keep_alive); !exp) {
+        if (auto exp = co_await do_response(
+                stream,
+                res,
+                keep_alive,
+                parser->get().method() == http::verb::head);
+            !exp) {
           co_return unexpected { exp.error() };
         }
 
@@ -514,7 +519,10 @@ private:
   }
 
   template <typename Stream>
-  auto do_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_response(Stream& stream,
+                   response& res,
+                   bool keep_alive,
+                   bool header_only = false) const
       -> awaitable<expected<void, std::error_code>>
   {
     co_return co_await std::visit(
@@ -522,10 +530,12 @@ private:
                       return do_null_body_response(stream, res, keep_alive);
                     },
                      [&](any_body::sized) {
-                       return do_sized_response(stream, res, keep_alive);
+                       return do_sized_response(
+                           stream, res, keep_alive, header_only);
                      },
                      [&](any_body::chunked) {
-                       return do_chunked_response(stream, res, keep_alive);
+                       return do_chunked_response(
+                           stream, res, keep_alive, header_only);
                      } },
         res.body().size());
   }
@@ -554,10 +564,14 @@ private:
   }
 
   template <typename Stream>
-  auto do_sized_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_sized_response(Stream& stream,
+                         response& res,
+                         bool keep_alive,
+                         bool header_only) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::response;
+    using boost::beast::http::response_serializer;
     using boost::beast::http::vector_body;
 
     auto r = response<vector_body<std::byte>>(
@@ -572,11 +586,19 @@ private:
     r.keep_alive(keep_alive);
     r.prepare_payload();
 
+    if (header_only) {
+      auto ser = response_serializer<vector_body<std::byte>>(r);
+      co_return co_await async_write_header(stream, ser, use_awaitable);
+    }
+
     co_return co_await async_write(stream, r, use_awaitable);
   }
 
   template <typename Stream>
-  auto do_chunked_response(Stream& stream, response& res, bool keep_alive) const
+  auto do_chunked_response(Stream& stream,
+                           response& res,
+                           bool keep_alive,
+                           bool header_only) const
       -> awaitable<expected<void, std::error_code>>
   {
     using boost::beast::http::empty_body;
@@ -596,6 +618,10 @@ private:
       co_return unexpected { result.error() };
     }
 
+    if (header_only) {
+      co_return expected<void, std::error_code>();
+    }
+
     co_return co_await async_write_chunks(stream, res.body().stream());
   }
 
-- 
2.43.0


From 59eb5c248b13182721a8cc0d50c69d4afa2ba234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 25/38] fix: inflating fails when a piece fills the output
 buffer exactly

---
 .../web/middleware/detail/async_gzip_inflate_stream.hpp        | 3 ++-
 include/fitoria/web/middleware/detail/async_inflate_stream.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index c8e5e65..e36f837 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -70,7 +70,8 @@ public:
       boost::system::error_code ec;
       inflater_.write(p, Flush::sync, ec);
 
-      if (ec == error::end_of_stream) {
+      if (ec == error::end_of_stream
+          || (ec == error::need_buffers && readable.size() == 0)) {
         ec = {};
       }
       if (ec) {
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index c97fe43..88189e2 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -67,7 +67,8 @@ public:
       boost::system::error_code ec;
       inflater_.write(p, Flush::sync, ec);
 
-      if (ec == error::end_of_stream) {
+      if (ec == error::end_of_stream
+          || (ec == error::need_buffers && readable.size() == 0)) {
         ec = {};
       }
       if (ec) {
-- 
2.43.0


From e219e5a8535d269ed4df07d236433dde9c391806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 26/38] fix: inflating never ends when bytes follow the
 compressed stream

---
 .../detail/async_brotli_inflate_stream.hpp          | 11 +++++++++++
 .../middleware/detail/async_gzip_inflate_stream.hpp | 13 ++++++++++++-
 .../web/middleware/detail/async_inflate_stream.hpp  | 13 ++++++++++++-
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index db49e94..274f833 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -115,6 +115,9 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      co_return unexpected { make_error_code(brotli_error::error) };
+    }
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -130,6 +133,7 @@ public:
                             writable.size());
 
       auto ec = inflater_.write(p);
+      finished_ = !ec;
       if (ec == brotli_error::need_more_input
           || ec == brotli_error::need_more_output) {
         ec = {};
@@ -141,6 +145,12 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (finished_) {
+        if (readable.size() > 0) {
+          co_return unexpected { make_error_code(brotli_error::error) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -152,6 +162,7 @@ public:
 private:
   NextLayer next_;
   brotli_decoder inflater_;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index e36f837..f050bbe 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -52,6 +52,9 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      co_return unexpected { make_error_code(error::general) };
+    }
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -70,7 +73,8 @@ public:
       boost::system::error_code ec;
       inflater_.write(p, Flush::sync, ec);
 
-      if (ec == error::end_of_stream
+      finished_ = ec == error::end_of_stream;
+      if (finished_
           || (ec == error::need_buffers && readable.size() == 0)) {
         ec = {};
       }
@@ -81,6 +85,12 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (finished_) {
+        if (readable.size() > 0) {
+          co_return unexpected { make_error_code(error::general) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -92,6 +102,7 @@ public:
 private:
   NextLayer next_;
   gzip_inflate_stream inflater_;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index 88189e2..f012be8 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -49,6 +49,9 @@ public:
     if ((*data)->empty()) {
       co_return bytes();
     }
+    if (finished_) {
+      co_return unexpected { make_error_code(error::general) };
+    }
 
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
@@ -67,7 +70,8 @@ public:
       boost::system::error_code ec;
       inflater_.write(p, Flush::sync, ec);
 
-      if (ec == error::end_of_stream
+      finished_ = ec == error::end_of_stream;
+      if (finished_
           || (ec == error::need_buffers && readable.size() == 0)) {
         ec = {};
       }
@@ -78,6 +82,12 @@ public:
       readable.consume(readable.size() - p.avail_in);
       buffer.commit(writable.size() - p.avail_out);
 
+      if (finished_) {
+        if (readable.size() > 0) {
+          co_return unexpected { make_error_code(error::general) };
+        }
+        break;
+      }
       if (readable.size() == 0 && p.avail_out > 0) {
         break;
       }
@@ -89,6 +99,7 @@ public:
 private:
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
+  bool finished_ = false;
 };
 
 template <typename NextLayer>
-- 
2.43.0


From 00cb66aa4a2e4a5a7a7fd33e96ac6974257c7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 27/38] fix: the last bytes of a deflate body are lost

---
 .../detail/async_inflate_stream.hpp           | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index f012be8..f2d3cf7 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -40,7 +40,35 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
-      co_return nullopt;
+      if (!started_ || finished_) {
+        co_return nullopt;
+      }
+      finished_ = true;
+
+      // The decoder wants to see as many bits as the longest code has. Give it
+      // one more byte to get at what is encoded in the last bits.
+      const auto padding = std::byte(0);
+      auto buffer = dynamic_buffer<bytes>();
+      auto writable = buffer.prepare(65536);
+
+      auto p = z_params();
+      p.next_in = &padding;
+      p.avail_in = 1;
+      p.next_out = writable.data();
+      p.avail_out = writable.size();
+
+      boost::system::error_code ec;
+      inflater_.write(p, Flush::sync, ec);
+
+      if (ec && ec != error::end_of_stream) {
+        co_return unexpected { ec };
+      }
+
+      buffer.commit(writable.size() - p.avail_out);
+      if (buffer.size() == 0) {
+        co_return nullopt;
+      }
+      co_return buffer.release();
     }
 
     if (!*data) {
@@ -53,6 +81,8 @@ public:
       co_return unexpected { make_error_code(error::general) };
     }
 
+    started_ = true;
+
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
     auto buffer = dynamic_buffer<bytes>();
@@ -99,6 +129,7 @@ public:
 private:
   NextLayer next_;
   boost::beast::zlib::inflate_stream inflater_;
+  bool started_ = false;
   bool finished_ = false;
 };
 
-- 
2.43.0


From 69b90162e17ab4fac3d0489caeb468776a2ca9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 28/38] fix: a truncated compressed body is taken for a
 complete one

---
 .../web/middleware/detail/async_brotli_inflate_stream.hpp  | 7 +++++++
 .../web/middleware/detail/async_gzip_inflate_stream.hpp    | 7 +++++++
 .../fitoria/web/middleware/detail/async_inflate_stream.hpp | 4 ++++
 3 files changed, 18 insertions(+)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
index 274f833..2a35cc5 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_inflate_stream.hpp
@@ -106,6 +106,10 @@ public:
   {
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        finished_ = true;
+        co_return unexpected { make_error_code(brotli_error::need_more_input) };
+      }
       co_return nullopt;
     }
 
@@ -119,6 +123,8 @@ public:
       co_return unexpected { make_error_code(brotli_error::error) };
     }
 
+    started_ = true;
+
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
     auto buffer = dynamic_buffer<bytes>();
@@ -162,6 +168,7 @@ public:
 private:
   NextLayer next_;
   brotli_decoder inflater_;
+  bool started_ = false;
   bool finished_ = false;
 };
 
diff --git a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
index f050bbe..476861f 100644
--- a/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_gzip_inflate_stream.hpp
@@ -43,6 +43,10 @@ public:
 
     auto data = co_await next_.async_read_some();
     if (!data) {
+      if (started_ && !finished_) {
+        finished_ = true;
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
       co_return nullopt;
     }
 
@@ -56,6 +60,8 @@ public:
       co_return unexpected { make_error_code(error::general) };
     }
 
+    started_ = true;
+
     auto readable = dynamic_buffer<bytes>(std::move(**data));
 
     auto buffer = dynamic_buffer<bytes>();
@@ -102,6 +108,7 @@ public:
 private:
   NextLayer next_;
   gzip_inflate_stream inflater_;
+  bool started_ = false;
   bool finished_ = false;
 };
 
diff --git a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
index f2d3cf7..1bc24f7 100644
--- a/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_inflate_stream.hpp
@@ -63,6 +63,10 @@ public:
       if (ec && ec != error::end_of_stream) {
         co_return unexpected { ec };
       }
+      if (!ec || (p.avail_in == 0 && (p.data_type & 63) < 8)) {
+        // not complete without the additional byte
+        co_return unexpected { make_error_code(error::need_buffers) };
+      }
 
       buffer.commit(writable.size() - p.avail_out);
       if (buffer.size() == 0) {
-- 
2.43.0


From 84096f49003e8f718b164091a4c623579a454b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 29/38] fix: the brotli encoder loses output beyond 64 KiB

---
 .../detail/async_brotli_deflate_stream.hpp    | 39 ++++++++++---------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
index 1d7e165..9304b81 100644
--- a/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
+++ b/include/fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp
@@ -140,18 +140,18 @@ public:
       finish_ = true;
 
       auto buffer = dynamic_buffer<bytes>();
-      auto writable = buffer.prepare(65536);
+      while (!deflater_.is_done()) {
+        auto writable = buffer.prepare(65536);
 
-      auto p = broti_params(nullptr, 0, writable.data(), writable.size());
+        auto p = broti_params(nullptr, 0, writable.data(), writable.size());
 
-      auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        auto ec = deflater_.write(p, brotli_encoder_operation::finish);
+        if (ec) {
+          co_return unexpected { ec };
+        }
 
-      FITORIA_ASSERT(ec != brotli_error::need_more_output);
-      if (ec) {
-        co_return unexpected { ec };
+        buffer.commit(writable.size() - p.avail_out);
       }
-
-      buffer.commit(writable.size() - p.avail_out);
       co_return buffer.release();
     }
 
@@ -164,20 +164,23 @@ public:
     }
 
     auto buffer = dynamic_buffer<bytes>();
-    auto writable
-        = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
+    for (std::size_t offset = 0; offset < readable->size();) {
+      auto writable
+          = buffer.prepare(std::max(readable->size(), std::size_t(65536)));
 
-    auto p = broti_params(
-        readable->data(), readable->size(), writable.data(), writable.size());
+      auto p = broti_params(readable->data() + offset,
+                            readable->size() - offset,
+                            writable.data(),
+                            writable.size());
 
-    auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      auto ec = deflater_.write(p, brotli_encoder_operation::process);
+      if (ec) {
+        co_return unexpected { ec };
+      }
 
-    FITORIA_ASSERT(ec != brotli_error::need_more_output);
-    if (ec) {
-      co_return unexpected { ec };
+      offset = readable->size() - p.avail_in;
+      buffer.commit(writable.size() - p.avail_out);
     }
-
-    buffer.commit(writable.size() - p.avail_out);
     co_return buffer.release();
   }
 
-- 
2.43.0


From 204a0f397442b0163f28a70465bb47f5482c354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 30/38] fix: the registered name "br" of the brotli coding is
 not supported

---
 include/fitoria/web/middleware/decompress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fitoria/web/middleware/decompress.hpp b/include/fitoria/web/middleware/decompress.hpp
index b38e738..36fa2f5 100644
--- a/include/fitoria/web/middleware/decompress.hpp
+++ b/include/fitoria/web/middleware/decompress.hpp
@@ -48,7 +48,7 @@ public:
           body = detail::async_gzip_inflate_stream(std::move(body));
 #endif
 #if defined(FITORIA_HAS_BROTLI)
-        } else if (cmp_eq_ci(enc, "brotli")) {
+        } else if (cmp_eq_ci(enc, "br") || cmp_eq_ci(enc, "brotli")) {
           body = detail::async_brotli_inflate_stream(std::move(body));
 #endif
         } else if (cmp_eq_ci(enc, "identity")) {
-- 
2.43.0


From ec42af4a2a5cb2de0430e2ec623811cf4d2cbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 31/38] fix: only the first Content-Encoding field is
 decompressed

---
 include/fitoria/web/middleware/decompress.hpp | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/fitoria/web/middleware/decompress.hpp b/include/fitoria/web/middleware/decompress.hpp
index 36fa2f5..16337df 100644
--- a/include/fitoria/web/middleware/decompress.hpp
+++ b/include/fitoria/web/middleware/decompress.hpp
@@ -34,8 +34,21 @@ class decompress_middleware {
 public:
   auto operator()(Request req) const -> Response
   {
-    if (auto str = req.headers().get(http::field::content_encoding); str) {
-      auto encs = split_of(*str, ",");
+    if (req.headers().contains(http::field::content_encoding)) {
+      // several fields are the same as one with all their values
+      auto value = std::string();
+      for (auto [it, last]
+           = req.headers().equal_range(http::field::content_encoding);
+           it != last;
+           ++it) {
+        if (!value.empty()) {
+          value += ',';
+        }
+        value += it->value();
+      }
+
+      auto str = std::string_view(value);
+      auto encs = split_of(str, ",");
       std::reverse(encs.begin(), encs.end());
 
       auto body = std::move(req.body());
@@ -57,15 +70,15 @@ public:
               .set_header(http::field::content_type, mime::text_plain())
               .set_body(R"(unsupported "Content-Encoding".)");
         }
-        *str = remove_last_encoding(*str);
+        str = remove_last_encoding(str);
       }
 
       auto builder = req.builder();
 
-      if (str->empty()) {
+      if (str.empty()) {
         builder.headers().erase(http::field::content_encoding);
       } else {
-        builder.set_header(http::field::content_encoding, *str);
+        builder.set_header(http::field::content_encoding, str);
       }
 
       req = builder.set_body(std::move(body));
-- 
2.43.0


From 214f4c82f4e86e5448f2450947cd1517ed08212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 32/38] fix: a request for a websocket to any other handler
 ends the server

The server ran the websocket for every valid request for an upgrade, also when
the route did not exist or its handler does not take a websocket: it accepted
the handshake and called a callback which was not set (assertion or
std::bad_function_call), or used the response after its lifetime. Such a
request is now answered with the response of the handler.
---
 include/fitoria/web/http_server.hpp | 21 +++++++++++++--------
 include/fitoria/web/websocket.hpp   | 10 ++++++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index cce155d..88d1adf 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -424,9 +424,6 @@ private:
       auto session_state = std::make_shared<state_map>();
 
       if (upgrade) {
-        // timeout must be turned off, websocket has its own timeout mechanism
-        get_lowest_layer(stream).expires_never();
-
         // we don't handle expect: 100-continue here,
         // boost::beast::websocket::stream::accept() will do it for us
         (*session_state)[std::type_index(typeid(websocket))]
@@ -480,11 +477,19 @@ private:
                   .set_body("request target is invalid");
       }
 
-      if (upgrade) {
-        auto& ws = *std::any_cast<websocket>(
-            &(*session_state)[std::type_index(typeid(websocket))]);
-        ws.set_response(std::move(res));
-        if (auto result = co_await ws.run(parser->get()); !result) {
+      // a request for upgrade is answered as usual unless the handler has
+      // accepted it
+      auto ws = upgrade
+          ? std::any_cast<websocket>(
+                &(*session_state)[std::type_index(typeid(websocket))])
+          : nullptr;
+      if (ws && ws->has_handler()
+          && res.status().value() == http::status::switching_protocols) {
+        // timeout must be turned off, websocket has its own timeout mechanism
+        get_lowest_layer(stream).expires_never();
+
+        ws->set_response(std::move(res));
+        if (auto result = co_await ws->run(parser->get()); !result) {
           co_return unexpected { result.error() };
         }
       } else {
diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index e8753c2..94a703a 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -243,6 +243,11 @@ public:
       callback_ = std::move(callback);
     }
 
+    auto has_callback() const noexcept -> bool
+    {
+      return static_cast<bool>(callback_);
+    }
+
     auto callback() noexcept -> callback_type&
     {
       FITORIA_ASSERT(callback_);
@@ -435,6 +440,11 @@ public:
   }
 
 private:
+  auto has_handler() const noexcept -> bool
+  {
+    return impl_->has_callback();
+  }
+
   template <typename Body>
   auto run(boost::beast::http::request<Body>& req)
       -> awaitable<expected<void, std::error_code>>
-- 
2.43.0


From f6cfcbebb4dc3335b98d382efb74322617b26aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 33/38] fix: a websocket of an unsupported version uses a
 moved-from response

---
 include/fitoria/web/websocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 94a703a..967af8f 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -533,6 +533,7 @@ private:
       builder.set_header(http::field::sec_websocket_version, "13");
       impl_->set_response(builder.set_body(
           make_error_code(ws::error::bad_sec_version).message()));
+      return;
     }
 
     builder.set_header(http::field::upgrade, "websocket");
-- 
2.43.0


From 17f4a2d2c0760aa8411f2770c1d7ec44c3a11a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 34/38] fix: what follows a websocket on its connection is
 taken for requests

---
 include/fitoria/web/http_server.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index 88d1adf..a83ce0d 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -492,6 +492,9 @@ private:
         if (auto result = co_await ws->run(parser->get()); !result) {
           co_return unexpected { result.error() };
         }
+
+        // nothing that follows is an HTTP request
+        break;
       } else {
         if (auto exp = co_await do_response(
                 stream,
-- 
2.43.0


From d8a3b22804511f7562c77725df546e0ccb8f599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 35/38] fix: headers of the response that accepts a websocket
 are lost

---
 include/fitoria/web/websocket.hpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/fitoria/web/websocket.hpp b/include/fitoria/web/websocket.hpp
index 967af8f..5439978 100644
--- a/include/fitoria/web/websocket.hpp
+++ b/include/fitoria/web/websocket.hpp
@@ -451,21 +451,17 @@ private:
   {
     namespace ws = boost::beast::websocket;
 
-    if (auto res = impl_->release_response();
-        !std::holds_alternative<any_body::null>(res.body().size())) {
-      auto body
-          = co_await async_read_until_eof<std::string>(res.body().stream());
-      if (!body) {
-        co_return unexpected { body.error() };
-      }
-      impl_->set_option(ws::stream_base::decorator(
-          [&res, body = std::move(body)](ws::response_type& r) {
-            for (auto& field : res.headers()) {
-              r.set(field.name_string(), field.value());
-            }
-            r.body() = std::move(*body);
-          }));
-    }
+    // the response that accepts the handshake has no body
+    auto res = impl_->release_response();
+    impl_->set_option(
+        ws::stream_base::decorator([&res](ws::response_type& r) {
+          for (auto& field : res.headers()) {
+            r.erase(field.name_string());
+          }
+          for (auto& field : res.headers()) {
+            r.insert(field.name_string(), field.value());
+          }
+        }));
 
     if (auto result = co_await impl_->async_accept(req); !result) {
       co_return unexpected { result.error() };
-- 
2.43.0


From 9c950b4592872d255c3ef0e884fac6ecf41e70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 36/38] fix: serve_request without a response takes the error
 for one

---
 include/fitoria/web/http_server.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fitoria/web/http_server.hpp b/include/fitoria/web/http_server.hpp
index a83ce0d..3a7e20f 100644
--- a/include/fitoria/web/http_server.hpp
+++ b/include/fitoria/web/http_server.hpp
@@ -294,7 +294,12 @@ public:
            std::string path,
            test_request tr,
            ResponseHandler handler) -> awaitable<void> {
-          co_await handler(*(co_await do_http_request(stream, path, tr)));
+          auto res = co_await do_http_request(stream, path, tr);
+          if (!res) {
+            FITORIA_THROW_OR(std::system_error(res.error()), co_return);
+          }
+
+          co_await handler(std::move(*res));
         }(stream, std::move(path), std::move(req), std::move(handler)),
         net::detached);
   }
-- 
2.43.0


From d03b145e761d677899aaf2e43c80f3a3dc6d4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 37/38] fix: the file name in Content-Disposition is not
 escaped

---
 include/fitoria/web/static_file.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/web/static_file.hpp b/include/fitoria/web/static_file.hpp
index 51b07aa..72a6b04 100644
--- a/include/fitoria/web/static_file.hpp
+++ b/include/fitoria/web/static_file.hpp
@@ -365,8 +365,15 @@ private:
       return fmt::format("inline");
     }
 
-    auto p = std::filesystem::path(path);
-    return fmt::format(R"(attachment; filename="{}")", p.filename().string());
+    // quoted-string: '"' and '\\' have to be escaped
+    auto name = std::string();
+    for (auto c : std::filesystem::path(path).filename().string()) {
+      if (c == '"' || c == '\\') {
+        name += '\\';
+      }
+      name += c;
+    }
+    return fmt::format(R"(attachment; filename="{}")", name);
   }
 
   static auto check_if_not_modified(
-- 
2.43.0


From dd59230eac9d75cf6a5926923b6422586e973f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:48 +0000
Subject: [PATCH 38/38] fix: destroying a logger while it writes hangs and
 drops records

---
 include/fitoria/log/async_logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fitoria/log/async_logger.hpp b/include/fitoria/log/async_logger.hpp
index d2569bf..44f9681 100644
--- a/include/fitoria/log/async_logger.hpp
+++ b/include/fitoria/log/async_logger.hpp
@@ -49,7 +49,7 @@ class async_logger {
   {
     for (;;) {
       auto rec = co_await channel_.async_receive(use_awaitable);
-      if (!rec) {
+      if (!rec || !*rec) {
         break;
       }
 
@@ -112,7 +112,9 @@ public:
 
   ~async_logger()
   {
-    channel_.cancel();
+    // an empty record follows everything that has been logged so far
+    net::co_spawn(
+        net::system_executor(), async_enqueue(nullptr), net::detached);
 
     // TODO: investigate if it hangs when `-fsanitizer=address` is on ?
     if (auto status = fut_.wait_for(std::chrono::seconds(30));
-- 
2.43.0

