// Stand-in for the parts of Boost.URL that fitoria uses. Boost.URL is a compiled
// library without sources here, so that it cannot be executed symbolically; this
// is its documented behaviour (RFC 3986 grammar, percent-decoding, '+' is a space
// in a query). tools/urlmodel.cpp compares it with the real library.
#pragma once
#include <boost/system/result.hpp>
#include <boost/system/system_error.hpp>
#include <boost/core/detail/string_view.hpp>
#include <string>
#include <string_view>
#include <vector>
#include <system_error>

namespace boost::urls {
using string_view = boost::core::string_view;
struct no_value_t {};
struct param {
  std::string key;
  std::string value;
  bool has_value = false;
};
namespace model {
constexpr bool alnum(unsigned char c) { return (unsigned char) ((c | 32) - 'a') < 26 || (unsigned char) (c - '0') < 10; }
constexpr bool one_of(unsigned char c, const char* s)
{
  bool r = false;
  for (; *s; ++s) r |= c == (unsigned char) *s;
  return r;
}
constexpr bool pchar(unsigned char c) { return alnum(c) | one_of(c, "-._~!$&'()*+,;=:@"); }
inline int hex(unsigned char c)
{
  if (c >= '0' && c <= '9') return c - '0';
  unsigned char d = c | 32;
  return d >= 'a' && d <= 'f' ? d - 'a' + 10 : -1;
}
// characters and percent-escapes up to the first character that is neither
template <class P>
inline bool span(const char*& p, const char* e, P ok)
{
  while (p != e) {
    if (*p == '%') {
      if (e - p < 3 || hex(p[1]) < 0 || hex(p[2]) < 0) return false;
      p += 3;
    } else if (ok((unsigned char) *p))
      ++p;
    else
      break;
  }
  return true;
}
inline std::string decode(std::string_view s, bool plus)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%') {
      r += (char) (hex(s[i + 1]) * 16 + hex(s[i + 2]));
      i += 2;
    } else
      r += plus && s[i] == '+' ? ' ' : s[i];
  return r;
}
inline bool qchar(unsigned char c) { return pchar(c) | one_of(c, "/?"); }
inline std::vector<param> params(std::string_view q, bool plus)
{
  std::vector<param> r;
  for (size_t b = 0;;) {
    size_t e = b;
    while (e < q.size() && q[e] != '&') ++e;
    auto s = q.substr(b, e - b);
    size_t v = 0;
    while (v < s.size() && s[v] != '=') ++v;
    param p;
    p.key = decode(s.substr(0, v), plus);
    p.has_value = v < s.size();
    if (p.has_value) p.value = decode(s.substr(v + 1), plus);
    r.push_back(std::move(p));
    if (e == q.size()) return r;
    b = e + 1;
  }
}
inline boost::system::error_code bad() { return boost::system::error_code(1, boost::system::generic_category()); }
}
struct encoding_opts {
  bool space_as_plus, lower_case, disallow_null;
  constexpr encoding_opts(bool p = false, bool l = false, bool n = false)
      : space_as_plus(p)
      , lower_case(l)
      , disallow_null(n)
  {
  }
};
class params_view {
  std::vector<param> v_;

public:
  params_view(string_view s, encoding_opts o)
  {
    const char* p = s.data();
    if (!model::span(p, s.data() + s.size(), model::qchar) || p != s.data() + s.size()) throw boost::system::system_error(model::bad());
    if (!s.empty()) v_ = model::params(std::string_view(s.data(), s.size()), o.space_as_plus);
  }
  params_view() = default;
  explicit params_view(std::vector<param> v)
      : v_(std::move(v))
  {
  }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
};
class params_encoded_view {
  std::string q_;

public:
  explicit params_encoded_view(std::string_view q)
      : q_(q)
  {
  }
  operator params_view() const { return q_.empty() ? params_view() : params_view(model::params(q_, false)); }
};
inline boost::system::result<params_encoded_view> parse_query(string_view s)
{
  const char* p = s.data();
  const char* e = p + s.size();
  if (!model::span(p, e, model::qchar) || p != e) return model::bad();
  return params_encoded_view(std::string_view(s.data(), s.size()));
}
class url_view {
  std::string path_, query_;
  bool has_query_ = false;

public:
  url_view() = default;
  url_view(std::string_view p, std::string_view q, bool h)
      : path_(p)
      , query_(q)
      , has_query_(h)
  {
  }
  std::string path() const { return model::decode(path_, false); }
  std::string_view encoded_path() const { return path_; }
  bool has_query() const { return has_query_; }
  std::string_view encoded_query() const { return query_; }
  std::string query() const { return model::decode(query_, true); }
  params_view params() const { return has_query_ ? params_view(model::params(query_, true)) : params_view(); }
  params_view params(encoding_opts o) const { return has_query_ ? params_view(model::params(query_, o.space_as_plus)) : params_view(); }
  std::string encoded_target() const { return has_query_ ? path_ + "?" + query_ : path_; }
};
// origin-form = absolute-path [ "?" query ]
inline boost::system::result<url_view> parse_origin_form(string_view s)
{
  const char* b = s.data();
  const char* p = b;
  const char* e = p + s.size();
  if (p == e || *p != '/') return model::bad();
  if (!model::span(p, e, [](unsigned char c) { return model::pchar(c) | (c == '/'); })) return model::bad();
  const char* m = p;
  if (p == e) return url_view(std::string_view(b, m - b), {}, false);
  if (*p != '?') return model::bad();
  ++p;
  const char* q = p;
  if (!model::span(p, e, model::qchar) || p != e) return model::bad();
  return url_view(std::string_view(b, m - b), std::string_view(q, e - q), true);
}
struct unreserved_chars_t {
  constexpr bool operator()(char c) const noexcept { return model::alnum((unsigned char) c) | (c == '-') | (c == '.') | (c == '_') | (c == '~'); }
};
constexpr unreserved_chars_t unreserved_chars {};
// further sets of characters, and unions of them
struct pchars_t {
  constexpr bool operator()(char c) const noexcept { return model::pchar((unsigned char) c); }
};
constexpr pchars_t pchars {};
struct sub_delim_chars_t {
  constexpr bool operator()(char c) const noexcept { return model::one_of((unsigned char) c, "!$&'()*+,;="); }
};
constexpr sub_delim_chars_t sub_delim_chars {};
struct gen_delim_chars_t {
  constexpr bool operator()(char c) const noexcept { return model::one_of((unsigned char) c, ":/?#[]@"); }
};
constexpr gen_delim_chars_t gen_delim_chars {};
struct reserved_chars_t {
  constexpr bool operator()(char c) const noexcept { return model::one_of((unsigned char) c, "!$&'()*+,;=:/?#[]@"); }
};
constexpr reserved_chars_t reserved_chars {};
namespace grammar {
struct alpha_chars_t {
  constexpr bool operator()(char c) const noexcept { return (unsigned char) (((unsigned char) c | 32) - 'a') < 26; }
};
constexpr alpha_chars_t alpha_chars {};
struct digit_chars_t {
  constexpr bool operator()(char c) const noexcept { return (unsigned char) (c - '0') < 10; }
};
constexpr digit_chars_t digit_chars {};
struct alnum_chars_t {
  constexpr bool operator()(char c) const noexcept { return model::alnum((unsigned char) c); }
};
constexpr alnum_chars_t alnum_chars {};
struct lut_chars {
  bool b[256] {};
  constexpr lut_chars(char c) noexcept { b[(unsigned char) c] = true; }
  constexpr lut_chars(const char* s) noexcept
  {
    for (; *s; ++s) b[(unsigned char) *s] = true;
  }
  constexpr bool operator()(char c) const noexcept { return b[(unsigned char) c]; }
};
}
namespace sets {
template <class A, class B>
struct either {
  A a;
  B b;
  constexpr bool operator()(char c) const noexcept { return a(c) | b(c); }
};
template <class T>
constexpr bool is_set = false;
template <>
inline constexpr bool is_set<unreserved_chars_t> = true;
template <>
inline constexpr bool is_set<pchars_t> = true;
template <>
inline constexpr bool is_set<sub_delim_chars_t> = true;
template <>
inline constexpr bool is_set<gen_delim_chars_t> = true;
template <>
inline constexpr bool is_set<reserved_chars_t> = true;
template <>
inline constexpr bool is_set<grammar::alpha_chars_t> = true;
template <>
inline constexpr bool is_set<grammar::digit_chars_t> = true;
template <>
inline constexpr bool is_set<grammar::alnum_chars_t> = true;
template <>
inline constexpr bool is_set<grammar::lut_chars> = true;
template <class A, class B>
inline constexpr bool is_set<either<A, B>> = true;
}
template <class A>
  requires sets::is_set<A>
constexpr sets::either<A, grammar::lut_chars> operator+(A a, char c)
{
  return { a, grammar::lut_chars(c) };
}
template <class A, class B>
  requires sets::is_set<A> && sets::is_set<B>
constexpr sets::either<A, B> operator+(A a, B b)
{
  return { a, b };
}
namespace grammar {
using urls::operator+;
}
namespace sets {
using urls::operator+;
}
namespace model {
inline char digit(unsigned v) { return (char) (v + (v < 10 ? '0' : 'A' - 10)); }
template <class C>
inline std::string encode(std::string_view s, C ok)
{
  std::string r;
  for (char c : s)
    if (ok(c)) r += c;
    else {
      r += '%';
      r += digit((unsigned char) c >> 4);
      r += digit((unsigned char) c & 15);
    }
  return r;
}
}
template <class C>
inline std::string encode(string_view s, C ok)
{
  return model::encode(std::string_view(s.data(), s.size()), ok);
}
template <class C>
inline std::string encode(string_view s, C ok, encoding_opts o)
{
  if (!o.space_as_plus) return model::encode(std::string_view(s.data(), s.size()), ok);
  std::string r;
  for (char c : s)
    if (c == ' ') r += '+';
    else r += model::encode(std::string_view(&c, 1), ok);
  return r;
}
class url {
  std::string path_, query_;
  bool has_query_ = false;

public:
  // a path that starts with // would be taken for an authority
  void set_path(std::string_view s)
  {
    path_ = model::encode(s, [](char c) { return model::pchar((unsigned char) c) | (c == '/'); });
    if (s.size() > 1 && s[0] == '/' && s[1] == '/') path_ = "/." + path_;
  }
  void set_query(std::string_view s)
  {
    query_ = model::encode(s, [](char c) { return model::qchar((unsigned char) c); });
    has_query_ = true;
  }
  void set_encoded_query(std::string_view s)
  {
    const char* p = s.data();
    if (!model::span(p, s.data() + s.size(), [](unsigned char) { return true; })) throw boost::system::system_error(model::bad());
    query_ = s;
    has_query_ = true;
  }
  std::string encoded_target() const { return has_query_ ? path_ + "?" + query_ : path_; }
};
}
