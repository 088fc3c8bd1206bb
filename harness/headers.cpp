#include "sym.h"
#include <fitoria/http/header/range.hpp>
#include <fitoria/http/header/entity_tag.hpp>
#include <fitoria/http/header/if_none_match.hpp>
#include <fitoria/http/version.hpp>
#include <vector>
using namespace fitoria;
using http::header::entity_tag;
using http::header::if_none_match;
using http::header::range;

namespace {
bool ws(char c) { return (c == ' ') | ((unsigned char) (c - 9) <= 4); }
std::string_view rtrim_(std::string_view s)
{
  size_t a = 0, b = s.size();
  while (a < b && ws(s[a])) ++a;
  while (b > a && ws(s[b - 1])) --b;
  return s.substr(a, b - a);
}
// a run of digits that fits 64 bits
bool num(std::string_view s, uint64_t& v)
{
  if (s.empty()) return false;
  for (size_t i = 0; i < s.size(); ++i)
    if ((unsigned char) (s[i] - '0') > 9) return false;
  __uint128_t m = 0;
  for (size_t i = 0; i < s.size(); ++i) m = m * 10 + (unsigned char) (s[i] - '0');
  v = (uint64_t) m;
  return (m >> 64) == 0;
}
struct refsub {
  uint64_t off, len;
};
// the reference reading of a Range header field value
bool ref_range(std::string_view s, uint64_t total, std::string_view& unit, std::vector<refsub>& out)
{
  size_t eq = s.size(), n = 0;
  for (size_t i = s.size(); i-- > 0;)
    if (s[i] == '=') {
      eq = i;
      ++n;
    }
  if (n != 1) return false;
  unit = rtrim_(s.substr(0, eq));
  auto set = rtrim_(s.substr(eq + 1));
  uint64_t a, b;
  if (!set.empty() && set[0] == '-') {
    if (!num(set.substr(1), a)) return false;
    if ((a == 0) | (total == 0)) return false;
    uint64_t len = a < total ? a : total;
    out.push_back({ total - len, len });
    return true;
  }
  size_t first = 0;
  for (size_t i = 0; i <= set.size(); ++i) {
    if (i < set.size() && set[i] != ',') continue;
    auto tok = rtrim_(set.substr(first, i - first));
    first = i + 1;
    size_t d = tok.size(), nd = 0;
    for (size_t k = tok.size(); k-- > 0;)
      if (tok[k] == '-') {
        d = k;
        ++nd;
      }
    if (nd != 1) return false;
    auto l = rtrim_(tok.substr(0, d)), r = rtrim_(tok.substr(d + 1));
    if (!num(l, a)) return false;
    if (r.empty()) {
      if (a >= total) return false;
      out.push_back({ a, total - a });
    } else {
      if (!num(r, b)) return false;
      if ((a > b) | (b == ~0ull)) return false;
      out.push_back({ a, b - a + 1 });
    }
  }
  return true;
}
void check_range(std::string_view s, uint64_t total)
{
  auto r = range::parse(s, total);
  std::string_view unit;
  std::vector<refsub> w;
  bool ok = ref_range(s, total, unit, w);
  sym_assert(r.has_value() == ok, "a Range value is accepted exactly when it is well-formed and satisfiable");
  sym_observe(r.has_value());
  if (!ok) sym_cover("reject");
  if (!r || !ok) return;
  sym_cover("accept");
  check_eq(r->unit(), unit, "range unit");
  sym_assert(r->size() == w.size(), "one subrange per element");
  if (r->size() != w.size()) return;
  for (size_t i = 0; i < w.size(); ++i) {
    sym_assert((*r)[i].offset == w[i].off, "subrange offset");
    sym_assert((*r)[i].length == w[i].len, "subrange length");
    sym_assert(r->at(i) == (*r)[i] && *(r->begin() + i) == (*r)[i], "all accessors agree");
    sym_assert((*r)[i].length != 0, "no empty subrange");
    sym_assert((*r)[i].offset <= ~0ull - (*r)[i].length, "end of the subrange does not wrap");
    sym_observe((*r)[i].offset);
    sym_observe((*r)[i].length);
  }
  const auto& c = *r;
  sym_assert((size_t) (c.end() - c.begin()) == w.size() && (size_t) (c.cend() - c.cbegin()) == w.size(), "iterators span the elements");
}
}

HARNESS(hd_range)
{
  static const char* const T[] = { "????", "b=????", "b=?-?,?-?", "b=-??", "by=??-??", "b=?-,?-", "b= ?- ?\t", "b?0-5",
                                   "?????", "b=?????", "b=?-?,???", "b=-???", " b= ??-??,?-", "b=1-2?3-4?", "b=???-???", "b=-????",
                                   "b=??????", "??????", "b=?-?,????", "b=1-2,?????", "b=?\t-?\t,?-\t?",
                                   "?econ?s-and-more-uni?=0-1", "bytes-and-more?unit=0-0,5-9", " i?ems =0-1,2-3,4-5,6-7,?-9,10-1?", "bytes=0-0?1-1?2-2?3-3",
                                   "bytes=000000000000000?,0-0000000000000000?", "seconds=-0000000000?0?", "bytes  \t  =   \t   ?-2   \t, 3  \t - 4?" };
  sym_str s(T[sym_param()]);
  check_range(s.sv(), sym_u64());
}
HARNESS(hd_range_big)
{
  // numbers at the edge of 64 bits
  static const char* const T[] = { "b=1844674407370955161?-", "b=0-1844674407370955161?", "b=-1844674407370955161?",
                                   "b=1844674407370955161?-1844674407370955161?", "b=1844674407370955161??-", "b=5-?8446744073709551615",
                                   "b=-?00000000000000000000", "b=9?99999999999999999-18446744073709551614", "b=0-0,1-1844674407370955161?",
                                   "b=000000000000000000000000?-0000000000000000000000?" };
  sym_str s(T[sym_param()]);
  for (size_t i = 0; i < s.n; ++i) sym_assume((s[i] == 'b') | (s[i] == '=') | (s[i] == '-') | (s[i] == ',') | ((unsigned char) (s[i] - '0') <= 9));
  check_range(s.sv(), sym_u64());
}

namespace {
bool etagc(unsigned char c) { return (c >= 0x21) & (c != 0x22) & (c != 0x7f); }
struct reftag {
  bool strong;
  std::string_view v;
};
// one entity tag starting at i; moves i past it
bool ref_tag(std::string_view s, size_t& i, reftag& t)
{
  t.strong = true;
  if (i + 1 < s.size() && s[i] == 'W' && s[i + 1] == '/') {
    t.strong = false;
    i += 2;
  }
  if (i >= s.size() || s[i] != '"') return false;
  ++i;
  size_t b = i;
  while (i < s.size() && etagc((unsigned char) s[i])) ++i;
  if (i >= s.size() || s[i] != '"') return false;
  t.v = s.substr(b, i - b);
  ++i;
  return true;
}
void check_tag(std::string_view s)
{
  auto r = entity_tag::parse(s);
  reftag t {};
  size_t i = 0;
  bool ok = ref_tag(s, i, t) && i == s.size();
  sym_assert(r.has_value() == ok, "accepted exactly when it is an entity tag");
  sym_observe(r.has_value());
  if (!ok) sym_cover("reject");
  if (!r || !ok) return;
  sym_cover("accept");
  sym_assert(r->strong() == t.strong, "weakness");
  check_eq(r->value(), t.v, "value");
  check_eq(r->to_string(), s, "prints as it was read");
  observe(r->value());
}
}
HARNESS(hd_etag)
{
  static const char* const T[] = { "", "?", "??", "???", "????", "W/\"??\"", "\"???\"", "?/\"?\"", "W?\"?\"", "W/??", "?????",
                                   "W/\"????\"", "\"?????\"", "??\"??\"", "W/????", "??????", "\"??????\"",
                                   "\"0123456789abcdef?0123456789abcdef?\"", "W/\"0123456789?bcdef0123456789ab?def\"", "?/\"0123456789abcdefghijklmnopqrstuvwxyz0123456789\"?" };
  sym_str s(T[sym_param()]);
  check_tag(s.sv());
}
// building, printing, reading back, comparing
HARNESS(hd_etag_build)
{
  size_t n = sym_param() / 100, m = sym_param() % 100;
  sym_str a(n), b(m);
  for (size_t i = 0; i < n; ++i) sym_assume(etagc(a[i]));
  for (size_t i = 0; i < m; ++i) sym_assume(etagc(b[i]));
  bool sa = sym_choice(2), sb = sym_choice(2);
  auto x = sa ? entity_tag::make_strong(std::string(a.sv())) : entity_tag::make_weak(std::string(a.sv()));
  entity_tag y(!sb, "zz");
  y.set_value(std::string(b.sv()));
  y.set_strong(sb);
  auto t = x.to_string();
  std::string w(sa ? "\"" : "W/\"");
  w += a.sv();
  w += "\"";
  check_eq(t, w, "printed form");
  auto r = entity_tag::parse(t);
  sym_assert(r.has_value(), "a printed tag can be read");
  if (r) {
    sym_assert(r->strong() == sa, "reading back keeps the weakness");
    check_eq(r->value(), a.sv(), "reading back keeps the value");
    sym_assert(*r == x, "reading back gives an equal tag");
  }
  bool same = sv_eq(a.sv(), b.sv());
  sym_assert((x == y) == (same & (sa == sb)), "strong comparison");
  sym_assert((y == x) == (x == y), "strong comparison is symmetric");
  sym_assert(x.weakly_equal_to(y) == same, "weak comparison ignores the weakness");
  sym_assert(y.weakly_equal_to(x) == same, "weak comparison is symmetric");
  sym_assert(y.strong() == sb, "setter");
  check_eq(y.value(), b.sv(), "setter");
  auto z = entity_tag(true, "q").set_strong(sb).set_value(std::string(b.sv()));
  sym_assert(z == y, "setters on a temporary");
  observe(t);
  sym_cover("build");
}

namespace {
void check_inm(std::string_view s)
{
  auto r = if_none_match::parse(s);
  sym_observe(r.has_value());
  auto v = rtrim_(s);
  std::vector<reftag> w;
  bool any = v == "*", ok = true;
  if (!any) {
    size_t i = 0;
    for (;;) {
      while (i < v.size() && ws(v[i])) ++i;
      reftag t {};
      if (!ref_tag(v, i, t)) {
        ok = false;
        break;
      }
      w.push_back(t);
      while (i < v.size() && ws(v[i])) ++i;
      if (i == v.size()) break;
      if (v[i] != ',') {
        ok = false;
        break;
      }
      ++i;
    }
  }
  sym_assert(r.has_value() == ok, "accepted exactly when it is * or a list of entity tags");
  if (!ok) sym_cover("reject");
  if (!r || !ok) return;
  sym_cover("accept");
  if (sym_concretize(any)) sym_cover("any");
  sym_assert(r->is_any() == any, "is_any");
  sym_assert(r->etags().size() == w.size(), "number of tags");
  sym_observe(w.size());
  if (r->etags().size() != w.size()) return;
  const auto& c = *r;
  sym_assert((size_t) (c.end() - c.begin()) == w.size() && (size_t) (c.cend() - c.cbegin()) == w.size()
                 && (size_t) (r->end() - r->begin()) == w.size(), "iterators span the tags");
  for (size_t i = 0; i < w.size(); ++i) {
    sym_assert(r->etags()[i].strong() == w[i].strong, "weakness of each tag");
    check_eq(r->etags()[i].value(), w[i].v, "value of each tag, in order");
    sym_observe(w[i].strong);
  }
}
}
HARNESS(hd_inm)
{
  static const char* const T[] = { "", "?", "??", "???", "?*?", "\"??\"", "\"?\"?\"\"", "\"\",?\"", "W/\"?,?\"", "\"?\"?W/\"?\"",
                                   "\"?\",\"?\"", " \"\" ? \"\" ", "\"?\"?\"?\"", "\"a\",?",
                                   "????", "W/\"???\"", "\"\",\"\",\"?\"", "?\"?\"?,?\"?\"", "\"??\",\"?\",W/\"\"", "\"????\"", "\"?\"??\"?\"", "?????",
                                   "\"a\",\"b\",W/\"c?\",\"d\",\"e\"?\"f\"", "\"0123456789abcdef?\" , W/\"0123456789abcdefgh?i\"", "\"a\" , \"b\" ?, \"c\"", "*,\"?\"", "\"?\",*" };
  sym_str s(T[sym_param()]);
  check_inm(s.sv());
}

HARNESS(hd_version)
{
  using http::version;
  uint32_t n = sym_u32();
  auto v = http::detail::from_impl_version(n);
  version w = version::unknown;
  w = n == 9 ? version::v0_9 : w;
  w = n == 10 ? version::v1_0 : w;
  w = n == 11 ? version::v1_1 : w;
  w = n == 20 ? version::v2_0 : w;
  w = n == 30 ? version::v3_0 : w;
  sym_assert(v == w, "number to version");
  unsigned back = http::detail::to_impl_version(v);
  sym_assert(back == (v == version::unknown ? 11u : n), "version to number, 11 when unknown");
  // any value of the enumeration
  uint8_t k = sym_u8();
  auto e = (version) k;
  unsigned m = http::detail::to_impl_version(e);
  static const unsigned M[] = { 11, 9, 10, 11, 20, 30 };
  static const char* const S[] = { "unknown", "0.9", "1.0", "1.1", "2.0", "3.0" };
  if (k > 5) {
    sym_assert(m == 11, "unknown version numbers are 11");
    check_eq(http::to_string(e), "unknown", "text of an unknown version");
    sym_cover("unknown");
    return;
  }
  k = (uint8_t) sym_concretize(k);
  sym_assert(m == M[k], "version number");
  check_eq(http::to_string(e), S[k], "text");
  check_eq(fmt::format("{}", (version) k), S[k], "formatted text");
  std::string pre("x");
  fmt::format_to(std::back_inserter(pre), "HTTP/{}!", (version) k);
  check_eq(pre, std::string("xHTTP/") + S[k] + "!", "formatted inside other text");
  sym_cover("known");
}
