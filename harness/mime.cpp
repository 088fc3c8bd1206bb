#include "sym.h"
#include <fitoria/mime.hpp>
#include <vector>
using namespace fitoria;
using mime::mime_view;
using mime::name_view;
using mime::params_view;

namespace {
struct tabs {
  bool ws[256], first[256], rest[256];
  unsigned char lo[256];
  constexpr tabs()
      : ws()
      , first()
      , rest()
      , lo()
  {
    for (int c = 0; c < 256; ++c) {
      ws[c] = c == ' ' || (c >= 9 && c <= 13);
      first[c] = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
      rest[c] = first[c] || c == '!' || c == '#' || c == '$' || c == '&' || c == '-' || c == '^' || c == '_';
      lo[c] = (unsigned char) (c >= 'A' && c <= 'Z' ? c + 32 : c);
    }
  }
};
constexpr tabs TB;
std::string_view trm(std::string_view s)
{
  size_t a = 0, b = s.size();
  while (a < b && TB.ws[(unsigned char) s[a]]) ++a;
  while (b > a && TB.ws[(unsigned char) s[b - 1]]) --b;
  return s.substr(a, b - a);
}
bool name_ok(std::string_view s)
{
  if (s.empty()) return false;
  bool ok = TB.first[(unsigned char) s[0]];
  for (size_t i = 1; i < s.size(); ++i) ok &= TB.rest[(unsigned char) s[i]];
  return ok;
}
bool ci_eq(std::string_view a, std::string_view b)
{
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) r &= TB.lo[(unsigned char) a[i]] == TB.lo[(unsigned char) b[i]];
  return r;
}
std::string_view sv(const name_view& n) { return static_cast<std::string_view>(n); }
bool same(std::string_view a, std::string_view b) { return a.data() == b.data() && a.size() == b.size(); }
std::vector<std::string_view> split(std::string_view s, char c)
{
  std::vector<std::string_view> r;
  size_t f = 0;
  for (size_t i = 0; i <= s.size(); ++i)
    if (i == s.size() || s[i] == c) {
      r.push_back(trm(s.substr(f, i - f)));
      f = i + 1;
    }
  return r;
}
struct kv {
  std::string_view k, v;
};
struct ref {
  std::string_view essence, type, subtype, suffix;
  bool has_suffix;
  std::vector<kv> params; // one per distinct name (case ignored), last value wins
};
bool ref_parse(std::string_view s, ref& r)
{
  auto parts = split(s, ';');
  r.essence = parts[0];
  auto ts = split(parts[0], '/');
  if (ts.size() != 2 || !name_ok(ts[0])) return false;
  auto ss = split(ts[1], '+');
  if (ss.size() > 2 || !name_ok(ss[0])) return false;
  r.type = ts[0];
  r.subtype = ss[0];
  r.has_suffix = ss.size() == 2;
  if (r.has_suffix) {
    if (!name_ok(ss[1])) return false;
    r.suffix = ss[1];
  }
  for (size_t i = 1; i < parts.size(); ++i) {
    auto p = split(parts[i], '=');
    if (p.size() != 2 || !name_ok(p[0]) || !name_ok(p[1])) return false;
    bool found = false;
    for (auto& x : r.params)
      if (ci_eq(x.k, p[0])) {
        x.v = p[1];
        found = true;
        break;
      }
    if (!found) r.params.push_back({ p[0], p[1] });
  }
  return true;
}
void check_mime(std::string_view s)
{
  auto r = mime_view::parse(s);
  ref w {};
  bool ok = ref_parse(s, w);
  sym_assert(r.has_value() == ok, "accepted exactly when it is type/subtype[+suffix] with name=value parameters");
  sym_observe(r.has_value());
  if (!ok) sym_cover("reject");
  if (!r || !ok) return;
  sym_cover("accept");
  // parts are views of the given text
  sym_assert(same(sv(r->source()), s), "source is the whole text");
  sym_assert(same(static_cast<std::string_view>(*r), s), "converts to the whole text");
  sym_assert(same(sv(r->essence()), w.essence), "essence");
  sym_assert(same(sv(r->type()), w.type), "type");
  sym_assert(same(sv(r->subtype()), w.subtype), "subtype");
  sym_assert(r->suffix().has_value() == w.has_suffix, "suffix presence");
  if (r->suffix() && w.has_suffix) {
    sym_assert(same(sv(*r->suffix()), w.suffix), "suffix");
    sym_cover("suffix");
  }
  sym_assert(r->params().size() == w.params.size(), "one parameter per distinct name");
  sym_observe(w.params.size());
  for (auto& p : w.params) {
    auto g = r->params().get(p.k);
    sym_assert(g.has_value(), "every parameter is found by its name");
    if (g) sym_assert(same(sv(*g), p.v), "a parameter has its last value");
    sym_cover("param");
  }
  check_eq(fmt::format("{}", *r), s, "formatted as the whole text");
}
}
HARNESS(mm_parse)
{
  static const char* const T[] = { "", "?", "??", "???", "????", "a/b??", "a/??", "a?b?c", "?/?+?", "a/b;??", "a/b;?=?", "a/b;?=?;?=?",
                                   "a/b ? ", "a/b;x=?", "a/b+c;?=? ", "a/b;c=d?", "a/b;A=b;?=c;a=d", "a/b?c=d?e",
                                   "?????", "a/b????", "a/b;????", "a/b;??=?;?=?", "a/b+?;?=?;?=?", "??/??+?", "a/b;?=?;?=?;?=?",
                                   "?a/b;x=1", "  a/b ?;c=d", "application/something-long?+suffix-long?;charset=utf-8?;boundary=0123456789abcdef0?",
                                   "?ultipart/form-data ; boundary = 0123456789abcdef?; b0=1;b1=2;b2=?;B0=3", " ?/b+c" };
  sym_str s(T[sym_param()]);
  check_mime(s.sv());
}

// names compare ignoring ASCII case
HARNESS(mm_name)
{
  size_t n = sym_param() / 100, m = sym_param() % 100;
  sym_str a(n), b(m);
  name_view x(a.sv()), y(b.sv());
  bool eq = ci_eq(a.sv(), b.sv());
  sym_assert((x == y) == eq, "equality ignores case");
  sym_assert((x == b.sv()) == eq, "equality with text ignores case");
  auto c = x <=> y;
  sym_assert((c == 0) == eq, "ordering agrees with equality");
  auto d = y <=> x;
  sym_assert((c < 0) == (d > 0) && (c > 0) == (d < 0), "ordering is antisymmetric");
  sym_assert((x <=> b.sv()) == c, "ordering with text agrees");
  sym_assert(same(sv(x), a.sv()), "keeps the text");
  auto t = x.to_string();
  sym_assert(t.size() == n, "lower-case text has the same length");
  bool ok = t.size() == n;
  for (size_t i = 0; i < n && i < t.size(); ++i) ok &= (unsigned char) t[i] == TB.lo[a[i]];
  sym_assert(ok, "to_string lowers ASCII letters only");
  sym_assert(name_view(t) == x, "to_string names the same thing");
  check_eq(fmt::format("{}", x), a.sv(), "formatted as written");
  observe(t);
  sym_observe(eq);
  sym_cover("name");
}
// a map from case-ignored names to the last value set
HARNESS(mm_params)
{
  struct slot {
    const char* k;
    unsigned char v;
  };
  static const char* const N[] = { "a", "A", "b", "bC", "Bc", "ab" };
  static const unsigned char CL[] = { 0, 0, 1, 2, 2, 3 };
  static const char* const V[] = { "x", "Y", "zz" };
  size_t steps = sym_param();
  params_view p;
  const params_view& cp = p;
  int val[4] = { -1, -1, -1, -1 };
  size_t cnt = 0;
  for (size_t i = 0; i < steps; ++i) {
    unsigned op = (unsigned) sym_choice(6);
    unsigned k = (unsigned) sym_choice(6), v = (unsigned) (i % 3);
    int& w = val[CL[k]];
    switch (op) {
    case 0:
      p.set(N[k], V[v]);
      cnt += w < 0;
      w = (int) v;
      break;
    case 1:
      p[N[k]] = V[v];
      cnt += w < 0;
      w = (int) v;
      break;
    case 2: {
      auto r = p.erase(N[k]);
      sym_assert(r.has_value() == (w >= 0), "erase reports whether the name was there");
      if (r && w >= 0) check_eq(sv(*r), V[w], "erase gives the value");
      cnt -= w >= 0;
      w = -1;
      break;
    }
    case 3: {
      bool threw = false;
      try {
        auto& x = p.at(N[k]);
        if (w >= 0) check_eq(sv(x), V[w], "at");
        x = V[v];
      } catch (const std::out_of_range&) {
        threw = true;
      }
      sym_assert(threw == (w < 0), "at throws exactly for an absent name");
      if (w >= 0) w = (int) v;
      break;
    }
    case 4: {
      params_view q(p);
      q.set(N[k], V[v]);
      sym_assert((q == p) == (w == (int) v), "a copy is independent");
      params_view m(std::move(q));
      sym_assert(m.contains(N[k]), "moved");
      p = m;
      cnt += w < 0;
      w = (int) v;
      break;
    }
    case 5:
      p.clear();
      cnt = 0;
      for (auto& x : val) x = -1;
      break;
    }
    sym_assert(p.size() == cnt && p.empty() == (cnt == 0), "size");
    for (unsigned j = 0; j < 6; ++j) {
      int e = val[CL[j]];
      auto g = p.get(N[j]);
      auto h = cp.get(N[j]);
      sym_assert(p.contains(N[j]) == (e >= 0), "contains");
      sym_assert(g.has_value() == (e >= 0) && h.has_value() == (e >= 0), "get finds what was set");
      if (g && h && e >= 0) {
        check_eq(sv(*g), V[e], "get gives the last value");
        check_eq(sv(*h), V[e], "const get agrees");
        check_eq(sv(cp.at(N[j])), V[e], "const at agrees");
      }
    }
    size_t n = 0;
    std::string_view prev;
    for (auto& [k2, v2] : cp) {
      if (n) sym_assert((name_view(prev) <=> k2) < 0, "iteration is in ascending order of names");
      prev = sv(k2);
      ++n;
    }
    sym_assert(n == cnt, "iteration visits every parameter once");
    sym_observe(cnt);
  }
  sym_cover("params");
}
// file extensions
HARNESS(mm_ext)
{
  static const struct {
    const char* e;
    const char* m;
  } X[] = { { "js", "application/javascript" }, { "json", "application/json" }, { "swf", "application/x-shockwave-flash" },
            { "wasm", "application/wasm" }, { "xml", "application/xml" }, { "bmp", "image/bmp" }, { "gif", "image/gif" },
            { "jpe", "image/jpeg" }, { "jpeg", "image/jpeg" }, { "jpg", "image/jpeg" }, { "png", "image/png" },
            { "svg", "image/svg+xml" }, { "svgz", "image/svg+xml" }, { "tif", "image/tiff" }, { "tiff", "image/tiff" },
            { "css", "text/css" }, { "htm", "text/html" }, { "html", "text/html" }, { "php", "text/html" },
            { "txt", "text/plain" }, { "flv", "video/x-flv" } };
  size_t n = sym_param() % 10;
  bool path = sym_param() >= 10;
  sym_str e(n);
  const char* want = "";
  for (auto& x : X)
    if (ci_eq(x.e, e.sv())) {
      want = x.m;
      sym_cover("known");
    }
  auto check = [&](const optional<mime_view>& r, std::string_view w) {
    sym_assert(r.has_value() == !w.empty(), "known extensions only");
    if (!r || w.empty()) return;
    check_eq(static_cast<std::string_view>(*r), w, "media type of the extension");
    auto p = mime_view::parse(w);
    sym_assert(p.has_value(), "it is a media type");
    if (!p) return;
    check_eq(sv(r->essence()), sv(p->essence()), "its essence");
    check_eq(sv(r->type()), sv(p->type()), "its type");
    check_eq(sv(r->subtype()), sv(p->subtype()), "its subtype");
    sym_assert(r->suffix().has_value() == p->suffix().has_value(), "its suffix");
    if (r->suffix() && p->suffix()) check_eq(sv(*r->suffix()), sv(*p->suffix()), "its suffix");
    sym_assert(r->params().empty(), "no parameters");
    sym_assert(*r == *p, "equal to the parsed one");
  };
  if (!path) {
    auto r = mime_view::from_extension(e.sv());
    check(r, want);
    sym_observe(r.has_value());
  } else {
    // the part after the last dot of a path
    std::string p("d.x/f.");
    p += e.sv();
    size_t dot = 5;
    for (size_t i = 6; i < p.size(); ++i)
      if (p[i] == '.') dot = i;
    auto r = mime_view::from_path(p);
    auto q = mime_view::from_extension(std::string_view(p).substr(dot + 1));
    sym_assert(r.has_value() == q.has_value(), "a path has the type of its last extension");
    if (r && q) check_eq(static_cast<std::string_view>(*r), static_cast<std::string_view>(*q), "a path has the type of its last extension");
    if (dot == 5) check(r, want);
    bool any = false;
    for (size_t i = 0; i < n; ++i) any |= e[i] == '.';
    auto z = mime_view::from_path(e.sv());
    if (!any) sym_assert(!z.has_value(), "no dot, no type");
    sym_observe(r.has_value());
  }
  sym_cover("ext");
}
// the predefined media types are what parsing their text gives
HARNESS(mm_predef)
{
  mime_view (*const F[])() noexcept = { mime::application_javascript, mime::application_json, mime::application_msgpack,
                               mime::application_octet_stream, mime::application_pdf, mime::application_shockwave_flash,
                               mime::application_text, mime::application_wasm, mime::application_www_form_urlencoded,
                               mime::application_xml, mime::image_bmp, mime::image_gif, mime::image_jpeg, mime::image_png,
                               mime::image_svg, mime::image_tiff, mime::multipart_form_data, mime::text_css, mime::text_csv,
                               mime::text_html, mime::text_javascript, mime::text_plain, mime::text_xml, mime::video_flv };
  static const char* const S[] = { "application/javascript", "application/json", "application/msgpack", "application/octet-stream",
                               "application/pdf", "application/x-shockwave-flash", "application/text", "application/wasm",
                               "application/x-www-form-urlencoded", "application/xml", "image/bmp", "image/gif", "image/jpeg",
                               "image/png", "image/svg+xml", "image/tiff", "multipart/form-data", "text/css", "text/csv",
                               "text/html", "text/javascript", "text/plain", "text/xml", "video/x-flv" };
  size_t i = (size_t) sym_choice(24), j = (size_t) sym_choice(24);
  auto a = F[i](), b = F[j]();
  check_eq(static_cast<std::string_view>(a), S[i], "text of the media type");
  auto p = mime_view::parse(S[i]);
  sym_assert(p.has_value(), "well-formed");
  if (!p) return;
  check_eq(sv(a.source()), sv(p->source()), "source");
  check_eq(sv(a.essence()), sv(p->essence()), "essence");
  check_eq(sv(a.type()), sv(p->type()), "type");
  check_eq(sv(a.subtype()), sv(p->subtype()), "subtype");
  sym_assert(a.suffix().has_value() == p->suffix().has_value(), "suffix");
  if (a.suffix() && p->suffix()) check_eq(sv(*a.suffix()), sv(*p->suffix()), "suffix");
  sym_assert(a.params().empty(), "no parameters");
  sym_assert((a == b) == (i == j), "distinct types are distinct");
  sym_assert(((a <=> b) == 0) == (i == j), "ordering agrees");
  sym_assert(((a <=> b) < 0) == ((b <=> a) > 0), "ordering is antisymmetric");
  sym_assert(a == std::string_view(S[i]) && (a <=> std::string_view(S[i])) == 0, "compares with its text");
  sym_observe(i);
  sym_cover("predef");
}
// the same with names of symbolic characters
HARNESS(mm_params_sym)
{
  size_t n = sym_param();
  sym_str a(n), b(n), c(n);
  params_view p;
  p.set(a.sv(), "1");
  p[b.sv()] = "2";
  bool ab = ci_eq(a.sv(), b.sv()), ca = ci_eq(c.sv(), a.sv()), cb = ci_eq(c.sv(), b.sv());
  sym_assert(p.size() == (ab ? 1u : 2u), "names equal up to case are one name");
  auto g = p.get(c.sv());
  sym_assert(g.has_value() == (ca | cb), "found exactly under a name stored");
  if (g) sym_assert(sv(*g)[0] == (cb ? '2' : '1'), "last value stored");
  auto e = p.erase(c.sv());
  sym_assert(e.has_value() == (ca | cb), "erased exactly under a name stored");
  sym_assert(p.contains(a.sv()) == !(ca | (ab & cb)), "only that name is erased");
  sym_assert(p.contains(b.sv()) == !cb, "only that name is erased");
  sym_observe(p.size());
  sym_cover("psym");
}
