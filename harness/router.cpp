#include "sym.h"
#include <cstring>
#include <fitoria/core/optional.hpp>
#include <fitoria/web/any_routable.hpp>
#include <fitoria/web/routable.hpp>
#include <fitoria/web/router.hpp>
#include <vector>
using namespace fitoria;
using web::path_matcher;
using web::path_token_kind;
using http::verb;

namespace {
// the text of a pattern as symbols: literal characters, 1 for a parameter,
// 0 for a wildcard; with the names in order
struct pat {
  std::string text;
  std::vector<unsigned char> sym;
  std::vector<std::string> names;
  explicit pat(std::string_view t)
      : text(t)
  {
    for (size_t i = 0; i < t.size();) {
      if (t[i] == '{') {
        size_t e = t.find('}', i);
        names.emplace_back(t.substr(i + 1, e - i - 1));
        sym.push_back(1);
        i = e + 1;
      } else if (t[i] == '#') {
        names.emplace_back(t.substr(i + 1));
        sym.push_back(0);
        i = t.size();
      } else
        sym.push_back((unsigned char) t[i++]);
    }
  }
};
// a path matches when literal characters are equal, a parameter takes one or
// more characters other than '/', a wildcard takes all the rest
bool ref_match(const pat& p, std::string_view s, std::vector<std::string>* vals)
{
  size_t i = 0;
  for (unsigned char c : p.sym) {
    if (c == 0) {
      if (vals) vals->emplace_back(s.substr(i));
      return true;
    }
    if (c == 1) {
      size_t b = i;
      while (i < s.size() && s[i] != '/') ++i;
      if (i == b) return false;
      if (vals) vals->emplace_back(s.substr(b, i - b));
    } else {
      if (i >= s.size() || (unsigned char) s[i] != c) return false;
      ++i;
    }
  }
  return i == s.size();
}
// a literal beats a parameter beats a wildcard, at the first difference
bool better(const pat& a, const pat& b)
{
  for (size_t i = 0;; ++i) {
    bool ea = i == a.sym.size(), eb = i == b.sym.size();
    if (ea || eb) return ea && !eb; // only a wildcard can follow
    if (a.sym[i] != b.sym[i]) return a.sym[i] > b.sym[i];
  }
}
void check_match(const path_matcher& m, const pat& p, std::string_view s)
{
  std::vector<std::string> v;
  bool ok = ref_match(p, s, &v);
  auto r = m.match(std::string(s));
  sym_assert(r.has_value() == ok, "a path matches exactly when it has the shape of the pattern");
  if (!r || !ok) return;
  sym_assert(r->size() == p.names.size() && v.size() == p.names.size(), "one value per name of the pattern");
  if (r->size() != v.size()) return;
  for (size_t i = 0; i < v.size(); ++i) {
    check_eq((*r)[i].first, p.names[i], "names in order of the pattern");
    check_eq((*r)[i].second, v[i], "the value is the part of the path at that place");
    observe(v[i]);
  }
  sym_cover("match");
}
}
// ---- matching one pattern
HARNESS(pm_match)
{
  static const char* const T[][2] = {
    { "", "" }, { "", "?" }, { "/", "?" }, { "/w", "/??" }, { "/w", "??" },
    { "/{p}", "/???" }, { "/{p}", "????" }, { "/{p}/x", "/????" }, { "/{p}/x", "/???/x" },
    { "/{p}/{q}", "/????" }, { "/{p}/{q}/", "/?????" }, { "/a/{name}/b/{other}", "/a/??/b/??" },
    { "/{p}/#w", "/????" }, { "/s/#file", "/s/???" }, { "/s#file", "/s???" }, { "#all", "???" }, { "/#w", "" },
    { "/a.b", "/a?b" }, { "/a+b", "/a?b" }, { "/a+b", "/aa?" }, { "/a*", "/??" }, { "/(a)", "/?a?" }, { "/a$", "/a?" }, { "/{p}.x", "/a" },
    { "/%20", "/%2?" }, { "/%20", "/?" }, { "/v1/users/{user-id}/posts/{post.id}", "/v1/users/??/posts/??" },
    { "/{a_rather_long_parameter_name}/and/{b}/c/#rest", "/some text longer than sixteen?/and/??/c/???" },
    { "//", "/??" }, { "//{p}", "//??" }, { "/{p}//{q}", "/??/???" },
    { "/a/{p}/b", "/a/?????" }, { "/{p}/{q}/{r}", "/??????" },
  };
  size_t k = sym_param();
  pat p(T[k][0]);
  sym_str s(T[k][1]);
  try {
    path_matcher m(p.text);
    check_eq(m.pattern(), p.text, "the pattern is kept");
    sym_assert(std::strcmp(T[k][0], "/{p}.x") != 0, "a pattern that is not valid is rejected");
    check_match(m, p, s.sv());
    auto m2 = m;
    check_match(m2, p, s.sv());
    auto m3 = std::move(m2);
    m2 = std::move(m3);
    check_match(m2, p, s.sv());
  } catch (const std::system_error&) {
    sym_assert(std::strcmp(T[k][0], "/{p}.x") == 0, "a valid pattern is accepted");
  }
}
// symbolic literal characters in the pattern
HARNESS(pm_sym)
{
  static const char* const T[][2] = { { "/??", "/??" }, { "/?{p}", "/???" }, { "/?#w", "/???" }, { "/{p}?/{q}", "/????" }, { "/{??}", "/??" } };
  size_t k = sym_param();
  sym_str t(T[k][0]);
  sym_str s(T[k][1]);
  try {
    path_matcher m(t.sv());
    bool special = false;
    for (size_t i = 0; i < t.n; ++i)
      if (T[k][0][i] == '?') special |= (t[i] == '{') | (t[i] == '}') | (t[i] == '#');
    if (special) return; // structure is decided by W01
    pat p(t.sv());
    check_match(m, p, s.sv());
  } catch (const std::system_error&) {
    sym_cover("rejected");
  }
}
// ---- finding a route
namespace {
using rt = web::router<int, int>;
rt::route_type mk(verb v, std::string_view p, int id)
{
  return rt::route_type(web::routable(v, path_matcher(p), {}, [id](int) { return id; }));
}
struct ent {
  pat p;
  verb v;
  int id;
};
struct model {
  std::vector<ent> es;
  bool add(const pat& p, verb v, int id)
  {
    for (auto& e : es)
      if (e.v == v && e.p.sym == p.sym) return false;
    es.push_back({ p, v, id });
    return true;
  }
  const ent* find(verb v, std::string_view s) const
  {
    const ent* b = nullptr;
    for (auto& e : es) {
      if (e.v != v && e.v != verb::unknown) continue;
      if (!ref_match(e.p, s, nullptr)) continue;
      if (!b || better(e.p, b->p) || (e.p.sym == b->p.sym && e.v == v)) b = &e;
    }
    return b;
  }
};
void check_find(const rt& r, const model& m, verb v, std::string_view s)
{
  auto* w = m.find(v, s);
  auto g = r.try_find(v, s);
  sym_assert(g.has_value() == (w != nullptr), "a route is found exactly when one matches path and method");
  sym_observe(w ? w->id : 0);
  if (g && w) {
    sym_cover("found");
    sym_assert((*g)(0) == w->id, "the most specific matching route is found");
    sym_assert(g->method() == w->v, "with its method");
    check_eq(g->matcher().pattern(), w->p.text, "with its pattern");
    check_match(g->matcher(), w->p, s);
  }
  if (!g) {
    sym_cover("none");
    sym_assert(g.error() == make_error_code(web::error::route_not_exists), "reported as a missing route");
  }
}
void add(rt& r, model& m, std::string_view text, verb v, int id)
{
  pat p(text);
  bool ok = m.add(p, v, id);
  auto g = r.try_insert(mk(v, text, id));
  sym_assert(g.has_value() == ok, "inserted exactly when no route has the same shape and method");
  if (!g) {
    sym_cover("duplicate");
    sym_assert(g.error() == make_error_code(web::error::route_already_exists), "reported as a duplicate");
  }
}
const char* const POOL[][6] = {
  { "/a", "/ab", "/ac", "/a{", "/b", "/abc" }, // 0: shared prefixes
  { "/a", "/{p}", "/a/b", "/{q}/b", "/a/{r}", "/#w" }, // 1: literal, parameter, wildcard
  { "/ab", "/{p}", "/a#w", "/{p}/c", "/#v", "/ab#u" }, // 2
  { "/a/{p}/c", "/a/b/#w", "/{x}/b/d", "/a/{p}", "/a/bc", "/#w" }, // 3
  { "", "/", "//", "/{p}/", "/{p}", "#w" }, // 4: empty segments
  { "/a/", "/a", "/a/#w", "/a//b", "/a/{p}", "/a/{p}/" }, // 5
};
const char* const PATHS[][4] = {
  { "/???", "/a??", "/?", "???" },
  { "/???", "/a/??", "/?", "/?/b" },
  { "/???", "/ab?", "/?/c", "??" },
  { "/a/???", "/?/b/?", "/a/b/??", "/a/b" },
  { "", "???", "/??", "/" },
  { "/a???", "/a/??", "/a", "/a/?/" },
};
}
// param: pool * 10 + number of routes
HARNESS(rt_find)
{
  size_t pool = sym_param() / 10, n = sym_param() % 10;
  rt r;
  model m;
  for (size_t i = 0; i < n; ++i) {
    auto* t = POOL[pool][sym_choice(6)];
    if (!std::strcmp(t, "/a{")) t = "/acd";
    add(r, m, t, verb::get, 1 + (int) i);
  }
  if (sym_choice(2)) sym_assert(r.optimize() == m.es.size(), "optimizing keeps every route");
  sym_str s(PATHS[pool][sym_choice(4)]);
  check_find(r, m, verb::get, s.sv());
}
// methods; param: number of routes
HARNESS(rt_method)
{
  size_t n = sym_param();
  static const char* const P[] = { "/a", "/{p}", "/#w" };
  static const verb V[] = { verb::get, verb::put, verb::unknown };
  rt r;
  model m;
  for (size_t i = 0; i < n; ++i) {
    auto* t = P[sym_choice(3)];
    add(r, m, t, V[sym_choice(3)], 1 + (int) i);
  }
  if (sym_choice(2)) r.optimize();
  sym_str s("/?");
  static const verb F[] = { verb::get, verb::put, verb::delete_, verb::unknown };
  check_find(r, m, F[sym_choice(4)], s.sv());
}
// a larger table, in three orders, every path of a template
HARNESS(rt_table)
{
  static const char* const P[] = {
    "/", "/api/v1/users", "/api/v1/users/{id}", "/api/v1/users/{id}/posts", "/api/v1/users/me", "/api/v1/users/me/#rest", "/api/v1/user",
    "/api/v2/users/{id}", "/api/{version}/users/{id}/posts/{post}", "/api/{version}/about", "/static/#file", "/static/index", "/stat", "/api/v1/users/{id}/posts/last",
    "/api/v1/#any",
  };
  static const char* const S[] = {
    "/?", "/api/v1/user?", "/api/v1/users/??", "/api/v1/users/me?", "/api/v1/users/me/??", "/api/v1/users/?/posts", "/api/v1/users/?/post?", "/api/v?/users/??",
    "/api/v?/users/?/posts/??", "/api/v?/users/m?/posts/las?", "/api/??/about", "/static??", "/static/?", "/static/inde?", "/stat?", "/api/v1/users/m/posts/las?", "/api/v?/??",
  };
  size_t k = sym_param();
  constexpr size_t n = std::size(P);
  rt r;
  model m;
  size_t o = sym_choice(4);
  for (size_t i = 0; i < n; ++i) {
    size_t j = o == 0 ? i : o == 1 ? n - 1 - i : o == 2 ? (i * 4 + 3) % n : (i * 7 + 1) % n;
    add(r, m, P[j], verb::get, 1 + (int) j);
  }
  for (size_t i = 0; i < n; i += 3) {
    add(r, m, P[i], verb::get, 100); // duplicates
    add(r, m, P[i], verb::unknown, 50 + (int) i);
  }
  if (sym_choice(2)) r.optimize();
  sym_str s(S[k]);
  check_find(r, m, sym_choice(2) ? verb::get : verb::put, s.sv());
}
