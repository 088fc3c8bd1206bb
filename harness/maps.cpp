#include "sym.h"
#include <cstring>
#include <fitoria/web/detail/as_form.hpp>
#include <fitoria/web/path_info.hpp>
#include <fitoria/web/query_map.hpp>
#include <vector>
using namespace fitoria;
using web::path_info;
using web::query_map;

namespace {
struct kv {
  std::string k, v;
};
const std::string* look(const std::vector<kv>& m, std::string_view k)
{
  for (auto& e : m)
    if (sv_eq(e.k, k)) return &e.v;
  return nullptr;
}
}
// ---- parameters matched in a path: named and numbered, in order
HARNESS(pi_info)
{
  size_t n = sym_param() % 10;
  bool vec = sym_param() / 10;
  static const char* const K[] = { "id", "a rather long parameter name", "b" };
  std::vector<kv> w;
  for (size_t i = 0; i < n; ++i) {
    sym_str v(i == 0 ? "??" : i == 1 ? "a value that is longer than sixteen?" : "?");
    w.push_back({ K[(i + n) % 3], std::string(v.sv()) });
  }
  sym_str pat("/??"), path("/?/0123456789abcdef");
  auto make = [&]() -> path_info {
    if (vec) {
      std::vector<std::pair<std::string, std::string>> p;
      for (auto& e : w) p.emplace_back(e.k, e.v);
      return path_info(std::string(pat.sv()), std::string(path.sv()), std::move(p));
    }
    using V = path_info::value_type;
    std::string a(pat.sv()), b(path.sv());
    switch (n) {
    case 0: return path_info(a, b, std::initializer_list<V> {});
    case 1: return path_info(a, b, { V { w[0].k, w[0].v } });
    case 2: return path_info(a, b, { V { w[0].k, w[0].v }, V { w[1].k, w[1].v } });
    default: return path_info(a, b, { V { w[0].k, w[0].v }, V { w[1].k, w[1].v }, V { w[2].k, w[2].v } });
    }
  };
  auto check = [&](path_info& m) {
    const path_info& p = m;
    check_eq(p.match_pattern(), pat.sv(), "pattern");
    check_eq(p.match_path(), path.sv(), "path");
    sym_assert(p.size() == n && p.empty() == (n == 0), "one entry per parameter");
    auto ks = p.keys();
    sym_assert(ks.size() == n, "names");
    size_t i = 0;
    for (auto it = p.begin(); it != p.end(); ++it, ++i) {
      if (i >= n) sym_fail("iteration past the end");
      check_eq((*it).first, w[i].k, "iteration in order of the pattern");
      check_eq(it->second, w[i].v, "iteration in order of the pattern");
    }
    sym_assert(i == n, "iteration visits every parameter");
    size_t j = n;
    for (auto it = p.cend(); it != p.cbegin();) {
      auto old = it--;
      sym_assert(old != it, "iterators");
      --j;
      check_eq(it->first, w[j].k, "iteration backwards");
    }
    sym_assert(j == 0, "iteration backwards visits every parameter");
    j = 0;
    for (auto it = m.begin(); it != m.end(); it++) ++j;
    sym_assert(j == n, "iteration of a mutable object");
    for (size_t k = 0; k < 3; ++k) {
      auto v = look(w, K[k]);
      sym_assert(p.contains(K[k]) == (v != nullptr), "contains");
      auto g = p.get(K[k]);
      auto g2 = p.get(std::string_view(K[k]));
      auto g3 = p.get(std::string(K[k]));
      sym_assert(g.has_value() == (v != nullptr) && g2.has_value() == g.has_value() && g3.has_value() == g.has_value(), "found by name exactly when present");
      auto f = p.find(K[k]);
      if (v && g && g2 && g3) {
        check_eq(*g, *v, "value by name");
        sym_assert(&*g == &*g2 && &*g == &*g3 && &f->second == &*g, "all lookups give the same object");
        sym_assert(&p.at(K[k]) == &*g, "at by name");
      }
      bool thr = false;
      try {
        p.at(K[k]);
      } catch (const std::out_of_range&) {
        thr = true;
      }
      sym_assert(thr == (v == nullptr), "at throws exactly when absent");
    }
    sym_assert(!p.get("zz") && !p.contains("i"), "other names are absent");
    static const size_t IX[] = { 0, 1, 2, 3, ~size_t(0) };
    for (size_t x : IX) {
      auto g = p.get(x);
      sym_assert(g.has_value() == (x < n), "found by number exactly when in range");
      bool thr = false;
      try {
        const auto& s = p.at(x);
        if (x < n) check_eq(s, w[x].v, "at by number");
      } catch (const std::out_of_range&) {
        thr = true;
      }
      sym_assert(thr == (x >= n), "at throws exactly when out of range");
      auto f = p.find(x);
      if (x < n && g) {
        check_eq(*g, w[x].v, "value by number, in order of the pattern");
        check_eq(f->first, w[x].k, "name by number");
        sym_assert(&f->second == &*g, "find by number");
      }
      if (n == 0) sym_assert(f == p.find("none"), "find by number out of range");
    }
  };
  auto p = make();
  check(p);
  switch (sym_choice(5)) {
  case 0: {
    auto q = p;
    check(q);
    sym_assert(q == p, "a copy is equal");
    break;
  }
  case 1: {
    auto q = std::move(p);
    check(q);
    p = std::move(q);
    break;
  }
  case 2: {
    path_info q;
    sym_assert(q.empty() && q.size() == 0 && q.begin() == q.end() && q.match_path().empty(), "empty");
    q = p;
    check(q);
    auto r = make();
    sym_assert(q == r, "equal content is equal");
    break;
  }
  case 3: {
    auto v = w;
    if (n) {
      w.back().v += "x";
      auto r = make();
      sym_assert(!(r == p), "different content is different");
      w = v;
    }
    break;
  }
  case 4: break;
  }
  check(p);
  for (auto& e : w) observe(e.v);
  sym_cover("info");
}
// ---- query parameters: a map holding the last value set
HARNESS(qm_map)
{
  static const char* const K[] = { "k", "key", "a name longer than sixteen characters" };
  size_t steps = sym_param();
  query_map q;
  std::vector<kv> m;
  auto set = [&](const char* k, std::string v) {
    for (auto& e : m)
      if (e.k == k) {
        e.v = v;
        return;
      }
    m.push_back({ k, v });
  };
  auto check = [&] {
    const query_map& c = q;
    sym_assert(c.size() == m.size() && c.empty() == m.empty(), "number of parameters");
    size_t cnt = 0;
    for (auto& [k, v] : c) {
      auto w = look(m, k);
      sym_assert(w != nullptr, "iteration shows only stored parameters");
      if (w) check_eq(v, *w, "iteration shows the values");
      ++cnt;
    }
    sym_assert(cnt == m.size() && (size_t) std::distance(c.cbegin(), c.cend()) == cnt && (size_t) std::distance(q.begin(), q.end()) == cnt, "iteration shows every parameter once");
    size_t len = 0;
    for (auto k : K) {
      auto w = look(m, k);
      sym_assert(c.contains(k) == (w != nullptr), "contains");
      auto g = c.get(k);
      auto h = q.get(std::string_view(k));
      auto i = q.get(std::string(k));
      sym_assert(g.has_value() == (w != nullptr) && h.has_value() == g.has_value() && i.has_value() == g.has_value(), "found exactly when stored");
      bool thr = false;
      try {
        auto& s = c.at(k);
        auto& t = q.at(k);
        sym_assert(&s == &t && g && &s == &*g, "checked access gives the stored value");
      } catch (const std::out_of_range&) {
        thr = true;
      }
      sym_assert(thr == (w == nullptr), "checked access throws exactly when absent");
      if (w && g && h) {
        check_eq(*g, *w, "the last value stored");
        sym_assert(&*g == &*h && &*g == &*i, "by reference to the stored value");
        len += strlen(k) + w->size() + 2;
      }
      sym_observe(w != nullptr);
    }
    sym_assert(!c.get("ke") && !c.contains("keyy"), "other names are absent");
    auto t = c.to_string();
    sym_assert(t.size() == (len ? len - 1 : 0), "text has every parameter");
    // the text is name=value joined by '&' in iteration order
    std::string w;
    for (auto& [k, v] : c) {
      if (!w.empty()) w += "&";
      w += k + "=" + v;
    }
    check_eq(t, w, "text is name=value joined by &");
  };
  check();
  for (size_t i = 0; i < steps; ++i) {
    unsigned op = (unsigned) sym_choice(7);
    const char* k = K[op < 4 || op == 6 ? sym_choice(3) : 0];
    sym_str v(i == 0 ? "??" : i == 1 ? "a long value of some characters?" : "");
    std::string val(v.sv());
    switch (op) {
    case 0:
      q.set(k, val);
      set(k, val);
      sym_cover("set");
      break;
    case 1:
      q[k] = val;
      set(k, val);
      break;
    case 2: {
      auto w = look(m, k);
      auto r = q.erase(k);
      sym_assert(r.has_value() == (w != nullptr), "erase reports whether it was there");
      if (r && w) check_eq(*r, *w, "erase gives the value");
      std::erase_if(m, [&](const kv& e) { return e.k == k; });
      break;
    }
    case 3: {
      auto g = q.get(k);
      if (g) {
        *g = val;
        set(k, val);
        sym_cover("write");
      }
      break;
    }
    case 4: {
      query_map c(q);
      sym_assert(c == q, "a copy is equal");
      c.set("other", "x");
      sym_assert(!(c == q), "different content is different");
      query_map d(std::move(q));
      q = query_map { { "old", "y" } };
      q = std::move(d);
      break;
    }
    case 5:
      q.clear();
      m.clear();
      sym_assert(q == query_map(), "cleared");
      break;
    case 6:
      q = query_map { { k, val }, { "key", "w" } };
      m.clear();
      set(k, val);
      if (std::strcmp(k, "key")) set("key", "w");
      break;
    }
    check();
  }
  sym_cover("map");
}
// ---- a form or query text: the last value of every name that has one
namespace {
int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }
bool dec(std::string_view s, std::string& o)
{
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = (unsigned char) s[i];
    if (c == '%') {
      if (i + 2 >= s.size() || hexv((unsigned char) s[i + 1]) < 0 || hexv((unsigned char) s[i + 2]) < 0) return false;
      o += (char) (hexv((unsigned char) s[i + 1]) * 16 + hexv((unsigned char) s[i + 2]));
      i += 2;
    } else {
      // a query is made of unreserved, sub-delims, ':', '@', '/', '?'
      bool al = (unsigned char) ((c | 32) - 'a') < 26 || (unsigned char) (c - '0') < 10;
      bool ok = al;
      for (const char* p = "-._~!$&'()*+,;=:@/?"; *p; ++p) ok |= c == (unsigned char) *p;
      if (!ok) return false;
      o += c == '+' ? ' ' : (char) c;
    }
  }
  return true;
}
bool ref_form(std::string_view t, std::vector<kv>& m)
{
  for (size_t b = 0; b <= t.size();) {
    size_t e = b;
    while (e < t.size() && t[e] != '&') ++e;
    auto s = t.substr(b, e - b);
    size_t q = 0;
    while (q < s.size() && s[q] != '=') ++q;
    kv x;
    if (!dec(s.substr(0, q), x.k)) return false;
    if (q < s.size()) {
      if (!dec(s.substr(q + 1), x.v)) return false;
      bool f = false;
      for (auto& y : m)
        if (sv_eq(y.k, x.k)) {
          y.v = x.v;
          f = true;
        }
      if (!f) m.push_back(x);
    }
    b = e + 1;
  }
  return true;
}
const char* const FT[] = { "", "?", "??", "???", "a=?", "a=??", "?=?", "a=?&b=?", "a=?&?=?", "a=b?c=d", "a%3?=1", "a=%?1", "a=?+?", "k=a%20b&k=?&x", "name=first name is not allowed",
  "a_long_parameter_name=a+long+value+of+text?&second_parameter_name=?", "a=1&a=2&a=?", "&&?=&", "=?", "a==?", "a=?&a", "%61=1&a=?" };
void check_map(const query_map& q, const std::vector<kv>& m)
{
  sym_assert(q.size() == m.size(), "one entry per name that has a value");
  for (auto& e : m) {
    auto g = q.get(e.k);
    sym_assert(g.has_value(), "every name is there");
    if (g) check_eq(*g, e.v, "with the last value given, decoded");
    observe(e.v);
  }
}
}
HARNESS(qm_form)
{
  sym_str s(FT[sym_param()]);
  std::vector<kv> m;
  bool ok = ref_form(s.sv(), m);
  auto f = web::detail::as_form(s.sv());
  sym_assert(f.has_value() == ok, "a form is read exactly when it is well formed");
  if (f && ok) {
    check_map(*f, m);
    sym_cover("form");
  }
}
HARNESS(qm_from)
{
  sym_str s(FT[sym_param()]);
  std::vector<kv> m;
  if (!ref_form(s.sv(), m)) return;
  auto u = boost::urls::parse_origin_form("/p?" + std::string(s.sv()));
  if (!u) return;
  check_map(query_map::from(u->params()), m);
  sym_cover("from");
}
