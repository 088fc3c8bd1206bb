#include "sym.h"
#include <cstring>
#include <fitoria/http/header_map.hpp>
#include <vector>
using namespace fitoria;
using http::field;
using http::header_map;

// A multimap from names (case ignored) to values in insertion order.
namespace {
struct row {
  int cls;
  std::string v;
};
struct nm {
  const char* s;
  int cls;
  field f; // unknown: no enumerator
};
const nm N[] = { { "Content-Type", 0, field::content_type }, { "cONTENT-tYPE", 0, field::content_type }, { "X-Trace", 1, field::unknown },
                 { "x-tracE", 1, field::unknown }, { "X-Trac", 2, field::unknown }, { "Cookie", 3, field::cookie } };
bool low_eq(std::string_view a, std::string_view b)
{
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); ++i) {
    auto l = [](unsigned char c) { return (unsigned char) (c | (((unsigned char) (c - 'A') < 26) << 5)); };
    r &= l((unsigned char) a[i]) == l((unsigned char) b[i]);
  }
  return r;
}
std::string_view V(auto s) { return std::string_view(s.data(), s.size()); }
void check(header_map& h, const std::vector<row>& m)
{
  const header_map& c = h;
  sym_assert(c.size() == m.size(), "number of headers");
  sym_assert(c.empty() == m.empty(), "emptiness");
  size_t cnt = 0;
  for (auto& e : c) {
    (void) e;
    ++cnt;
  }
  size_t cnt2 = (size_t) std::distance(h.begin(), h.end());
  size_t cnt3 = (size_t) std::distance(c.cbegin(), c.cend());
  sym_assert(cnt == m.size() && cnt2 == cnt && cnt3 == cnt, "iteration visits every header once");
  for (auto& n : N) {
    std::vector<const row*> w;
    for (auto& r : m)
      if (r.cls == n.cls) w.push_back(&r);
    sym_assert(c.contains(n.s) == !w.empty(), "contains");
    auto g = c.get(n.s);
    sym_assert(g.has_value() == !w.empty(), "found exactly when present");
    if (g && !w.empty()) check_eq(*g, w[0]->v, "the first value of the name");
    auto r = c.equal_range(n.s);
    size_t i = 0;
    for (auto it = r.first; it != r.second; ++it, ++i) {
      if (i >= w.size()) sym_fail("more values than were stored");
      check_eq(V(it->value()), w[i]->v, "all values of a name in order");
      sym_assert(low_eq(V(it->name_string()), n.s), "under its own name");
    }
    sym_assert(i == w.size(), "all values of the name");
    if (n.f != field::unknown) {
      sym_assert(c.contains(n.f) == !w.empty(), "contains by field");
      auto q = c.get(n.f);
      sym_assert(q.has_value() == !w.empty(), "found by field exactly when present");
      if (q && !w.empty()) check_eq(*q, w[0]->v, "the first value by field");
      auto r2 = c.equal_range(n.f);
      sym_assert((size_t) std::distance(r2.first, r2.second) == w.size(), "range by field");
    }
    sym_observe(w.size());
  }
  sym_assert(!c.contains("Host") && !c.contains(field::host) && !c.get("hos").has_value() && !c.get(field::host), "a name never stored is absent");
}
}
HARNESS(hm_map)
{
  size_t steps = sym_param();
  header_map h;
  std::vector<row> m;
  for (size_t k = 0; k < steps; ++k) {
    unsigned op = (unsigned) sym_choice(k + 1 == steps ? 7 : 4);
    const nm& n = N[op < 4 ? sym_choice(6) : 0];
    bool by = op < 4 && n.f != field::unknown && sym_choice(2);
    std::string v;
    if (op < 2) {
      sym_str s("?a value of some length?");
      v = std::string(s.sv().substr(0, k == 0 ? 2 : k == 1 ? 24 : 1));
      // a field value has no white space around it (HTTP); Beast takes it off
      for (char& ch : v) sym_assume((unsigned char) ch > 0x20 || (ch == ' ' && &ch != v.data() && &ch != &v.back()));
      if (k == 2) v.clear();
    }
    switch (op) {
    case 0:
      by ? h.set(n.f, v) : h.set(n.s, v);
      std::erase_if(m, [&](const row& r) { return r.cls == n.cls; });
      m.push_back({ n.cls, v });
      sym_cover("set");
      break;
    case 1:
      by ? h.insert(n.f, v) : h.insert(n.s, v);
      m.push_back({ n.cls, v });
      sym_cover("insert");
      break;
    case 2: {
      size_t w = 0;
      for (auto& r : m) w += r.cls == n.cls;
      auto e = by ? h.erase(n.f) : h.erase(n.s);
      sym_assert(e == w, "erase reports how many there were");
      std::erase_if(m, [&](const row& r) { return r.cls == n.cls; });
      if (w) sym_cover("erase");
      break;
    }
    case 3: {
      header_map c(h);
      check(c, m);
      c.set("Cookie", "zz");
      c.erase("X-Trace");
      if (n.cls == 0) {
        header_map d;
        d.insert("Cookie", "old");
        d = h;
        h = std::move(d);
      } else {
        header_map d(std::move(h));
        h = header_map();
        h = std::move(d);
      }
      break;
    }
    case 4:
      h.clear();
      m.clear();
      break;
    case 5: {
      // out to the library's type and back
      boost::beast::http::fields f;
      h.to_impl(f);
      check(h, m);
      auto g = header_map::from_impl(std::move(f));
      check(g, m);
      break;
    }
    case 6: {
      boost::beast::http::fields f;
      f.set("Cookie", "there before");
      h.to_impl(f);
      m.insert(m.begin(), { 3, "there before" });
      h = header_map::from_impl(f);
      break;
    }
    }
    check(h, m);
  }
  sym_cover("map");
}
// any two names
HARNESS(hm_names)
{
  static const char* const T[][2] = { { "?", "a" }, { "x-?", "X-a" }, { "a?", "a" }, { "Hos?", "hOST" } };
  size_t p = sym_param();
  sym_str a_(T[p][0]), b_(T[p][1]);
  // Beast's iequals reads one byte past names that differ only in case; in a
  // std::string that byte is the terminator
  struct {
    std::string s;
    std::string_view sv() const { return s; }
  } a { std::string(a_.sv()) }, b { std::string(b_.sv()) };
  header_map h;
  h.insert(a.sv(), "1");
  h.insert(b.sv(), "2");
  bool eq = low_eq(a.sv(), b.sv());
  auto g = h.get(a.sv());
  sym_assert(g && *g == "1", "first value");
  auto k = h.get(b.sv());
  sym_assert(k && *k == (eq ? "1" : "2"), "names are the same exactly when they agree up to case");
  h.set(b.sv(), "3");
  sym_assert(h.size() == (eq ? 1u : 2u), "set replaces exactly the same name");
  auto q = h.get(a.sv());
  sym_assert(q && *q == (eq ? "3" : "1"), "set leaves other names alone");
  sym_assert(h.contains(a.sv()), "contains");
  auto n = h.erase(a.sv());
  sym_assert(n == 1 && h.size() == (eq ? 0u : 1u), "erase");
  sym_observe(h.size());
  sym_cover("names");
}
