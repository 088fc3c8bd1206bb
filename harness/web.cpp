#include "sym.h"
#include <fitoria/web/error.hpp>
#include <fitoria/web/middleware/detail/brotli_error.hpp>
#include <fitoria/web/middleware/detail/brotli_params.hpp>
#include <fitoria/web/path_parser.hpp>
#include <fitoria/web/state_storage.hpp>
#include <vector>
using namespace fitoria;
using web::path_token_kind;

namespace {
struct tabs {
  bool pc[256], hex[256];
  constexpr tabs()
      : pc()
      , hex()
  {
    for (int c = 0; c < 256; ++c) {
      bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), dg = c >= '0' && c <= '9';
      bool o = false;
      for (const char* p = "-._~!$&'()*+,;=:@"; *p; ++p) o |= c == *p;
      pc[c] = al || dg || o;
      hex[c] = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    }
  }
};
constexpr tabs TB;
struct tok {
  path_token_kind k;
  std::string_view v;
};
// one path character at i; 0 when there is none
size_t pchar(std::string_view s, size_t i)
{
  unsigned char c = (unsigned char) s[i];
  if (c == '%') return (i + 2 < s.size()) && (TB.hex[(unsigned char) s[i + 1]] & TB.hex[(unsigned char) s[i + 2]]) ? 3 : 0;
  return TB.pc[c] ? 1 : 0;
}
// reference grammar:
//   pattern  = *( "/" / pchar / "/" "{" name "}" &("/" / end) ) [ "#" name ]
//   name     = 1*pchar, names distinct
bool ref_path(std::string_view s, bool wild, std::vector<tok>& out)
{
  size_t i = 0, b = 0, n = s.size();
  while (i < n) {
    if (s[i] == '/') {
      ++i;
      if (i < n && s[i] == '{') {
        out.push_back({ path_token_kind::static_, s.substr(b, i - b) });
        size_t f = ++i;
        while (i < n && s[i] != '}') {
          size_t k = pchar(s, i);
          if (!k) return false;
          i += k;
        }
        if (i >= n || i == f) return false;
        out.push_back({ path_token_kind::param, s.substr(f, i - f) });
        b = ++i;
        if (i < n && s[i] != '/') return false;
      }
    } else if (s[i] == '#') {
      if (!wild) return false;
      out.push_back({ path_token_kind::static_, s.substr(b, i - b) });
      size_t f = ++i;
      while (i < n) {
        size_t k = pchar(s, i);
        if (!k) return false;
        i += k;
      }
      if (f == n) return false;
      out.push_back({ path_token_kind::wildcard, s.substr(f) });
      b = n;
    } else {
      size_t k = pchar(s, i);
      if (!k) return false;
      i += k;
    }
  }
  if (b < n) out.push_back({ path_token_kind::static_, s.substr(b) });
  for (size_t x = 0; x < out.size(); ++x)
    for (size_t y = 0; y < x; ++y)
      if (out[x].k != path_token_kind::static_ && out[y].k != path_token_kind::static_ && sv_eq(out[x].v, out[y].v)) return false;
  return true;
}
template <bool W>
void check_path(web::path_parser<W>& p, std::string_view s)
{
  bool r = p.parse(s);
  std::vector<tok> w;
  bool ok = ref_path(s, W, w);
  sym_assert(r == ok, "a pattern is accepted exactly when it follows the grammar");
  sym_observe(r);
  if (!ok) sym_cover("reject");
  if (!r || !ok) return;
  sym_cover("accept");
  auto t = p.get();
  sym_assert(t.size() == w.size(), "number of parts");
  if (t.size() != w.size()) return;
  std::string back;
  for (size_t i = 0; i < w.size(); ++i) {
    sym_assert(t[i].kind == w[i].k, "kind of each part");
    check_eq(t[i].value, w[i].v, "text of each part");
    if (t[i].kind == path_token_kind::param) {
      back += "{";
      back += t[i].value;
      back += "}";
      sym_cover("param");
    } else if (t[i].kind == path_token_kind::wildcard) {
      back += "#";
      back += t[i].value;
      sym_cover("wild");
    } else
      back += t[i].value;
    sym_observe((uint64_t) t[i].kind);
  }
  check_eq(back, s, "the parts spell the pattern");
}
const char* const T[] = { "", "?", "??", "???", "????", "/{??}?", "/a?{?}", "/{?}/{?}", "/?#??", "/{a?/?b}", "%??", "/%?{", "/{%??}", "a#%??", "/{?}/?#?",
                          "?????", "/????", "/{?}/{?}/{?}", "/{??}/{??}", "/??/{?}/#?", "a#????", "/{%?1}/{%2?}", "?#?", "/{ab}/?{ab}?",
                          "/api/v1/users/{user_identifier?}/posts/{post}#rest?", "/{a}/{b}/{c}/{d}/{e}/{?}?", "/a-long-static-path-of-many-characters?/{p}?", "/{abcdefghijklmnopqrs?}/{abcdefghijklmnopqrst}" };
}
HARNESS(wb_path)
{
  sym_str s(T[sym_param()]);
  web::path_parser<false> p;
  check_path(p, s.sv());
}
HARNESS(wb_path_wild)
{
  sym_str s(T[sym_param()]);
  web::path_parser<true> p;
  check_path(p, s.sv());
}
// a parser is not affected by what it parsed before
HARNESS(wb_path_reuse)
{
  static const char* const A[] = { "/{a}/b", "/{a", "/{x}/%", "/q#w", "" };
  static const char* const B[] = { "/{?}", "/?/{a}", "?#w", "??" };
  size_t n = sym_param();
  sym_str s(B[n]);
  web::path_parser<true> p;
  p.parse(A[sym_choice(5)]);
  if (sym_choice(2)) p.get();
  check_path(p, s.sv());
}

// ---- request/route state
namespace {
struct A {
  int v;
};
struct Bt {
  int v;
};
struct C {
  int v;
  std::string s;
};
struct layer {
  int id; // identity of the shared map
};
struct model {
  int n = 0;
  int lay[8]; // map ids, front first
};
}
HARNESS(wb_state)
{
  constexpr int MAXS = 6;
  size_t steps = sym_param();
  std::vector<web::state_storage> st;
  std::vector<model> md;
  st.reserve(MAXS);
  st.emplace_back();
  md.emplace_back();
  // maps of the model: value per type, 0 absent
  int maps[16][3] = {};
  int nmaps = 0, val = 0;
  std::vector<web::shared_state_map> ext;
  std::vector<int> extid;
  for (int k = 0; k < 2; ++k) {
    ext.push_back(std::make_shared<web::state_map>());
    extid.push_back(nmaps++);
  }
  auto put = [&](web::state_map& m, int t, int v) {
    if (t == 0) m[std::type_index(typeid(A))] = std::any(A { v });
    if (t == 1) m[std::type_index(typeid(Bt))] = std::any(Bt { v });
    if (t == 2) m[std::type_index(typeid(C))] = std::any(C { v, "a text that does not fit the small buffer" });
  };
  put(*ext[0], 0, 100);
  maps[0][0] = 100;
  put(*ext[1], 0, 101);
  maps[1][0] = 101;
  put(*ext[1], 1, 102);
  maps[1][1] = 102;
  auto check = [&] {
    for (size_t i = 0; i < st.size(); ++i) {
      int w[3] = {};
      for (int l = md[i].n; l-- > 0;)
        for (int t = 0; t < 3; ++t)
          if (maps[md[i].lay[l]][t]) w[t] = maps[md[i].lay[l]][t];
      auto a = st[i].state<A>();
      auto b = st[i].state<Bt>();
      auto c = st[i].state<C>();
      sym_assert(a.has_value() == (w[0] != 0) && b.has_value() == (w[1] != 0) && c.has_value() == (w[2] != 0), "a state is found exactly when some layer has it");
      if (a && w[0]) sym_assert(a->v == w[0], "the innermost layer wins");
      if (b && w[1]) sym_assert(b->v == w[1], "the innermost layer wins");
      if (c && w[2]) {
        sym_assert(c->v == w[2], "the innermost layer wins");
        check_eq(c->s, "a text that does not fit the small buffer", "state object intact");
      }
      sym_assert(!st[i].state<long>().has_value(), "a type never stored is absent");
      sym_observe((uint64_t) w[0]);
    }
  };
  check();
  for (size_t k = 0; k < steps; ++k) {
    unsigned op = (unsigned) sym_choice(5);
    size_t i = (size_t) sym_choice(st.size());
    if (op == 0 || op == 1) {
      size_t e = (size_t) sym_choice(2);
      st.push_back(op == 0 ? st[i].copy_prepend(ext[e]) : st[i].copy_append(ext[e]));
      model m = md[i];
      if (op == 0) {
        for (int l = m.n; l-- > 0;) m.lay[l + 1] = m.lay[l];
        m.lay[0] = extid[e];
      } else
        m.lay[m.n] = extid[e];
      ++m.n;
      md.push_back(m);
    } else if (op == 2) {
      int t = (int) sym_choice(3);
      int v = ++val;
      st.push_back(t == 0 ? st[i].copy_insert_front(std::type_index(typeid(A)), std::any(A { v }))
                       : t == 1 ? st[i].copy_insert_front(std::type_index(typeid(Bt)), std::any(Bt { v }))
                                : st[i].copy_insert_front(std::type_index(typeid(C)), std::any(C { v, "a text that does not fit the small buffer" })));
      model m = md[i];
      for (int l = m.n; l-- > 0;) m.lay[l + 1] = m.lay[l];
      maps[nmaps][t] = v;
      m.lay[0] = nmaps++;
      ++m.n;
      md.push_back(m);
    } else if (op == 3) {
      // a shared map changes: seen through every storage that has it
      size_t e = (size_t) sym_choice(2);
      int v = ++val;
      put(*ext[e], 1, v);
      maps[extid[e]][1] = v;
    } else {
      // a state is handed out by reference
      auto a = st[i].state<A>();
      if (a) {
        int v = ++val;
        a->v = v;
        for (int l = 0; l < md[i].n; ++l)
          if (maps[md[i].lay[l]][0]) {
            maps[md[i].lay[l]][0] = v;
            break;
          }
      }
    }
    check();
  }
  sym_cover("state");
}

// ---- error codes
HARNESS(wb_error)
{
  using web::error;
  static const char* const M[] = { "the route being registered already exists", "the route being searched doesn't exist",
                                   "unexpected \"Content-Type\".", "unable to extract key/value into struct, field not found" };
  unsigned i = (unsigned) sym_choice(4), j = (unsigned) sym_choice(4);
  std::error_code a = (error) i, b = make_error_code((error) j);
  sym_assert(a.value() == (int) i, "value");
  sym_assert((a == b) == (i == j), "codes are equal exactly when the errors are");
  sym_assert((a == (error) j) == (i == j), "comparison with the enumerator");
  check_eq(a.message(), M[i], "message");
  check_eq(a.category().name(), "fitoria.web.error", "category name");
  sym_assert(a.category() == b.category(), "one category");
  std::error_code g((int) i, std::generic_category());
  sym_assert(a != g, "differs from codes of another category");
  auto other = web::middleware::detail::make_error_code((web::middleware::detail::brotli_error) 1);
  sym_assert(a != other && a.category() != other.category(), "differs from codes of another category");
  int32_t n = (int32_t) sym_u32();
  sym_assume((n < 0) | (n > 3));
  sym_assert(a.category().message(n).empty(), "no message for a number that is no error");
  sym_observe(a.message().size());
  sym_cover("error");
}
HARNESS(wb_brotli)
{
  using web::middleware::detail::brotli_error;
  static const int V[] = { 1, 2, 3, 99, 100 };
  static const char* const M[] = { "decode error", "need more input", "need more output", "initialzation error", "unknown error" };
  unsigned i = (unsigned) sym_choice(5), j = (unsigned) sym_choice(5);
  std::error_code a = (brotli_error) V[i], b = make_error_code((brotli_error) V[j]);
  sym_assert(a.value() == V[i], "value");
  sym_assert((bool) a, "every error is an error");
  sym_assert((a == b) == (i == j), "codes are equal exactly when the errors are");
  check_eq(a.message(), M[i], "message");
  check_eq(a.category().name(), "fitoria.web.brotli_error", "category name");
  sym_assert(a.category() == b.category(), "one category");
  int32_t n = (int32_t) sym_u32();
  sym_assume((n != 1) & (n != 2) & (n != 3) & (n != 99) & (n != 100));
  sym_assert(a.category().message(n).empty(), "no message for a number that is no error");
  // the parameter block keeps what it is given
  uint64_t x = sym_u64(), y = sym_u64();
  char in[1], out[1];
  web::middleware::detail::broti_params p(in, x, out, y);
  sym_assert((const void*) p.next_in == in && (void*) p.next_out == out && p.avail_in == x && p.avail_out == y, "stream parameters");
  sym_observe((uint64_t) a.value());
  sym_cover("brotli");
}
