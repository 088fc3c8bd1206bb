// Typed arguments of handlers, taken from the request.
#include "streams.h"
#include <charconv>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>
#include <fitoria/web/form_of.hpp>
#include <fitoria/web/handler.hpp>
#include <fitoria/web/path_of.hpp>
#include <fitoria/web/query_of.hpp>
#include <fitoria/web/route.hpp>
#include <fitoria/web/state_of.hpp>
using namespace fitoria;
using namespace fitoria::web;
using http::field;
struct point {
  signed char x;
  std::string y;
};
struct flag {
  bool on;
};
struct num {
  unsigned short n;
};
template <>
struct sym_pfr::names<point> {
  static constexpr std::string_view value[] = { "x", "y" };
};
template <>
struct sym_pfr::names<flag> {
  static constexpr std::string_view value[] = { "on" };
};
template <>
struct sym_pfr::names<num> {
  static constexpr std::string_view value[] = { "n" };
};

namespace {
using pairs = std::vector<std::pair<std::string, std::string>>;
struct parts {
  pairs path;
  pairs query;
  http::header_map headers;
  script body;
  std::shared_ptr<state_map> st = std::make_shared<state_map>();
  request make()
  {
    query_map q;
    for (auto& [k, v] : query) q.set(k, v);
    return request_builder(connect_info(), path_info("/pattern", "/path", pairs(path)), http::verb::post, http::version::v1_0, headers, q, script_stream { &body }, state_storage().copy_prepend(st)).build();
  }
};
template <basic_fixed_string P = "/x", class H>
response call(H h, request& req)
{
  auto r = route::post<P>(h).template build<request&, awaitable<response>>(handler());
  return run(r.service()(req));
}
// decimal, fits in [lo, hi], nothing else around it
bool ref_int(std::string_view s, long lo, long hi, long& out)
{
  bool neg = !s.empty() && s[0] == '-' && lo < 0;
  if (neg) s.remove_prefix(1);
  if (s.empty()) return false;
  long v = 0;
  for (char c : s) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + (c - '0');
  }
  out = neg ? -v : v;
  return out >= lo && out <= hi;
}
const char* const VT[] = { "", "?", "??", "-?", "1??", "-12?", "12?", "00?" };
void answer(response& r, bool ok, int bad)
{
  sym_assert((int) r.status().value() == (ok ? 202 : bad), "an argument that cannot be had is answered with an error");
  sym_observe((uint64_t) r.status().value());
}
bool got;
point val;
pairs sym_pairs(bool distinct)
{
  static const char* const K[] = { "x", "y", "X", "a longer name than sixteen" };
  pairs p;
  size_t n = sym_choice(4);
  for (size_t i = 0; i < n; ++i) {
    size_t k = i == 2 ? 3 : sym_choice(4);
    if (distinct)
      for (auto& e : p) sym_assume(e.first != K[k]);
    sym_str v(k == 0 ? VT[sym_choice(8)] : "?y");
    p.emplace_back(K[k], std::string(v.sv()));
  }
  return p;
}
// the reference: both names are there, nothing else, and x is a number
bool expect(const pairs& p, size_t count, point& w)
{
  const std::string *x = nullptr, *y = nullptr;
  for (auto& e : p) {
    if (e.first == "x") x = &e.second;
    if (e.first == "y") y = &e.second;
  }
  long v = 0;
  if (count != 2 || !x || !y || !ref_int(*x, -128, 127, v)) return false;
  w = { (signed char) v, *y };
  return true;
}
void same(bool ok, const point& w)
{
  sym_assert(got == ok, "the handler runs exactly when its arguments can be had");
  if (!ok || !got) {
    sym_cover("refused");
    return;
  }
  sym_assert(val.x == w.x, "the number given");
  check_eq(val.y, w.y, "the text given");
  sym_observe((uint64_t) (unsigned char) val.x);
  observe(val.y);
  sym_cover("taken");
}
size_t distinct(const pairs& p)
{
  size_t n = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    bool f = false;
    for (size_t j = 0; j < i; ++j) f |= p[i].first == p[j].first;
    n += !f;
  }
  return n;
}
}
HARNESS(ex_path)
{
  parts a;
  a.path = sym_pairs(true);
  auto req = a.make();
  got = false;
  auto r = call(
      [](path_of<point> p) -> awaitable<response> {
        got = true;
        val = p;
        co_return response::accepted().build();
      },
      req);
  point w;
  bool ok = expect(a.path, a.path.size(), w);
  answer(r, ok, a.path.size() == 2 ? 400 : 500);
  same(ok, w);
}
HARNESS(ex_tuple)
{
  parts a;
  a.path = sym_pairs(true);
  auto req = a.make();
  got = false;
  auto r = call(
      [](path_of<std::tuple<signed char, std::string>> p) -> awaitable<response> {
        got = true;
        auto [x, y] = p;
        val = { x, y };
        co_return response::accepted().build();
      },
      req);
  long v = 0;
  bool ok = a.path.size() == 2 && ref_int(a.path[0].second, -128, 127, v);
  answer(r, ok, 400);
  same(ok, ok ? point { (signed char) v, a.path[1].second } : point {});
}
// a tuple of numbers, any of which may fail
HARNESS(ex_tuple_n)
{
  static const char* const T[] = { "?", "1?", "?00" };
  static const char* const K[] = { "a", "b", "c", "d" };
  parts a;
  long v[4] {};
  bool ok = true;
  size_t n = sym_param();
  static const long LO[] = { 0, -32768, -128, -2147483648l }, HI[] = { 255, 32767, 127, 2147483647l };
  for (size_t i = 0; i < n; ++i) {
    sym_str t(T[sym_choice(n == 4 ? 1 : 3)]);
    a.path.emplace_back(K[i], std::string(t.sv()));
    ok &= ref_int(t.sv(), LO[i], HI[i], v[i]);
  }
  auto req = a.make();
  got = false;
  static long g[4];
  auto r = n == 4 ? call(
                        [](path_of<std::tuple<unsigned char, short, signed char, int>> p) -> awaitable<response> {
                          got = true;
                          auto [x, y, z, w] = p;
                          g[0] = x, g[1] = y, g[2] = z, g[3] = w;
                          co_return response::accepted().build();
                        },
                        req)
                  : call(
                        [](path_of<std::tuple<unsigned char, short, signed char>> p) -> awaitable<response> {
                          got = true;
                          auto [x, y, z] = p;
                          g[0] = x, g[1] = y, g[2] = z;
                          co_return response::accepted().build();
                        },
                        req);
  answer(r, ok, 400);
  sym_assert(got == ok, "the handler runs exactly when all its arguments can be had");
  if (!got) {
    sym_cover("refused");
    return;
  }
  for (size_t i = 0; i < n; ++i) sym_assert(g[i] == v[i], "each number in its place");
  sym_cover("taken");
}
HARNESS(ex_query)
{
  parts a;
  a.query = sym_pairs(false);
  auto req = a.make();
  got = false;
  auto r = call(
      [](query_of<point> p) -> awaitable<response> {
        got = true;
        val = p;
        co_return response::accepted().build();
      },
      req);
  point w;
  bool ok = expect(a.query, distinct(a.query), w);
  answer(r, ok, 400);
  same(ok, w);
}
HARNESS(ex_form)
{
  parts a;
  size_t ct = sym_param();
  static const char* const CT[] = { "application/x-www-form-urlencoded", "Application/X-WWW-Form-URLEncoded; charset=utf-8", "text/plain", "application/x-www-form-urlencoded2", "application", nullptr };
  if (CT[ct]) a.headers.set(field::content_type, CT[ct]);
  std::string t;
  pairs p = sym_pairs(false);
  for (auto& [k, v] : p) {
    if (k[1] == ' ') continue;
    for (char& c : v) {
      bool ok = (unsigned char) ((c | 32) - 'a') < 26 || (unsigned char) (c - '0') < 10 || c == '-';
      sym_assume(ok);
    }
    if (!t.empty()) t += "&";
    t += k + "=" + v;
  }
  std::erase_if(p, [](auto& e) { return e.first[1] == ' '; });
  bool bad = ct == 0 && sym_choice(2);
  if (bad) t += "&%4";
  size_t cut = ct == 0 && sym_choice(2) ? t.size() / 2 : t.size();
  a.body.pieces = { t.substr(0, cut) };
  if (cut < t.size()) a.body.pieces.push_back(t.substr(cut));
  if (ct == 0 && sym_choice(2)) a.body.end = std::make_error_code(std::errc::connection_reset);
  auto req = a.make();
  got = false;
  auto r = call(
      [](form_of<point> f) -> awaitable<response> {
        got = true;
        val = f;
        co_return response::accepted().build();
      },
      req);
  point w;
  bool ok = ct < 2 && !bad && !a.body.end && expect(p, distinct(p), w);
  answer(r, ok, 400);
  same(ok, w);
  if (ct >= 2) sym_assert(a.body.reads == 0, "a body of another type is not read");
}
// other field types
HARNESS(ex_types)
{
  static const char* const T[] = { "?", "??", "???", "tru?", "6553?", "fals?", "????" };
  sym_str v(T[sym_param()]);
  parts a;
  a.path = { { "n", std::string(v.sv()) } };
  a.query = { { "on", std::string(v.sv()) } };
  auto req = a.make();
  static bool ran;
  static unsigned short n;
  static bool on;
  ran = false;
  auto r = call([](path_of<num> p) -> awaitable<response> {
    ran = true;
    n = p.n;
    co_return response::accepted().build();
  },
      req);
  long w;
  bool ok = ref_int(v.sv(), 0, 65535, w);
  sym_assert(ran == ok, "the handler runs exactly when its argument can be had");
  if (ok && ran) sym_assert(n == w, "the number given");
  answer(r, ok, 400);
  ran = false;
  r = call([](query_of<flag> p) -> awaitable<response> {
    ran = true;
    on = p.on;
    co_return response::accepted().build();
  },
      req);
  auto is = [&](std::string_view s) {
    if (v.n != s.size()) return false;
    bool e = true;
    for (size_t i = 0; i < s.size(); ++i) e &= (unsigned char) (v[i] | (((unsigned char) (v[i] - 'A') < 26) << 5)) == (unsigned char) s[i];
    return e;
  };
  bool y = is("1") | is("t") | is("true") | is("y") | is("yes"), nn = is("0") | is("f") | is("false") | is("n") | is("no");
  sym_assert(ran == (y | nn), "the handler runs exactly when its argument can be had");
  if (ran) sym_assert(on == y, "the truth value given");
  answer(r, y | nn, 400);
  sym_cover("types");
}
// parts of the request passed as they are
HARNESS(ex_plain)
{
  parts a;
  sym_str t("??");
  a.path = { { "p", std::string(t.sv()) } };
  a.query = { { "q", std::string(t.sv()) } };
  a.headers.set("x-h", "v");
  a.body = sym_script(sym_param() % 10, sym_param() / 10, true);
  (*a.st)[std::type_index(typeid(point))] = point { 5, std::string(t.sv()) };
  auto req = a.make();
  static request* q;
  q = &req;
  static std::string_view text;
  text = t.sv();
  static int ran;
  ran = 0;
  auto r = call([](request& r, const request& c, const path_info& p, const query_map& m, const http::header_map& h, http::version v, const connect_info& i, state_of<point> s) -> awaitable<response> {
    ++ran;
    sym_assert(&r == q && &c == q, "the request itself");
    sym_assert(&p == &q->path() && &m == &q->query() && &h == &q->headers() && &i == &q->connection(), "its parts themselves");
    sym_assert(v == http::version::v1_0, "its version");
    check_eq(p.at("p"), text, "path parameters");
    check_eq(m.at("q"), text, "query parameters");
    sym_assert(s.x == 5, "state");
    check_eq(s.y, text, "state");
    s.x = 6;
    co_return response::accepted().build();
  },
      req);
  answer(r, true, 0);
  sym_assert(ran == 1 && a.body.reads == 0, "the handler runs once, the body is not read");
  sym_assert(req.state<point>()->x == 5, "a state is passed by value");
  static std::string got;
  ran = 0;
  bool vec = sym_choice(2);
  if (vec)
    r = call([](std::vector<unsigned char> b) -> awaitable<response> {
      ++ran;
      got.assign((const char*) b.data(), b.size());
      co_return response::accepted().build();
    },
        req);
  else
    r = call([](std::string b) -> awaitable<response> {
      ++ran;
      got = b;
      co_return response::accepted().build();
    },
        req);
  bool ok = !a.body.end;
  answer(r, ok, 400);
  sym_assert(ran == (ok ? 1 : 0), "the handler runs exactly when the body can be read");
  if (ok) check_eq(got, a.body.all(), "the body");
  sym_cover("plain");
}
namespace {
template <class T>
awaitable<response> alone(request& r)
{
  auto e = co_await from_request<T>(r);
  if (e) sym_fail("an argument that failed fails again");
  co_return e.error();
}
}
// several arguments: the first that fails decides, the rest are not taken
HARNESS(ex_order)
{
  parts a;
  sym_str pv("?"), qv("?");
  a.path = { { "n", std::string(pv.sv()) } };
  a.query = { { "n", std::string(qv.sv()) } };
  bool st = sym_choice(2);
  if (st) (*a.st)[std::type_index(typeid(point))] = point { 1, "s" };
  a.body = script { { "b" }, {} };
  if (sym_choice(2)) a.body.end = std::make_error_code(std::errc::connection_reset);
  auto req = a.make();
  static int ran;
  static unsigned np, nq;
  static std::string body;
  ran = 0;
  auto r = call([](path_of<std::tuple<unsigned short>> p, query_of<num> q, state_of<point> s, std::string b) -> awaitable<std::string> {
    ++ran;
    np = std::get<0>(p);
    nq = q.n;
    sym_assert(s.x == 1 && s.y == "s", "state");
    body = b;
    co_return "done" + b;
  },
      req);
  long p = 0, q = 0;
  bool ok1 = ref_int(pv.sv(), 0, 65535, p), ok2 = ref_int(qv.sv(), 0, 65535, q);
  bool ok = ok1 && ok2 && st && !a.body.end;
  sym_assert(ran == (ok ? 1 : 0), "the handler runs exactly when all arguments can be had");
  int want = ok ? 200 : !ok1 || !ok2 ? 400 : !st ? 500 : 400;
  sym_assert((int) r.status().value() == want, "the answer is that of the first argument that fails");
  sym_assert(a.body.reads == (ok1 && ok2 && st ? 2u : 0u), "arguments after it are not taken");
  auto text = run(async_read_until_eof<std::string>(r.body().stream()));
  if (!text) sym_fail("body of the answer");
  if (ok) {
    sym_assert(np == p && nq == q, "numbers");
    check_eq(body, "b", "body");
    check_eq(*text, "doneb", "the answer is that of the handler");
    sym_cover("all");
  } else {
    parts b = a;
    b.body.at = 0;
    auto again = b.make();
    response w = !ok1 ? run(alone<path_of<std::tuple<unsigned short>>>(again)) : !ok2 ? run(alone<query_of<num>>(again)) : !st ? run(alone<state_of<point>>(again)) : run(alone<std::string>(again));
    auto t2 = run(async_read_until_eof<std::string>(w.body().stream()));
    if (!t2) sym_fail("body of the answer");
    check_eq(*text, *t2, "the answer is that of the first argument that fails");
    sym_cover("some");
  }
}
