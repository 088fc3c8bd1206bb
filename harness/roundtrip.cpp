// Requests served in memory: the real client side of serve_request, the real
// server, Boost.Beast's parsing and serialization between them.
#include "coro.h"
#include "sym.h"
#include <any>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>
#include "streams.h"
#include <fitoria/web/http_server.hpp>
using namespace fitoria;
using namespace fitoria::web;
using http::field;

namespace {
struct seen {
  int calls = 0;
  http::verb method = http::verb::unknown;
  http::version version = http::version::v1_1;
  std::string path, rest, pattern;
  std::map<std::string, std::string> query;
  std::vector<std::pair<std::string, std::string>> headers;
  std::string body;
  bool body_failed = false;
};
struct answer {
  bool read = true; // the handler reads the body
  bool fail = false; // it throws
  int status = 200;
  http::version version = http::version::v1_1;
  int kind = 0; // 0 none, 1 text, 2 stream
  std::string text;
  script pieces;
  std::vector<std::pair<std::string, std::string>> headers;
};
struct result {
  int calls = 0;
  bool done = false;
  unsigned status = 0;
  http::version version = http::version::v1_1;
  std::vector<std::pair<std::string, std::string>> headers;
  std::string body;
  bool body_failed = false;
};
seen S;
answer A;
result R;

std::string low(std::string_view s)
{
  std::string r(s);
  for (auto& c : r)
    if (c >= 'A' && c <= 'Z') c += 32;
  return r;
}
template <class H>
void take(std::vector<std::pair<std::string, std::string>>& v, const H& h)
{
  for (auto it = h.begin(); it != h.end(); ++it) v.emplace_back(low(std::string_view(it->name_string().data(), it->name_string().size())), std::string(it->value().data(), it->value().size()));
}
auto make_server()
{
  return http_server::builder(sym_executor {})
      .serve(route::any<"/t/#rest">([](request& req) -> awaitable<response> {
        ++S.calls;
        S.method = req.method();
        S.version = req.version();
        S.path = req.path().match_path();
        S.pattern = req.path().match_pattern();
        if (auto r = req.path().get("rest")) S.rest = *r;
        for (auto& [k, v] : req.query()) S.query[k] = v;
        take(S.headers, req.headers());
        if (A.fail) throw std::runtime_error("handler");
        if (A.read) {
          if (auto b = co_await async_read_until_eof<std::string>(req.body())) S.body = *b;
          else if (b.error() != make_error_code(net::error::eof)) S.body_failed = true;
        }
        auto b = response::ok();
        b.set_status(A.status).set_version(A.version);
        for (auto& [k, v] : A.headers) b.insert_header(k, v);
        if (A.kind == 1) co_return b.set_body(A.text);
        if (A.kind == 2) co_return b.set_stream_body(script_stream { &A.pieces });
        co_return b.build();
      }))
      .build();
}
// runs what is ready; at up to `late` points something else than what has been
// ready for longest
void run_any(size_t late)
{
  auto& c = sym_context::get();
  while (c.head) {
    if (late && c.head->next && sym_choice(2)) {
      --late;
      auto o = c.head;
      c.head = o->next;
      c.tail->next = o;
      c.tail = o;
      o->next = nullptr;
    }
    std::unique_ptr<sym_context::op> o(c.head);
    c.head = o->next;
    if (!c.head) c.tail = nullptr;
    o->call();
  }
}
template <class Sv>
void serve(Sv& server, std::string path, test_request req, size_t late = 0)
{
  R = result {};
  S = seen {};
  server.serve_request(std::move(path), std::move(req), [](test_response res) -> awaitable<void> {
    ++R.calls;
    R.status = (unsigned) res.status().value();
    R.version = res.version();
    take(R.headers, res.headers());
    if (auto b = co_await res.as_string()) R.body = *b;
    else if (b.error() != make_error_code(net::error::eof)) R.body_failed = true;
    R.done = true;
  });
  run_any(late);
}
void subset(const std::vector<std::pair<std::string, std::string>>& all, const std::vector<std::pair<std::string, std::string>>& given, const char* what)
{
  // values of one name in order
  for (auto& [k, v] : given) {
    std::vector<const std::string*> a, g;
    for (auto& [n, x] : all)
      if (n == low(k)) a.push_back(&x);
    for (auto& [n, x] : given)
      if (low(n) == low(k)) g.push_back(&x);
    sym_assert(a.size() == g.size(), what);
    for (size_t i = 0; i < g.size(); ++i) check_eq(*a[i], *g[i], what);
  }
}
const http::verb METHODS[] = { http::verb::get, http::verb::post, http::verb::put, http::verb::patch, http::verb::delete_, http::verb::head, http::verb::options };
test_request_builder make(size_t m)
{
  switch (m) {
  case 0: return test_request::get();
  case 1: return test_request::post();
  case 2: return test_request::put();
  case 3: return test_request::patch();
  case 4: return test_request::delete_();
  case 5: return test_request::head();
  default: return test_request::options();
  }
}
}

// the target: path and query
HARNESS(tc_target)
{
  auto server = make_server();
  A = answer {};
  static const char* const T[] = { "??", "a/?b", "?x?", "%41?" };
  sym_str t(T[sym_param() % 4]);
  std::string path = "/t/" + std::string(t.sv());
  auto b = test_request::get();
  std::map<std::string, std::string> q;
  if (sym_param() / 4 == 1) {
    sym_str u("??");
    // names and values with delimiters are a known finding (tc_known)
    for (size_t i = 0; i < 2; ++i) sym_assume(u[i] != '&' && u[i] != '=' && u[i] != '+');
    q["a" + std::string(u.sv())] = "1";
    q["b"] = "";
    sym_cover("name");
  } else if (sym_param() / 4 == 2) {
    sym_str u("??");
    for (size_t i = 0; i < 2; ++i) sym_assume(u[i] != '&' && u[i] != '+');
    q["k"] = std::string(u.sv()) + "y";
    q["a b/?#"] = "%41=";
    sym_cover("value");
  }
  for (auto& [k, v] : q) b.set_query(k, v);
  serve(server, path, b.build());
  sym_assert(S.calls == 1 && R.calls == 1, "served once");
  sym_assert(S.method == http::verb::get, "the method");
  check_eq(S.path, path, "the path as given");
  check_eq(S.rest, t.sv(), "the rest of the path");
  sym_assert(S.query.size() == q.size(), "as many parameters as given");
  for (auto& [k, v] : q) {
    bool f = false;
    for (auto& [n, x] : S.query)
      if (n.size() == k.size() && n[0] == k[0] && n == k) {
        f = true;
        check_eq(x, v, "the value of a parameter");
      }
    sym_assert(f, "a parameter given");
  }
  sym_cover("target");
}
// method, version, headers and body of the request
HARNESS(tc_request)
{
  auto server = make_server();
  A = answer {};
  size_t m = sym_param() % 10;
  auto b = make(m);
  std::vector<std::pair<std::string, std::string>> h;
  sym_str v("??");
  sym_assume((unsigned char) v[0] > ' ' && (unsigned char) v[1] > ' ' && v[0] != 127 && v[1] != 127);
  h.emplace_back("X-A", v.sv());
  h.emplace_back("x-b", "");
  h.emplace_back("x-a", "other");
  for (auto& [k, x] : h) b.insert_header(k, x);
  std::string body;
  script sc;
  size_t kind = sym_param() / 10;
  test_request req;
  if (kind == 0) req = b.build();
  else if (kind == 1) {
    sym_str t((size_t) sym_choice(4));
    body = t.sv();
    req = b.set_body(std::string_view(body));
  } else {
    sc = sym_script(2, 2, false);
    body = sc.all();
    req = b.set_stream_body(script_stream { &sc });
  }
  serve(server, "/t/x", std::move(req));
  sym_assert(S.calls == 1 && R.calls == 1, "served once");
  sym_assert(S.method == METHODS[m], "the method");
  sym_assert(S.version == http::version::v1_1, "the version");
  subset(S.headers, h, "the headers of the request");
  sym_assert(!S.body_failed, "the body ends");
  check_eq(S.body, body, "the body of the request");
  sym_assert(R.status == 200 && R.done && !R.body_failed && R.body.empty(), "the answer");
  sym_cover(kind == 0 ? "none" : kind == 1 ? "sized" : "chunked");
}
// the response
HARNESS(tc_response)
{
  auto server = make_server();
  A = answer {};
  size_t m = sym_param() % 10 ? 5 : 0;
  A.kind = (int) (sym_param() / 10);
  sym_str v("??");
  sym_assume((unsigned char) v[0] > ' ' && (unsigned char) v[1] > ' ' && v[0] != 127 && v[1] != 127);
  A.headers.emplace_back("X-A", v.sv());
  A.headers.emplace_back("set-cookie", "b");
  A.headers.emplace_back("Set-Cookie", "a");
  static const int ST[] = { 200, 204, 206, 304, 404, 500, 511 };
  A.status = ST[sym_choice(7)];
  if (A.kind) sym_assume(A.status != 204 && A.status != 304);
  std::string body;
  if (A.kind == 1) {
    sym_str t((size_t) sym_choice(4));
    A.text = body = t.sv();
  } else if (A.kind == 2) {
    A.pieces = sym_script(2, 2, true);
    body = A.pieces.all();
  }
  if (A.kind < 2 && sym_choice(2)) A.version = http::version::v1_0;
  serve(server, "/t/x", make(m).build());
  sym_assert(S.calls == 1, "served once");
  sym_assert(R.calls == 1, "one answer");
  sym_assert(R.status == (unsigned) A.status, "the status");
  sym_assert(R.version == A.version, "the version");
  subset(R.headers, A.headers, "the headers of the response");
  if (A.kind == 2 && A.pieces.end && m != 5) {
    // the body cannot end well
    sym_assert(!R.done || R.body_failed, "a failing body does not end well");
    sym_cover("failing");
    return;
  }
  if (m == 5 && A.kind) {
    // the end of the body of a response to HEAD is a known finding (tc_known)
    sym_assert(R.body.empty(), "no body of a response to HEAD");
    sym_cover(A.kind == 1 ? "sized" : "chunked");
    return;
  }
  sym_assert(R.done && !R.body_failed, "the body ends");
  check_eq(R.body, m == 5 ? std::string_view() : std::string_view(body), "the body of the response");
  sym_cover(A.kind == 0 ? "none" : A.kind == 1 ? "sized" : "chunked");
}
// a request that waits for 100 (Continue), in any order of what is ready
HARNESS(tc_expect)
{
  auto server = make_server();
  A = answer {};
  A.kind = (int) (sym_param() % 10);
  A.text = "text";
  A.pieces.pieces = { "te", "xt" };
  // a response that does not wait for the body is a known finding (tc_known)
  auto b = test_request::post();
  b.set_header(field::expect, "100-continue");
  sym_str t("??");
  std::string body(t.sv());
  script sc;
  sc.pieces = { body.substr(0, 1), body.substr(1) };
  bool st = sym_choice(2);
  serve(server, "/t/x", st ? b.set_stream_body(script_stream { &sc }) : b.set_body(std::string_view(body)), sym_param() / 10);
  sym_assert(S.calls == 1, "served once");
  sym_assert(R.calls == 1, "one answer");
  sym_assert(R.status == 200 && R.done && !R.body_failed, "the final answer");
  check_eq(R.body, A.kind ? "text" : "", "its body");
  sym_assert(!S.body_failed, "the body ends");
  check_eq(S.body, body, "the body of the request");
  sym_cover(A.kind == 0 ? "none" : A.kind == 1 ? "sized" : "chunked");
}
// a handler that throws: there is no response
HARNESS(tc_none)
{
  auto server = make_server();
  A = answer {};
  A.fail = true;
  sym_str t((size_t) sym_choice(3));
  auto b = make(sym_choice(2));
  if (sym_choice(2)) b.set_header(field::expect, "100-continue");
  serve(server, "/t/x", b.set_body(t.sv()), 1);
  sym_assert(S.calls == 1, "the handler was called");
  sym_assert(R.calls == 0, "no response");
  sym_cover("none");
}
// bodies around the size in which they are read
HARNESS(tc_long)
{
  auto server = make_server();
  A = answer {};
  static const size_t N[] = { 65535, 65536, 65537, 131072 };
  size_t n = N[sym_param() % 4];
  sym_str t("????");
  std::string body(n, 'x');
  body[0] = t[0];
  body[65534] = t[1];
  body[n > 65535 ? 65535 : 1] = t[2];
  body[n - 1] = t[3];
  script sc;
  sc.pieces = { body.substr(0, 65535), body.substr(65535) };
  bool st = sym_param() / 4;
  A.kind = st ? 2 : 1;
  if (st) A.pieces.pieces = { body };
  else A.text = body;
  auto b = test_request::post();
  serve(server, "/t/x", st ? b.set_stream_body(script_stream { &sc }) : b.set_body(std::string_view(body)));
  sym_assert(S.calls == 1 && R.done && !R.body_failed && !S.body_failed, "served");
  sym_assert(S.body.size() == n && R.body.size() == n, "sizes of the bodies");
  sym_assert(std::memcmp(S.body.data(), body.data(), n) == 0, "the body of the request");
  sym_assert(std::memcmp(R.body.data(), body.data(), n) == 0, "the body of the response");
  sym_cover(st ? "chunked" : "sized");
}
// the known findings: exactly what each says fails with its text, anything else
// that is wrong with another
HARNESS(tc_known)
{
  auto server = make_server();
  A = answer {};
  size_t w = sym_param();
  auto b = test_request::get();
  if (w == 0) {
    sym_str t("?");
    size_t c = (size_t) sym_choice(5);
    // the server leaves out names without values
    std::string name = "k", value = "y";
    (c < 3 ? name : value) += c % 3 == 0 ? '&' : c % 3 == 1 ? '+' : '=';
    if (c == 4) value = "x+";
    if (c == 3) value = "x&";
    sym_assume(t[0] >= 'a' && t[0] <= 'z');
    (c < 3 ? name : value) += t[0];
    b.set_query(name, value);
    serve(server, "/t/x", b.build());
    sym_assert(S.calls == 1 && R.calls == 1 && R.status == 200, "served once");
    if (S.query.size() == 1) sym_observe(S.query.begin()->second.size());
    auto is = [&](std::map<std::string, std::string> m) { return m.size() == S.query.size() && m == S.query; };
    if (is({ { name, value } })) return;
    std::string l(1, t[0]);
    bool known = c == 0 ? is({ { l, "y" } }) : c == 1 ? is({ { "k " + l, "y" } }) : c == 2 ? is({ { "k", l + "=y" } }) : c == 3 ? is({ { "k", "x" } }) : is({ { "k", "x " + l } });
    if (known) sym_fail("delimiters in names and values of parameters are taken for delimiters");
    sym_fail("a parameter is not as given");
  }
  if (w == 1) {
    b.set_version(http::version::v1_0);
    serve(server, "/t/x", b.build());
    sym_assert(S.calls == 1 && R.calls == 1 && R.status == 200, "served once");
    if (S.version == http::version::v1_0) return;
    if (S.version == http::version::v1_1) sym_fail("the version of a test request is ignored");
    sym_fail("another version");
  }
  if (w == 2) {
    A.status = sym_choice(2) ? 299 : 599;
    serve(server, "/t/x", b.build());
    sym_assert(S.calls == 1 && R.calls == 1 && R.done && !R.body_failed, "served once");
    if (R.status == (unsigned) A.status) return;
    if (R.status == 0) sym_fail("a status without a name arrives as 0");
    sym_fail("another status");
  }
  if (w == 3) {
    A.read = false;
    A.kind = 1;
    A.text = "text";
    b = test_request::post();
    b.set_header(field::expect, "100-continue");
    serve(server, "/t/x", b.set_body("ab"), 2);
    sym_assert(S.calls == 1, "served once");
    if (R.calls == 0) sym_fail("a response that follows 100 (Continue) at once is lost");
    sym_assert(R.calls == 1 && R.done && R.status == 200 && R.body == "text", "the final answer");
  }
  if (w == 4) {
    A.kind = 1;
    A.text = "text";
    serve(server, "/t/x", test_request::head().build());
    sym_assert(S.calls == 1 && R.calls == 1 && R.status == 200, "served once");
    sym_assert(R.body.empty(), "no body");
    if (R.done && !R.body_failed) return;
    if (R.done && R.body_failed) sym_fail("the body of a response to HEAD does not end well");
    sym_fail("the body of a response to HEAD never ends");
  }
}
