// The server's session loop over a connection of the harness: real request
// parsing, routing, handlers, response writing.
#include "streams.h"
#include <any>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>
#define private public
#include <fitoria/web/http_server.hpp>
#undef private
using namespace fitoria;
using namespace fitoria::web;

namespace {
// ---- reading what the server wrote
struct reply {
  int status = 0;
  bool v10 = false;
  std::vector<std::pair<std::string, std::string>> headers; // names in lower case
  std::string body;
  bool has_length = false, chunked = false, close = false, keep = false;
  size_t length = 0;
  const std::string* get(std::string_view n) const
  {
    for (auto& h : headers)
      if (h.first == n) return &h.second;
    return nullptr;
  }
  size_t count(std::string_view n) const
  {
    size_t c = 0;
    for (auto& h : headers) c += h.first == n;
    return c;
  }
};
char low(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
bool line(std::string_view w, size_t& i, std::string& l)
{
  l.clear();
  while (i + 1 < w.size()) {
    if (w[i] == '\r' && w[i + 1] == '\n') {
      i += 2;
      return true;
    }
    l += w[i++];
  }
  return false;
}
int hexd(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }
// one response at w[i]; false when there is no complete one
bool read_reply(std::string_view w, size_t& i, reply& r, bool head)
{
  std::string l;
  if (!line(w, i, l)) return false;
  if (l.size() < 12 || l.substr(0, 7) != "HTTP/1." || (l[7] != '0' && l[7] != '1') || l[8] != ' ') return false;
  r.v10 = l[7] == '0';
  for (size_t k = 9; k < 12; ++k) {
    if (l[k] < '0' || l[k] > '9') return false;
    r.status = r.status * 10 + (l[k] - '0');
  }
  for (;;) {
    if (!line(w, i, l)) return false;
    if (l.empty()) break;
    size_t c = l.find(':');
    if (c == std::string::npos) return false;
    std::string n = l.substr(0, c);
    for (auto& x : n) x = low(x);
    size_t v = c + 1;
    while (v < l.size() && l[v] == ' ') ++v;
    r.headers.emplace_back(n, l.substr(v));
  }
  if (auto* h = r.get("content-length")) {
    r.has_length = true;
    for (char c : *h) {
      if (c < '0' || c > '9') return false;
      r.length = r.length * 10 + (size_t) (c - '0');
    }
  }
  if (auto* h = r.get("transfer-encoding")) r.chunked = *h == "chunked";
  if (auto* h = r.get("connection")) {
    r.close = *h == "close";
    r.keep = *h == "keep-alive";
  }
  if (head || r.status < 200 || r.status == 204 || r.status == 304) return true;
  if (r.chunked) {
    for (;;) {
      if (!line(w, i, l) || l.empty()) return false;
      size_t n = 0;
      for (char c : l) {
        if (hexd((unsigned char) c) < 0) return false;
        n = n * 16 + (size_t) hexd((unsigned char) c);
      }
      if (n == 0) return line(w, i, l) && l.empty();
      if (i + n + 2 > w.size()) return false;
      r.body += w.substr(i, n);
      i += n;
      if (w[i] != '\r' || w[i + 1] != '\n') return false;
      i += 2;
    }
  }
  if (!r.has_length) return false;
  if (i + r.length > w.size()) return false;
  r.body = std::string(w.substr(i, r.length));
  i += r.length;
  return true;
}

// ---- the server
struct call {
  int who;
  std::string text;
};
std::vector<call> calls;

struct slow_body {
  using is_async_readable_stream = void;
  int n;
  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
  {
    if (n == 0) co_return nullopt;
    --n;
    co_return expected<bytes, std::error_code>(n % 2 ? bytes(2, std::byte('s')) : bytes());
  }
};
struct bad_body {
  using is_async_readable_stream = void;
  bool first = true;
  auto async_read_some() -> awaitable<optional<expected<bytes, std::error_code>>>
  {
    if (first) {
      first = false;
      co_return expected<bytes, std::error_code>(bytes(2, std::byte('b')));
    }
    co_return expected<bytes, std::error_code>(unexpect, std::make_error_code(std::errc::io_error));
  }
};

// time limit of a request in ns: -2 the default, -1 none
auto make_server(long long ns = -2)
{
  auto b = http_server::builder(sym_executor {});
  if (ns == -1) b.set_request_timeout(nullopt);
  if (ns >= 0) b.set_request_timeout(std::chrono::nanoseconds(ns));
  return std::move(b)
      .set_request_header_limit(300)
      .set_request_body_limit(64)
      .serve(route::get<"/">([](http::version v) -> awaitable<response> {
        calls.push_back({ 1, v == http::version::v1_1 ? "" : v == http::version::v1_0 ? "old" : "other" });
        co_return response::ok().build();
      }))
      .serve(route::get<"/p/{x}">([](const path_info& p, const query_map& q) -> awaitable<std::string> {
        std::string t = p.at("x");
        if (auto v = q.get("q")) t += "|" + *v;
        calls.push_back({ 2, t });
        co_return t;
      }))
      .serve(route::post<"/echo">([](std::string body) -> awaitable<std::string> {
        calls.push_back({ 3, body });
        co_return body;
      }))
      .serve(route::post<"/stream">([](request& req) -> awaitable<response> {
        calls.push_back({ 4, "" });
        co_return response::ok().set_stream_body(std::move(req.body()));
      }))
      .serve(route::any<"/ignore">([](request& req) -> awaitable<response> {
        calls.push_back({ 5, std::string(boost::beast::http::to_string(req.method())) + req.path().match_pattern() });
        co_return response::accepted().set_header("x-kind", "ignored").set_body("ignored");
      }))
      .serve(route::get<"/head">([](const http::header_map& h) -> awaitable<response> {
        calls.push_back({ 6, "" });
        auto b = response::ok();
        std::string t;
        for (auto [i, e] = h.equal_range("x-in"); i != e; ++i) t += std::string(i->value()) + ";";
        b.set_header("x-out", t);
        b.insert_header("set-cookie", "a").insert_header("set-cookie", "b");
        co_return b.build();
      }))
      .serve(route::get<"/none">([]() -> awaitable<response> {
        calls.push_back({ 7, "" });
        co_return response::no_content().build();
      }))
      .serve(route::get<"/slow">([]() -> awaitable<response> {
        calls.push_back({ 8, "" });
        co_return response::ok().set_stream_body(slow_body { 4 });
      }))
      .serve(route::get<"/sized">([]() -> awaitable<response> {
        calls.push_back({ 9, "" });
        co_return response::ok().set_body(slow_body { 4 });
      }))
      .serve(route::get<"/bad">([]() -> awaitable<response> {
        calls.push_back({ 10, "" });
        co_return response::ok().set_stream_body(bad_body {});
      }))
      .serve(route::get<"/badsized">([]() -> awaitable<response> {
        calls.push_back({ 11, "" });
        co_return response::ok().set_body(bad_body {});
      }))
      .serve(route::get<"/throw">([]() -> awaitable<response> {
        calls.push_back({ 13, "" });
        throw std::runtime_error("x");
        co_return response::ok().build();
      }))
      .serve(route::head<"/slow">([]() -> awaitable<response> {
        calls.push_back({ 14, "" });
        co_return response::ok().set_stream_body(slow_body { 4 });
      }))
      .serve(route::head<"/none">([]() -> awaitable<response> {
        calls.push_back({ 15, "" });
        co_return response::no_content().build();
      }))
      .serve(route::head<"/ignore">([](request& req) -> awaitable<response> {
        calls.push_back({ 12, "" });
        co_return response::ok().set_body("ignored");
      }))
      .build();
}

// ---- one request and what must come back
struct want {
  std::string raw; // bytes of the request
  int status = 200;
  std::string body;
  bool chunked = false, head = false, cont = false;
  bool close = false; // the connection is not used any more
  bool cut = false; // the response cannot be completed
  int who = 0;
  std::string text;
  std::string x_out;
};
std::string framed(const std::string& body, size_t how)
{
  if (how == 0) return "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
  std::string r = "Transfer-Encoding: chunked\r\n\r\n";
  if (how == 1 && !body.empty()) {
    const char* D = "0123456789abcdef";
    r += std::string() + D[body.size() / 16] + D[body.size() % 16] + "\r\n" + body + "\r\n";
  } else
    for (char c : body) r += std::string("1\r\n") + c + "\r\n";
  return r + "0\r\n\r\n";
}
const char* CONN[] = { " HTTP/1.1\r\nHost: h\r\n", " HTTP/1.1\r\nHost: h\r\nConnection: close\r\n", " HTTP/1.0\r\n", " HTTP/1.0\r\nConnection: keep-alive\r\n" };

want simple(size_t k, size_t conn, bool symbolic)
{
  want w;
  std::string end = CONN[conn];
  w.close = conn == 1 || conn == 2;
  auto body = [&] {
    sym_str t(symbolic ? "?" : "b");
    return "b" + std::string(t.sv()) + "d";
  };
  switch (k) {
  case 0:
    w.raw = "GET /" + end + "\r\n";
    w.who = 1;
    w.text = conn < 2 ? "" : "old";
    break;
  case 1: {
    // the path is matched decoded
    sym_str t(symbolic ? "?" : "v");
    sym_assume((t[0] >= 'a' && t[0] <= 'z') || t[0] == '.' || t[0] == '+' || t[0] == '~');
    w.raw = "GET /p/%41" + std::string(t.sv()) + "?q=%20" + std::string(t.sv()) + "&r" + end + "\r\n";
    w.text = "A" + std::string(t.sv()) + "| " + (t[0] == '+' ? " " : std::string(t.sv()));
    w.body = w.text;
    w.who = 2;
    break;
  }
  case 2: case 3: case 4: {
    std::string b = body();
    w.raw = "POST /echo" + end + framed(b, k - 2);
    w.who = 3;
    w.text = w.body = b;
    break;
  }
  case 5: case 6: case 7: {
    std::string b = body();
    w.raw = "POST /stream" + end + framed(b, k - 5);
    w.who = 4;
    w.body = b;
    w.chunked = true;
    break;
  }
  case 8: case 9: case 10: {
    // the body is not read by the handler
    std::string b = "GET / HTTP/1.1\r\nHost: evil\r\n\r\n";
    w.raw = "PUT /ignore" + end + framed(b, k - 8);
    w.who = 5;
    w.text = "PUT/ignore";
    w.status = 202;
    w.body = "ignored";
    break;
  }
  case 11: {
    sym_str t(symbolic ? "?" : "v");
    sym_assume(t[0] > ' ' && t[0] < 127);
    w.raw = "GET /head" + end + "X-In: v" + std::string(t.sv()) + "\r\nX-Other: o\r\nx-IN: w" + std::string(t.sv()) + "\r\n\r\n";
    w.who = 6;
    w.x_out = "v" + std::string(t.sv()) + ";w" + std::string(t.sv()) + ";";
    break;
  }
  case 12:
    w.raw = "GET /none" + end + "\r\n";
    w.who = 7;
    w.status = 204;
    break;
  case 13:
    w.raw = "GET /slow" + end + "\r\n";
    w.who = 8;
    w.body = "ssss";
    w.chunked = true;
    break;
  case 14:
    w.raw = "GET /sized" + end + "\r\n";
    w.who = 9;
    w.body = "ssss";
    break;
  case 15:
    w.raw = "GET /bad" + end + "\r\n";
    w.who = 10;
    w.cut = true;
    break;
  case 16:
    w.raw = "GET /badsized" + end + "\r\n";
    w.who = 11;
    w.cut = true;
    break;
  case 17: {
    sym_str t(symbolic ? "?" : "z");
    sym_assume(t[0] >= 'a' && t[0] <= 'z');
    w.raw = "GET /nowhere" + std::string(t.sv()) + end + "\r\n";
    w.status = 404;
    break;
  }
  case 18: {
    // known path, other method, with a body
    w.raw = "POST /p/x" + end + framed("GET / HTTP/1.1\r\n\r\n", 0);
    w.status = 404;
    break;
  }
  case 19:
    w.raw = "GET http://h/" + end + "\r\n";
    w.status = 400;
    break;
  case 20:
    w.raw = "GET /%zz" + end + "\r\n";
    w.status = 400;
    break;
  case 21: {
    std::string b = body();
    w.raw = "POST /echo" + end + "Expect: 100-Continue\r\n" + framed(b, 0);
    w.cont = true;
    w.who = 3;
    w.text = w.body = b;
    break;
  }
  case 22: {
    w.raw = "HEAD /ignore" + end + "\r\n";
    w.who = 12;
    w.head = true;
    break;
  }
  case 23:
    w.raw = "HEAD /nowhere" + end + "\r\n";
    w.status = 404;
    w.head = true;
    break;
  case 24:
    w.raw = "POST /echo" + end + framed("", 0);
    w.who = 3;
    break;
  case 25:
    w.raw = "POST /stream" + end + framed("", 1);
    w.who = 4;
    w.chunked = true;
    break;
  case 26:
    w.raw = "HEAD /slow" + end + "\r\n";
    w.who = 14;
    w.head = true;
    w.chunked = true;
    break;
  case 27:
    w.raw = "HEAD /none" + end + "\r\n";
    w.who = 15;
    w.head = true;
    w.status = 204;
    break;
  case 28:
    // the body is not read by the handler
    w.raw = "PUT /ignore" + end + "expect: 100-continue\r\n" + framed("GET / HTTP/1.1\r\n\r\n", 1);
    w.cont = true;
    w.who = 5;
    w.text = "PUT/ignore";
    w.status = 202;
    w.body = "ignored";
    break;
  }
  return w;
}
constexpr size_t KINDS = 29;

void drive(conn_state& c, const std::vector<want>& ws)
{
  calls.clear();
  auto server = make_server();
  for (auto& w : ws) c.in += w.raw;
  conn_stream st(&c);
  auto r = run(server.do_session_impl(st));
  observe(c.out);
  size_t i = 0, k = 0;
  bool open = true;
  for (auto& w : ws) {
    if (!open) break;
    if (w.who) {
      if (k >= calls.size()) sym_fail("every request reaches its handler");
      sym_assert(calls[k].who == w.who, "the handler of the matching route is called");
      check_eq(calls[k].text, w.text, "with the content of the request");
      ++k;
    }
    if (w.cut) {
      sym_assert(!r, "a response that cannot be completed ends the session with an error");
      reply a;
      size_t j = i;
      sym_assert(!read_reply(c.out, j, a, false), "and is not made to look complete");
      i = c.out.size();
      open = false;
      sym_cover("cut");
      break;
    }
    if (w.cont) {
      reply a;
      sym_assert(read_reply(c.out, i, a, false) && a.status == 100 && !a.has_length && !a.chunked, "the client is told to continue");
      sym_cover("continue");
    }
    reply a;
    if (!read_reply(c.out, i, a, w.head)) sym_fail("every request gets one complete response");
    sym_assert(a.status == w.status, "with the status of the handler");
    if (w.status < 400) check_eq(a.body, w.head ? "" : w.body, "and its body");
    sym_assert(!(a.chunked && a.has_length), "one framing of the body");
    sym_assert(a.count("content-length") + a.count("transfer-encoding") <= 1 || a.chunked, "one framing of the body");
    sym_assert(a.chunked == w.chunked, "chunked exactly when streamed");
    if (w.who == 12) sym_assert(a.has_length && a.length == 7, "a HEAD response describes the body");
    if (w.status == 204) sym_assert(!a.has_length && !a.chunked, "no body, no length");
    if (w.who == 5) sym_assert(a.get("x-kind") && *a.get("x-kind") == "ignored", "headers of the response");
    if (w.who == 6) {
      sym_assert(a.get("x-out") != nullptr && a.count("set-cookie") == 2, "headers of the response, repeated ones too");
      if (a.get("x-out")) check_eq(*a.get("x-out"), w.x_out, "header values");
    }
    if (!a.v10) sym_assert(a.close == w.close, "closing is announced");
    sym_cover("reply");
    if (w.close) {
      open = false;
      sym_assert(r.has_value(), "the session ends in order");
    }
  }
  sym_assert(k == calls.size(), "no handler runs without a request");
  sym_assert(i == c.out.size(), "nothing else is written");
  if (open) sym_assert(!r, "the session goes on until the client ends it");
}
void steps(conn_state& c)
{
  static const size_t RS[] = { 0, 1, 17 }, WS[] = { 0, 1, 9 };
  size_t k = sym_choice(3);
  c.rstep = RS[k];
  c.step = WS[k];
}
}
// every kind of request, then another one
HARNESS(sv_pair)
{
  conn_state c;
  steps(c);
  std::vector<want> ws;
  ws.push_back(simple(sym_param() % 100, sym_choice(4), true));
  static const size_t NEXT[] = { 0, 2, 10, 13 };
  size_t n = sym_choice(5);
  if (n < 4) ws.push_back(simple(NEXT[n], sym_choice(2), false));
  // Beast asserts (wrongly) when an empty chunked body arrives byte by byte
  sym_assume(!(c.rstep == 1 && sym_param() % 100 == 25));
  drive(c, ws);
}
// a request the client does not finish
HARNESS(sv_cut)
{
  static const size_t KIND[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21 };
  size_t kind = KIND[sym_param() % 100];
  want w = simple(kind, 0, false);
  size_t head = w.raw.find("\r\n\r\n") + 4;
  conn_state c;
  size_t n = sym_choice(w.raw.size());
  c.in = w.raw.substr(0, n);
  if (sym_choice(2)) c.end = boost::asio::error::connection_reset;
  if (sym_choice(2)) c.rstep = 17;
  calls.clear();
  auto server = make_server();
  conn_stream st(&c);
  auto r = run(server.do_session_impl(st));
  observe(c.out);
  sym_assert(!r, "an unfinished request ends the session with an error");
  if (n < head) {
    sym_assert(calls.empty() && c.out.empty(), "a request without its whole header is not answered");
    sym_cover("header");
    return;
  }
  sym_cover("body");
  size_t i = 0;
  reply a;
  if (w.cont) {
    reply b;
    sym_assert(read_reply(c.out, i, b, false) && b.status == 100, "the client is told to continue");
  }
  bool whole = read_reply(c.out, i, a, false);
  if (w.who == 3) {
    sym_assert(calls.empty(), "a shortened body does not reach the handler");
    sym_assert(whole && a.status == 400, "the client is told that the body cannot be read");
  } else if (w.who == 4) {
    sym_assert(calls.size() == 1, "a streamed body reaches the handler before its end");
    sym_assert(!whole, "the echo of a shortened body does not look complete");
  } else {
    sym_assert(calls.size() == 1 && whole && a.status == 202, "a handler that needs no body is not affected");
    sym_assert(i == c.out.size(), "nothing else is written");
  }
}
// the client stops taking the response at any point
HARNESS(sv_wfail)
{
  static const size_t KIND[] = { 0, 2, 5, 10, 11, 13, 14, 17, 22 };
  want w = simple(KIND[sym_param() % 100], 0, false);
  conn_state full;
  full.in = w.raw + "GET /head HTTP/1.1\r\n\r\n";
  calls.clear();
  auto server = make_server();
  {
    conn_stream st(&full);
    run(server.do_session_impl(st));
  }
  std::vector<call> all = calls;
  size_t first = 0;
  reply a;
  sym_assert(read_reply(full.out, first, a, w.head), "a response");
  calls.clear();
  conn_state c;
  c.in = full.in;
  c.limit = sym_choice(first + 20);
  if (sym_choice(2)) c.step = 7;
  conn_stream st(&c);
  auto r = run(server.do_session_impl(st));
  observe(c.out);
  sym_assert(!r, "a response that cannot be written ends the session with an error");
  check_eq(c.out, full.out.substr(0, c.limit), "what was written is the beginning of the response");
  if (c.limit < first) sym_assert(calls.size() + 1 == all.size(), "no request is handled after that");
  sym_cover("fail");
}
// limits and requests that are not served
HARNESS(sv_limit)
{
  conn_state c;
  static const size_t RS[] = { 0, 1, 17 };
  c.rstep = RS[sym_choice(3)];
  std::string next = "GET / HTTP/1.1\r\n\r\n";
  calls.clear();
  auto server = make_server();
  conn_stream st(&c);
  switch (sym_param() % 100) {
  case 0: {
    // the header is as long as allowed, or the fields alone are longer
    bool over = sym_choice(2);
    std::string h = "GET / HTTP/1.1\r\nX: ";
    c.in = h + std::string((over ? 321 : 300) - h.size() - 4, 'a') + "\r\n\r\n";
    c.in += next;
    auto r = run(server.do_session_impl(st));
    observe(c.out);
    size_t i = 0;
    reply a;
    sym_assert(read_reply(c.out, i, a, false), "one response");
    if (over) {
      sym_assert(a.status == 400 && a.close && i == c.out.size(), "a header that is too long is refused and the connection closed");
      sym_assert(calls.empty() && r, "no handler runs");
      sym_cover("header limit");
    } else {
      sym_assert(a.status == 200 && calls.size() == 2, "a header of the allowed size is served");
      sym_cover("header fits");
    }
    break;
  }
  case 1: {
    bool over = sym_choice(2);
    size_t how = sym_choice(2);
    c.in = "POST /echo HTTP/1.1\r\n" + framed(std::string(over ? 65 : 64, 'c'), how);
    c.in += next;
    auto r = run(server.do_session_impl(st));
    observe(c.out);
    sym_assert(!r, "the session ends with an error");
    size_t i = 0;
    reply a;
    bool whole = read_reply(c.out, i, a, false);
    if (over) {
      sym_assert(calls.empty(), "a body that is too long does not reach the handler");
      sym_assert(c.out.empty() || (whole && a.status >= 400 && i == c.out.size()), "and nothing after it is taken for a request");
      sym_cover("body limit");
    } else {
      sym_assert(whole && a.status == 200 && a.body.size() == 64 && calls.size() == 2, "a body of the allowed size is served");
      sym_cover("body fits");
    }
    break;
  }
  case 2: {
    // a handler that throws: no response, and the exception is not lost
    c.in = "GET /throw HTTP/1.1\r\n\r\n" + next;
    bool thrown = false;
    try {
      run(server.do_session_impl(st));
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    sym_assert(thrown && c.out.empty() && calls.size() == 1, "an exception of a handler ends the session");
    sym_cover("throw");
    break;
  }
  case 3: {
    // malformed requests
    static const char* BAD[] = { "GET/ HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nHost\r\n\r\n", "GET / HTTP/2.0\r\n\r\n", "G\x01T / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: 1x\r\n\r\n", "POST /echo HTTP/1.1\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\nabc", "POST /echo HTTP/1.1\r\nContent-Length: 2\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n", "GET / HTTP/1.1\nHost: h\n\n" };
    c.in = BAD[sym_choice(8)] + next;
    auto r = run(server.do_session_impl(st));
    observe(c.out);
    sym_assert(!r && calls.empty() && c.out.empty(), "a malformed request is not served");
    sym_cover("malformed");
    break;
  }
  case 4: {
    static const char* BAD[] = { "Transfer-Encoding: chunked\r\n\r\nx\r\n", "Transfer-Encoding: chunked\r\n\r\n2\r\nabc\r\n0\r\n\r\n", "Transfer-Encoding: chunked\r\n\r\n1\r\na\r\n;\r\n\r\n" };
    c.in = std::string("POST /echo HTTP/1.1\r\n") + BAD[sym_choice(3)] + next;
    auto r = run(server.do_session_impl(st));
    observe(c.out);
    size_t i = 0;
    reply a;
    bool whole = read_reply(c.out, i, a, false);
    sym_assert(!r && calls.empty() && (c.out.empty() || (whole && a.status >= 400 && i == c.out.size())), "a malformed body does not reach the handler");
    sym_cover("malformed body");
    break;
  }
  }
}

// every read and write of a request happens under its time limit
HARNESS(sv_time)
{
  conn_state c;
  steps(c);
  size_t t = sym_choice(3);
  // the default is as the documentation of the builder says
  long long ns = t == 0 ? -2 : t == 1 ? -1 : 1 + (long long) (sym_u64() >> 2);
  c.want_ns = t == 0 ? 5000000000ll : ns;
  std::vector<want> ws;
  static const size_t NEXT[] = { 0, 2, 10, 13 };
  size_t kind = sym_param() % 100;
  bool close0 = sym_choice(2);
  size_t next = NEXT[sym_choice(4)];
  bool close1 = sym_choice(2);
  ws.push_back(simple(kind, close0, false));
  ws.push_back(simple(next, close1, false));
  if (sym_choice(2)) c.end = boost::beast::error::timeout;
  calls.clear();
  auto server = make_server(ns);
  if (t == 0) sym_assert(server.request_timeout() == optional<std::chrono::steady_clock::duration>(std::chrono::seconds(5)), "the time limit by default");
  else if (t == 1) sym_assert(!server.request_timeout(), "no time limit");
  else sym_assert(server.request_timeout() == optional<std::chrono::steady_clock::duration>(std::chrono::nanoseconds(ns)), "the time limit set");
  for (auto& w : ws) c.in += w.raw;
  bool failed = false;
  try {
    run(server.do_session(conn_stream(&c)));
  } catch (const std::system_error& e) {
    failed = true;
    if (!ws[0].cut) sym_assert(e.code() == std::error_code(c.end) || c.end == boost::asio::error::eof, "the error of the connection ends the session");
  }
  observe(c.out);
  sym_assert(!c.wrong_time, "the connection is used only under the time limit set");
  bool close = ws[0].close || ws[1].close;
  if (ws[0].cut) {
    sym_assert(failed && !c.shut, "a session that fails is not ended in order");
    return;
  }
  sym_assert(failed == !close && c.shut == close, "a session that ends in order shuts the connection down");
  // one limit for each request, set before it is waited for
  std::vector<size_t> at { 0 };
  size_t i = 0;
  bool open = true;
  for (auto& w : ws) {
    if (!open) break;
    reply a;
    if (w.cont) {
      reply b;
      sym_assert(read_reply(c.out, i, b, false) && b.status == 100, "the client is told to continue");
    }
    if (!read_reply(c.out, i, a, w.head)) sym_fail("every request gets one complete response");
    if (w.close) open = false;
    else at.push_back(i);
  }
  sym_assert(i == c.out.size(), "nothing else is written");
  if (t == 1) {
    sym_assert(c.armed.empty(), "no time limit is set");
    sym_cover("no limit");
    return;
  }
  for (size_t x : at) {
    bool found = false;
    for (size_t y : c.armed) found |= x == y;
    sym_assert(found, "each request has the time limit anew");
  }
  sym_cover("limit");
}

// ---- limits of the builder
using dur = std::chrono::steady_clock::duration;
// param: number of settings made
HARNESS(sv_builder)
{
  auto b = http_server::builder(sym_executor {});
  int conns = boost::asio::socket_base::max_listen_connections;
  optional<dur> tls = std::chrono::seconds(3), req = std::chrono::seconds(5);
  optional<std::uint32_t> hl = 8192u;
  optional<std::uint64_t> bl = std::uint64_t(1048576);
  for (size_t k = 0; k < sym_param(); ++k) {
    size_t what = sym_choice(5);
    bool rv = sym_choice(2), none = what && sym_choice(2);
    const http_server::builder* p = nullptr;
    switch (what) {
    case 0:
      conns = (int) sym_u32();
      if (rv) { auto&& x = std::move(b).set_max_listen_connections(conns); p = &x; }
      else p = &b.set_max_listen_connections(conns);
      break;
    case 1:
      if (none) tls = nullopt;
      else tls = dur((long long) sym_u64());
      if (rv) { auto&& x = std::move(b).set_tls_handshake_timeout(tls); p = &x; }
      else p = &b.set_tls_handshake_timeout(tls);
      break;
    case 2:
      if (none) req = nullopt;
      else req = dur((long long) sym_u64());
      if (rv) { auto&& x = std::move(b).set_request_timeout(req); p = &x; }
      else p = &b.set_request_timeout(req);
      break;
    case 3:
      if (none) hl = nullopt;
      else hl = (std::uint32_t) sym_u32();
      if (rv) { auto&& x = std::move(b).set_request_header_limit(hl); p = &x; }
      else p = &b.set_request_header_limit(hl);
      break;
    default:
      if (none) bl = nullopt;
      else bl = (std::uint64_t) sym_u64();
      if (rv) { auto&& x = std::move(b).set_request_body_limit(bl); p = &x; }
      else p = &b.set_request_body_limit(bl);
    }
    sym_assert(p == &b, "chaining");
  }
  size_t scoped = sym_choice(3);
  auto one = [] { return route::get<"/a/b">([]() -> awaitable<response> {
                    calls.push_back({ 1, "" });
                    co_return response::ok().build();
                  }); };
  auto two = [] { return route::post<"/a/{x}">([]() -> awaitable<response> {
                    calls.push_back({ 2, "" });
                    co_return response::ok().build();
                  }); };
  if (scoped == 1) b.serve(scope<"/a">().serve(route::get<"/b">([]() -> awaitable<response> {
      calls.push_back({ 1, "" });
      co_return response::ok().build();
    })).serve(route::post<"/{x}">([]() -> awaitable<response> {
      calls.push_back({ 2, "" });
      co_return response::ok().build();
    })));
  else if (scoped == 2) b.serve(one()).serve(two());
  else std::move(b).serve(one()).serve(two());
  bool dup = sym_choice(2);
  if (dup) {
    bool thrown = false;
    try {
      b.serve(one());
    } catch (const std::system_error&) {
      thrown = true;
    }
    sym_assert(thrown, "a route that is already served is refused");
  }
  auto s = b.build();
  sym_assert(s.max_listen_connections() == conns, "the number of connections set last");
  sym_assert(s.tls_handshake_timeout() == tls, "the time for TLS handshakes set last, or 3 seconds");
  sym_assert(s.request_timeout() == req, "the time for requests set last, or 5 seconds");
  sym_assert(s.request_header_limit() == hl, "the limit of headers set last, or 8 KB");
  sym_assert(s.request_body_limit() == bl, "the limit of bodies set last, or 1 MB");
  sym_observe((uint64_t) s.max_listen_connections());
  calls.clear();
  if (sym_param() == 0) {
    conn_state c;
    c.in = "GET /a/b HTTP/1.1\r\n\r\nPOST /a/q HTTP/1.1\r\n\r\nGET /a/q HTTP/1.1\r\n\r\n";
    conn_stream st(&c);
    run(s.do_session_impl(st));
    sym_assert(calls.size() == 2 && calls[0].who == 1 && calls[1].who == 2, "the routes given are served, by route or in a scope");
    sym_cover("served");
  }
  sym_cover("built");
}
// param: 0 body by length, 1 in one chunk, 2 in chunks of one byte, 3 header,
// 4 body by default, 5 header by default, 6 no limit of bodies, 7 none of headers
HARNESS(sv_exact)
{
  conn_state c;
  static const size_t RS[] = { 1000000, 1, 7 };
  c.rstep = RS[sym_param() == 5 || sym_param() == 7 ? 0 : sym_choice(3)];
  auto b = http_server::builder(sym_executor {});
  b.set_request_timeout(nullopt);
  b.serve(route::post<"/echo">([](std::string body) -> awaitable<std::string> {
    calls.push_back({ 3, body });
    co_return body;
  }));
  b.serve(route::any<"/ignore">([](request& req) -> awaitable<response> {
    calls.push_back({ 5, "" });
    co_return response::accepted().set_body("ignored");
  }));
  calls.clear();
  bool must = true, may = true;
  size_t refuse = 0;
  switch (sym_param()) {
  case 0: case 1: case 2: {
    std::uint64_t limit = sym_u64();
    size_t n = sym_choice(6);
    // an assertion of Boost.Beast 1.83 does not expect the last chunk of an
    // empty body to come in several reads
    if (sym_param() && n == 0) c.rstep = 1000000;
    sym_str t(n);
    b.set_request_body_limit(limit);
    c.in = "POST /echo HTTP/1.1\r\n" + framed(std::string(t.sv()), sym_param());
    must = may = n <= limit;
    break;
  }
  case 3: {
    std::uint32_t limit = (std::uint32_t) sym_u32();
    b.set_request_header_limit(limit);
    c.in = "GET /ignore HTTP/1.1\r\nX: y\r\n\r\n";
    // whether the request line and the last line count is left open
    must = limit > c.in.size();
    may = limit >= 6;
    refuse = 400;
    break;
  }
  case 4: {
    sym_str d("104857?");
    sym_assume(d[6] >= '0' && d[6] <= '9');
    c.in = "POST /ignore HTTP/1.1\r\nContent-Length: " + std::string(d.sv()) + "\r\n\r\n";
    must = may = d[6] <= '6';
    break;
  }
  case 5: case 7: {
    size_t k = sym_choice(3);
    std::string h = "GET /ignore HTTP/1.1\r\nX: ";
    static const size_t LEN[] = { 8000, 8192 + 23, 9000 };
    h.append(LEN[k] - h.size() - 4, 'a');
    c.in = h + "\r\n\r\n";
    if (sym_param() == 7) b.set_request_header_limit(nullopt);
    else must = may = k == 0;
    refuse = 400;
    break;
  }
  case 6: {
    sym_str d("?8446744073709551614");
    sym_assume(d[0] >= '0' && d[0] <= '1');
    b.set_request_body_limit(nullopt);
    c.in = "POST /ignore HTTP/1.1\r\nContent-Length: " + std::string(d.sv()) + "\r\n\r\n";
    break;
  }
  }
  auto s = b.build();
  conn_stream st(&c);
  auto r = run(s.do_session_impl(st));
  observe(c.out);
  if (!calls.empty()) {
    sym_assert(may, "a request over a limit does not reach the handler");
    sym_cover("within");
  } else {
    sym_assert(!must, "a request within the limits is handled");
    size_t i = 0;
    reply a;
    bool whole = read_reply(c.out, i, a, false);
    if (refuse) sym_assert(whole && a.status == 400 && a.close && i == c.out.size() && r, "a header that is too long is refused and the connection closed");
    else sym_assert((c.out.empty() || (whole && a.status >= 400 && i == c.out.size())) && !r, "a body that is too long ends the session");
    sym_cover("over");
  }
}
