// WebSockets: real opening handshake, Boost.Beast's framing and fitoria's
// websocket over an in-memory connection.
#include "coro.h"
#include "sym.h"
#include <any>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>
#include <fitoria/core/net.hpp>
// The harness's connections are test streams: the websockets over sockets are
// not used, and left out of the compilation.
namespace boost::beast::websocket {
template <class P>
class stream<fitoria::shared_basic_stream<P>, true> {
public:
  using executor_type = sym_executor;
  explicit stream(fitoria::shared_basic_stream<P>) { }
  template <class O>
  void set_option(O&&)
  {
  }
  executor_type get_executor() { return {}; }
  bool got_text() const { return false; }
  void text(bool) { }
  void binary(bool) { }
  template <class R, class T>
  auto async_accept(R&, T) -> fitoria::awaitable<fitoria::expected<void, boost::system::error_code>>
  {
    co_return fitoria::expected<void, boost::system::error_code>();
  }
  template <class D, class T>
  auto async_close(D, T) -> fitoria::awaitable<fitoria::expected<void, boost::system::error_code>>
  {
    co_return fitoria::expected<void, boost::system::error_code>();
  }
  template <class T>
  auto async_ping(ping_data, T) -> fitoria::awaitable<fitoria::expected<void, boost::system::error_code>>
  {
    co_return fitoria::expected<void, boost::system::error_code>();
  }
  template <class B, class T>
  auto async_read(B&, T) -> fitoria::awaitable<fitoria::expected<std::size_t, boost::system::error_code>>
  {
    co_return std::size_t(0);
  }
  template <class B, class T>
  auto async_write(B, T) -> fitoria::awaitable<fitoria::expected<std::size_t, boost::system::error_code>>
  {
    co_return std::size_t(0);
  }
};
}
#define private public
#include <fitoria/web/http_server.hpp>
#undef private
using namespace fitoria;
using namespace fitoria::web;

namespace {
struct got {
  char kind; // t, b, c (closed), e (error)
  std::string text;
};
struct plan {
  int mode = 0; // what the handler does with a message: 0 same kind, 1 text, 2 binary, 3 ping and same kind
  int end = 0; // after the messages: 0 until the client ends, 1 after `n` messages return, 2 close with `code` after `n`
  size_t n = 0;
  unsigned code = 1000;
  bool ran = false, failed = false, unusable = false;
  std::vector<got> msgs;
  long long idle = -2, shake = -2; // -2: not set, -1: none
  int pings = -1;
};
plan P;
int plain_calls = 0, ws_calls = 0;

auto callback(websocket::context& c) -> awaitable<void>
{
  P.ran = true;
  for (size_t k = 0;; ++k) {
    if (P.end && k == P.n) {
      if (P.end == 2) P.failed = !co_await c.async_close(static_cast<websocket::close_code>(P.code));
      co_return;
    }
    auto m = co_await c.async_read();
    if (!m) {
      P.msgs.push_back({ 'e', "" });
      co_return;
    }
    if (auto t = std::get_if<websocket::text_t>(&*m)) {
      P.msgs.push_back({ 't', t->value });
      if (P.mode == 3 && !co_await c.async_ping()) P.failed = true;
      if (P.mode == 2) {
        if (!co_await c.async_write_binary(std::span { t->value.data(), t->value.size() })) P.failed = true;
      } else if (!co_await c.async_write_text(t->value)) P.failed = true;
    } else if (auto b = std::get_if<websocket::binary_t>(&*m)) {
      P.msgs.push_back({ 'b', std::string((const char*) b->value.data(), b->value.size()) });
      if (P.mode == 3 && !co_await c.async_ping()) P.failed = true;
      if (P.mode == 1) {
        if (!co_await c.async_write_text(std::span { (const char*) b->value.data(), b->value.size() })) P.failed = true;
      } else if (!co_await c.async_write_binary(std::span { b->value.data(), b->value.size() })) P.failed = true;
    } else {
      P.msgs.push_back({ 'c', "" });
      co_return;
    }
  }
}
auto make_server()
{
  return http_server::builder(sym_executor {})
      .serve(route::get<"/">([]() -> awaitable<response> {
        ++plain_calls;
        co_return response::ok().set_header("x-kind", "plain").set_body("plain");
      }))
      .serve(route::get<"/none">([]() -> awaitable<response> {
        ++plain_calls;
        co_return response::no_content().build();
      }))
      .serve(route::any<"/ws">([](websocket ws) -> awaitable<response> {
        ++ws_calls;
        if (P.idle != -2) ws.set_idle_timeout(P.idle < 0 ? optional<std::chrono::steady_clock::duration>() : std::chrono::nanoseconds(P.idle));
        if (P.shake != -2) ws.set_handshake_timeout(P.shake < 0 ? optional<std::chrono::steady_clock::duration>() : std::chrono::nanoseconds(P.shake));
        if (P.pings >= 0) ws.set_keep_alive_pings(P.pings);
        co_return ws.set_handler(callback);
      }))
      .serve(route::get<"/more">([](websocket ws) -> awaitable<response> {
        ++ws_calls;
        co_return ws.set_handler(callback).builder().set_header("x-more", "m").insert_header("set-cookie", "a").insert_header("set-cookie", "b").build();
      }))
      .serve(route::get<"/late">([](websocket ws) -> awaitable<response> {
        ++plain_calls;
        ws.set_handler(callback);
        co_return response::forbidden().set_header("x-kind", "refused").set_body("refused");
      }))
      .serve(route::get<"/refuse">([](websocket) -> awaitable<response> {
        ++plain_calls;
        co_return response::forbidden().set_header("x-kind", "refused").set_body("refused");
      }))
      .build();
}

struct session {
  shared_test_stream client { sym_executor {} };
  bool done = false, failed = false;
  std::string out; // all that the server wrote
  std::string fresh;
  session()
  {
    P.msgs.clear();
    plain_calls = ws_calls = 0;
    boost::asio::stand_in::durations().clear();
  }
  template <class S>
  void start(S& server, size_t step, std::string_view in)
  {
    auto remote = connect(client);
    remote.socket().read_size(step);
    remote.socket().write_size(step);
    remote.socket().append(boost::beast::string_view(in.data(), in.size()));
    std::error_code e;
    boost::asio::co_spawn(sym_executor {}, server.do_session(remote), [this](std::exception_ptr p) {
      done = true;
      failed = p != nullptr;
    });
    remote_ = &remote.socket().side();
    keep_ = std::make_unique<shared_test_stream>(remote);
    go();
  }
  void go()
  {
    sym_context::get().run();
    auto s = client.socket().str();
    fresh.assign(s.data(), s.size());
    client.socket().clear();
    out += fresh;
  }
  void send(std::string_view in)
  {
    keep_->socket().append(boost::beast::string_view(in.data(), in.size()));
    go();
  }
  void end()
  {
    keep_->socket().close_remote();
    go();
  }
  std::unique_ptr<shared_test_stream> keep_;
  boost::beast::test::stand_in::side* remote_ = nullptr;
};

// ---- what the server wrote
bool line(std::string_view w, size_t& i, std::string& l)
{
  l.clear();
  while (i + 1 < w.size()) {
    if (w[i] == '\r' && w[i + 1] == '\n') {
      i += 2;
      return true;
    }
    l += w[i++];
  }
  return false;
}
struct head {
  int status = 0;
  std::map<std::string, std::string> h; // of repeated fields the values in a row
  std::string body;
};
bool read_head(std::string_view w, size_t& i, head& r)
{
  std::string l;
  if (!line(w, i, l) || l.size() < 12 || l.substr(0, 9) != "HTTP/1.1 ") return false;
  r.status = (l[9] - '0') * 100 + (l[10] - '0') * 10 + (l[11] - '0');
  for (;;) {
    if (!line(w, i, l)) return false;
    if (l.empty()) break;
    size_t c = l.find(": ");
    if (c == std::string::npos) return false;
    std::string n = l.substr(0, c);
    for (auto& x : n)
      if (x >= 'A' && x <= 'Z') x += 32;
    if (r.h.count(n) && n != "set-cookie") return false;
    r.h[n] += l.substr(c + 2);
  }
  if (auto it = r.h.find("content-length"); it != r.h.end()) {
    size_t n = 0;
    for (char c : it->second) n = n * 10 + (size_t) (c - '0');
    if (i + n > w.size()) return false;
    r.body = std::string(w.substr(i, n));
    i += n;
  }
  return true;
}
struct frame {
  unsigned op = 0;
  bool fin = false;
  std::string data;
};
bool read_frame(std::string_view w, size_t& i, frame& f)
{
  if (i + 2 > w.size()) return false;
  unsigned char a = (unsigned char) w[i], b = (unsigned char) w[i + 1];
  f.op = a & 15;
  f.fin = a >> 7;
  if (a & 0x70) return false;
  size_t n = b;
  i += 2;
  if (n > 127) return false; // masked
  if (n == 126) {
    if (i + 2 > w.size()) return false;
    n = ((unsigned char) w[i] << 8) | (unsigned char) w[i + 1];
    i += 2;
  } else if (n == 127) return false;
  if (i + n > w.size()) return false;
  f.data = std::string(w.substr(i, n));
  i += n;
  return true;
}
std::string make_frame(unsigned op, bool fin, std::string_view data, std::string_view key)
{
  std::string r;
  r += (char) (op | (fin ? 0x80 : 0));
  if (data.size() < 126) r += (char) (0x80 | data.size());
  else {
    r += (char) (0x80 | 126);
    r += (char) (data.size() >> 8);
    r += (char) data.size();
  }
  r += key;
  for (size_t i = 0; i < data.size(); ++i) r += (char) (data[i] ^ key[i % 4]);
  return r;
}

const char* KEYS[] = { "dGhlIHNhbXBsZSBub25jZQ==", "AAECAwQFBgcICQoLDA0ODw==" };
const char* ACCEPT[] = { "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "Bz3qJYTGdOe8gUSpLosEdiLKDrk=" };
std::string opening(std::string_view target, size_t key = 0)
{
  return "GET " + std::string(target) + " HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: " + KEYS[key] + "\r\nSec-WebSocket-Version: 13\r\n\r\n";
}
const size_t STEPS[] = { 0, 1, 17 };
}

// the opening handshake
HARNESS(wk_open)
{
  P = plan {};
  size_t key = sym_choice(2);
  size_t step = STEPS[sym_choice(3)];
  std::string method = "GET", version = "1.1", host = "Host: h\r\n", conn = "Connection: Upgrade\r\n", up = "Upgrade: websocket\r\n", k = std::string("Sec-WebSocket-Key: ") + KEYS[key] + "\r\n", v = "Sec-WebSocket-Version: 13\r\n";
  bool upgrade = true; // asks for a websocket at all
  int status = 101;
  size_t more = 0;
  switch (sym_param() % 100) {
  case 0:
    more = sym_choice(2);
    break;
  case 1: {
    static const char* C[] = { "connection: keep-alive, upgrade\r\n", "CONNECTION: UPGRADE\r\n", "Connection: x,\tupgrade , y\r\n" };
    conn = C[sym_choice(3)];
    break;
  }
  case 2: {
    static const char* U[] = { "upgrade: WebSocket\r\n", "Upgrade: h2c, websocket\r\n" };
    up = U[sym_choice(2)];
    break;
  }
  case 3:
    host = "";
    status = 400;
    break;
  case 4: {
    sym_str t("?");
    sym_assume(t[0] > ' ' && t[0] < 127);
    v = "Sec-WebSocket-Version: 1" + std::string(t.sv()) + "\r\n";
    if (t[0] != '3') status = 426;
    break;
  }
  case 5:
    v = "";
    status = 400;
    break;
  case 6:
    k = "";
    status = 400;
    break;
  case 7:
    k = std::string("Sec-WebSocket-Key: ") + KEYS[key] + "=\r\n";
    status = 400;
    break;
  case 8:
    method = "POST";
    upgrade = false;
    break;
  case 9:
    version = "1.0";
    upgrade = false;
    break;
  case 10: {
    static const char* C[] = { "", "Connection: close\r\n", "Connection: upgrades\r\n" };
    conn = C[sym_choice(3)];
    upgrade = false;
    break;
  }
  case 11: {
    static const char* U[] = { "", "Upgrade: websockets\r\n", "Upgrade: h2c\r\n" };
    up = U[sym_choice(3)];
    upgrade = false;
    break;
  }
  }
  auto server = make_server();
  session s;
  s.start(server, step, method + (more ? " /more HTTP/" : " /ws HTTP/") + version + "\r\n" + host + conn + up + k + v + "\r\n");
  observe(s.out);
  size_t i = 0;
  head r;
  if (!read_head(s.out, i, r)) sym_fail("the request gets a response");
  if (!upgrade) {
    sym_assert(r.status == 400 && ws_calls == 0 && !P.ran, "a request that asks for no websocket does not reach a handler of one");
    sym_cover("not asked");
  } else if (status != 101) {
    sym_assert(r.status == status && !P.ran, "an opening that is not valid is refused");
    sym_assert(r.h.count("sec-websocket-accept") == 0, "and not accepted");
    if (status == 426) sym_assert(r.h["sec-websocket-version"] == "13", "with the version that is supported");
    sym_cover("invalid");
  } else {
    sym_assert(r.status == 101 && P.ran && ws_calls == 1, "a valid opening is accepted");
    check_eq(r.h["sec-websocket-accept"], ACCEPT[key], "with the answer to its key");
    check_eq(r.h["upgrade"], "websocket", "the protocol");
    if (more) sym_assert(r.h["x-more"] == "m" && r.h["set-cookie"] == "ab", "with the headers of the handler");
    sym_assert(i == s.out.size(), "nothing else is written");
    sym_assert(!s.done, "the connection stays open");
    sym_cover("open");
  }
  s.end();
  sym_assert(s.done, "the session ends with the connection");
}

// requests for a websocket to other handlers are answered like others
HARNESS(wk_other)
{
  P = plan {};
  size_t step = STEPS[sym_choice(3)];
  static const char* T[] = { "/", "/nowhere", "/refuse", "/none", "/%zz", "/late" };
  static const int S[] = { 200, 404, 403, 204, 400, 403 };
  static const char* B[] = { "plain", nullptr, "refused", "", nullptr, "refused" };
  size_t k = sym_choice(6);
  bool close = sym_choice(2);
  std::string raw = opening(T[k], sym_choice(2));
  if (close) raw.replace(raw.find("Connection: "), 12, "Connection: close, ");
  auto server = make_server();
  session s;
  s.start(server, step, raw + "GET / HTTP/1.1\r\n\r\n");
  observe(s.out);
  size_t i = 0;
  head r;
  if (!read_head(s.out, i, r)) sym_fail("the request gets a response");
  sym_assert(r.status == S[k], "the response of the handler");
  if (B[k]) check_eq(r.body, B[k], "its body");
  if (k == 0 || k == 2 || k == 5) check_eq(r.h["x-kind"], k ? "refused" : "plain", "its headers");
  sym_assert(r.h.count("sec-websocket-accept") == 0 && !P.ran, "no websocket is opened");
  if (close) {
    sym_assert(s.done && !s.failed && i == s.out.size(), "the connection is closed as asked");
    sym_cover("closed");
  } else {
    head n;
    if (!read_head(s.out, i, n)) sym_fail("the next request gets a response");
    sym_assert(n.status == 200 && n.body == "plain" && i == s.out.size() && !s.done, "the connection goes on");
    sym_cover("goes on");
  }
  s.end();
  sym_assert(s.done, "the session ends with the connection");
}

// messages in any framing
HARNESS(wk_message)
{
  P = plan {};
  P.mode = (int) sym_choice(4);
  size_t step = STEPS[sym_choice(3)];
  size_t n = 1 + sym_param() % 10; // messages
  auto server = make_server();
  session s;
  s.start(server, step, opening("/ws"));
  std::string all;
  std::vector<got> want;
  bool control = false;
  for (size_t m = 0; m < n; ++m) {
    bool text = sym_choice(2);
    size_t frames = 1 + sym_choice(sym_param() % 100 >= 10 ? 3 : 2);
    std::string data;
    for (size_t f = 0; f < frames; ++f) {
      sym_str t((size_t) sym_choice(2) * (1 + f));
      if (text)
        for (size_t c = 0; c < t.n; ++c) sym_assume((unsigned char) t[c] < 128);
      sym_str key("????");
      if (f && !control && sym_choice(2)) {
        all += make_frame(9, true, "hi", "1234"); // ping between frames
        control = true;
      }
      all += make_frame(f ? 0 : text ? 1 : 2, f + 1 == frames, t.sv(), key.sv());
      data += t.sv();
    }
    want.push_back({ text ? 't' : 'b', data });
  }
  // with two messages the remaining choices follow from the others
  bool one = n == 1 || sym_param() % 100 >= 10;
  bool split = one ? sym_choice(2) : step == 0;
  s.fresh.clear();
  std::string written;
  if (split) {
    s.send(std::string_view(all).substr(0, all.size() / 2));
    written += s.fresh;
    s.send(std::string_view(all).substr(all.size() / 2));
  } else s.send(all);
  written += s.fresh;
  observe(written);
  sym_assert(P.msgs.size() == want.size() && !P.failed, "each message arrives once");
  for (size_t m = 0; m < n; ++m) {
    sym_assert(P.msgs[m].kind == want[m].kind, "with its kind");
    check_eq(P.msgs[m].text, want[m].text, "and its content");
  }
  size_t i = 0, pings = 0, pongs = 0;
  std::vector<got> back;
  while (i < written.size()) {
    frame f;
    if (!read_frame(written, i, f)) sym_fail("only well-formed frames are written");
    if (f.op == 9) {
      ++pings;
      continue;
    }
    if (f.op == 10) {
      ++pongs;
      check_eq(f.data, "hi", "the answer to a ping");
      continue;
    }
    sym_assert((f.op == 1 || f.op == 2) && f.fin, "a message in one frame");
    back.push_back({ f.op == 1 ? 't' : 'b', f.data });
  }
  sym_assert(pongs == (control ? 1 : 0), "a ping is answered");
  sym_assert(pings == (P.mode == 3 ? n : 0), "pings are sent when asked");
  sym_assert(back.size() == n, "each message sent is written once");
  for (size_t m = 0; m < n; ++m) {
    sym_assert(back[m].kind == (P.mode == 1 ? 't' : P.mode == 2 ? 'b' : want[m].kind), "with its kind");
    check_eq(back[m].text, want[m].text, "and its content");
  }
  sym_cover("messages");
  sym_assert(!s.done, "the connection stays open");
  if (one ? sym_choice(2) : P.mode % 2) {
    // the client closes
    s.send(make_frame(8, true, std::string("\x03\xe8", 2), "abcd"));
    sym_assert(P.msgs.size() == n + 1 && P.msgs[n].kind == 'c', "a close is reported as a close");
    i = 0;
    frame f;
    sym_assert(read_frame(s.fresh, i, f) && f.op == 8 && f.data == std::string("\x03\xe8", 2), "and answered");
    sym_cover("closed");
  } else {
    s.end();
    sym_assert(P.msgs.size() == n + 1 && P.msgs[n].kind == 'e', "a lost connection is an error");
    sym_cover("lost");
  }
  sym_assert(s.done, "the session ends with the websocket");
}

// longer messages
HARNESS(wk_long)
{
  P = plan {};
  size_t step = STEPS[sym_choice(3)];
  static const size_t N[] = { 124, 125, 126, 127, 300 };
  size_t n = N[sym_param() % 100];
  bool text = sym_choice(2);
  sym_str a("?"), z("?");
  if (text) sym_assume((unsigned char) a[0] < 128 && (unsigned char) z[0] < 128);
  std::string d(n, 'm');
  d[0] = a[0];
  d[n - 1] = z[0];
  auto server = make_server();
  session s;
  s.start(server, step == 1 ? 17 : step, opening("/ws"));
  s.send(make_frame(text ? 1 : 2, true, d, "wxyz"));
  sym_assert(P.msgs.size() == 1 && P.msgs[0].kind == (text ? 't' : 'b'), "the message arrives");
  check_eq(P.msgs[0].text, d, "with its content");
  size_t i = 0;
  std::string data;
  bool fin = false;
  for (size_t k = 0; !fin; ++k) {
    frame f;
    if (!read_frame(s.fresh, i, f)) sym_fail("the answer is written");
    sym_assert(f.op == (k ? 0u : text ? 1u : 2u), "with its kind");
    data += f.data;
    fin = f.fin;
  }
  check_eq(data, d, "and its content");
  sym_assert(i == s.fresh.size(), "nothing else is written");
  s.end();
  sym_cover("long");
}

// the handler ends the websocket
HARNESS(wk_end)
{
  P = plan {};
  size_t step = STEPS[sym_choice(3)];
  P.n = sym_choice(2);
  P.end = 1 + (int) sym_choice(2);
  static const unsigned CODE[] = { 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011 };
  if (P.end == 2) P.code = CODE[sym_choice(9)];
  auto server = make_server();
  session s;
  s.start(server, step, opening("/ws"));
  std::string w = s.out.substr(s.out.find("\r\n\r\n") + 4);
  if (P.n) {
    s.send(make_frame(1, true, "m", "abcd"));
    w += s.fresh;
  }
  if (P.end == 2) {
    sym_assert(!s.done, "a close waits for its answer");
    s.send(make_frame(8, true, std::string() + (char) (P.code >> 8) + (char) P.code, "qwer"));
    w += s.fresh;
    sym_assert(!P.failed, "the close succeeds");
  }
  observe(w);
  size_t i = 0;
  frame f;
  if (P.n) sym_assert(read_frame(w, i, f) && f.op == 1 && f.data == "m", "the message before");
  if (P.end == 2) {
    sym_assert(read_frame(w, i, f) && f.op == 8 && f.fin && f.data.size() == 2, "the close");
    sym_assert((unsigned char) f.data[0] * 256u + (unsigned char) f.data[1] == P.code, "with the code given");
    sym_cover("code");
  } else sym_cover("returned");
  sym_assert(i == w.size(), "nothing else is written");
  // nothing is taken for a request any more
  sym_assert(s.done && !s.failed, "the session ends with the handler");
  s.send("GET / HTTP/1.1\r\n\r\n");
  sym_assert(plain_calls == 0 && s.fresh.empty(), "what follows a websocket is not a request");
}

// time limits reach the connection
HARNESS(wk_time)
{
  P = plan {};
  size_t a = sym_choice(3), b = sym_choice(3);
  if (a) P.shake = a == 1 ? -1 : 1 + (long long) (sym_u64() >> 2);
  if (b) P.idle = b == 1 ? -1 : 2 + (long long) (sym_u64() >> 2);
  size_t p = sym_choice(3);
  P.pings = (int) p - 1;
  auto server = make_server();
  session s;
  s.start(server, 0, opening("/ws"));
  auto& d = boost::asio::stand_in::durations();
  size_t i = 0;
  long long shake = a == 0 ? 30000000000ll : P.shake, idle = b == 0 ? 300000000000ll : P.idle;
  if (shake != -1) {
    sym_assert(i < d.size() && d[i] == shake, "the time limit of the handshake");
    ++i;
  }
  if (idle != -1) {
    sym_assert(i < d.size() && d[i] == (p == 1 ? idle : idle / 2), "the idle limit");
    ++i;
  }
  if (shake == -1 && idle == -1) sym_assert(d.empty(), "no limit");
  sym_cover("limits");
  s.end();
}
