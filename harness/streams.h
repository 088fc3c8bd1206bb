// Streams the harnesses feed to and collect from the code under test.
#pragma once
#include "coro.h"
#include "sym.h"
#include <fitoria/core/bytes.hpp>
#include <fitoria/core/expected.hpp>
#include <chrono>
#include <string>
#include <vector>

// a body in pieces: each piece is text, an end or an error comes after the last
struct script {
  std::vector<std::string> pieces;
  std::error_code end; // no error: end of the stream
  size_t at = 0;
  size_t reads = 0, after = 0; // reads after the end was reported
  std::string all() const
  {
    std::string r;
    for (auto& p : pieces) r += p;
    return r;
  }
};
inline std::string as_text(const fitoria::bytes& b) { return std::string((const char*) b.data(), b.size()); }
struct script_stream {
  using is_async_readable_stream = void;
  script* s;
  auto async_read_some() -> fitoria::awaitable<fitoria::optional<fitoria::expected<fitoria::bytes, std::error_code>>>
  {
    ++s->reads;
    if (s->at < s->pieces.size()) {
      auto& p = s->pieces[s->at++];
      fitoria::bytes b(p.size());
      if (!p.empty()) std::memcpy(b.data(), p.data(), p.size());
      co_return fitoria::expected<fitoria::bytes, std::error_code>(std::move(b));
    }
    if (s->at > s->pieces.size()) ++s->after;
    s->at = s->pieces.size() + 1;
    if (s->end) co_return fitoria::expected<fitoria::bytes, std::error_code>(fitoria::unexpect, s->end);
    co_return fitoria::nullopt;
  }
};
// pieces of the chosen sizes, contents symbolic
inline script sym_script(size_t n, size_t maxlen, bool may_fail)
{
  script s;
  for (size_t i = 0; i < n; ++i) {
    sym_str t((size_t) sym_choice(maxlen + 1));
    s.pieces.emplace_back(t.sv());
  }
  if (may_fail && sym_choice(2)) s.end = std::make_error_code(std::errc::connection_reset);
  return s;
}

// the other end of a connection: bytes written arrive in parts of at most
// `step` bytes (0: any), after `limit` bytes writing fails
struct sink_state {
  std::string out;
  size_t step = 0;
  size_t limit = ~size_t(0);
  size_t writes = 0;
  bool failed = false;
};
struct sink_stream {
  using executor_type = sym_executor;
  sink_state* s;
  sym_executor get_executor() const { return {}; }
  template <class B, class T>
  auto async_write_some(const B& b, T&& t)
  {
    return boost::asio::async_initiate<T, void(boost::system::error_code, std::size_t)>(
        [s = s](auto h, const B& b) {
          ++s->writes;
          size_t n = 0;
          boost::system::error_code ec;
          size_t room = s->limit - s->out.size();
          for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) {
            boost::asio::const_buffer c(*it);
            size_t k = c.size();
            if (s->step && k > s->step - n) k = s->step - n;
            if (k > room) k = room;
            if (k) s->out.append((const char*) c.data(), k);
            n += k;
            room -= k;
            if (k != c.size()) break;
          }
          if (n == 0 && room == 0 && boost::asio::buffer_size(b) != 0) {
            ec = boost::asio::error::broken_pipe;
            s->failed = true;
          }
          sym_context::get().push([h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
        },
        t, b);
  }
};

// a connection: gives bytes in parts of at most `step`, then ends, fails or
// stays silent; what is written goes to `out`
struct conn_state : sink_state {
  std::string in;
  size_t at = 0;
  size_t rstep = 0;
  boost::system::error_code end = boost::asio::error::eof;
  bool shut = false;
  // time limits: the one in force (ns, none: -1), when it was set (bytes
  // written then) and whether the connection was ever used under another one
  long long limit_ns = -1, want_ns = -2;
  std::vector<size_t> armed;
  bool wrong_time = false;
  void used()
  {
    if (want_ns != -2 && limit_ns != want_ns) wrong_time = true;
  }
};
struct conn_stream : sink_stream {
  conn_state* c;
  using socket_type = fitoria::test_stream;
  explicit conn_stream(conn_state* s)
      : sink_stream { s }
      , c(s)
  {
  }
  template <class B, class T>
  auto async_read_some(const B& b, T&& t)
  {
    return boost::asio::async_initiate<T, void(boost::system::error_code, std::size_t)>(
        [c = c](auto h, const B& b) {
          c->used();
          size_t n = 0;
          boost::system::error_code ec;
          size_t left = c->in.size() - c->at;
          if (c->rstep && left > c->rstep) left = c->rstep;
          for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) {
            boost::asio::mutable_buffer m(*it);
            size_t k = m.size() < left ? m.size() : left;
            if (k) std::memcpy(m.data(), c->in.data() + c->at, k);
            c->at += k;
            left -= k;
            n += k;
          }
          if (n == 0 && boost::asio::buffer_size(b) != 0) ec = c->end;
          sym_context::get().push([h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
        },
        t, b);
  }
  template <class D>
  void expires_after(D d)
  {
    c->limit_ns = (long long) std::chrono::steady_clock::duration(d).count();
    c->armed.push_back(c->out.size());
  }
  void expires_never() { c->limit_ns = -1; }
  template <class B, class T>
  auto async_write_some(const B& b, T&& t)
  {
    c->used();
    return sink_stream::async_write_some(b, std::forward<T>(t));
  }
  // only the type of the socket is used: the connection's ends are named "localhost"
  fitoria::test_stream& socket()
  {
    alignas(64) static unsigned char dummy[1024];
    return reinterpret_cast<fitoria::test_stream&>(dummy);
  }
  template <class W>
  void shutdown(W, boost::system::error_code& ec)
  {
    ec = {};
    c->shut = true;
  }
};
