#include "streams.h"
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/any_body.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <fitoria/web/async_write_chunks.hpp>
using namespace fitoria;
using namespace fitoria::web;

namespace {
template <class C>
std::string str(const C& c)
{
  return std::string((const char*) c.data(), c.size() * sizeof(*c.data()));
}
template <class C, class S>
void read_all(S&& src, script& s)
{
  auto r = run(async_read_until_eof<C>(src));
  sym_assert(r.has_value() == !s.end, "reading to the end succeeds exactly when the stream does not fail");
  if (r) {
    check_eq(str(*r), s.all(), "all pieces in order");
    observe(str(*r));
    sym_cover("read");
  } else {
    sym_assert(r.error() == s.end, "the error of the stream");
    sym_cover("failed");
  }
  sym_assert(s.reads == s.pieces.size() + 1 && s.after == 0, "every piece is taken once, nothing is read after the end");
}
}
// param: pieces
HARNESS(bd_eof)
{
  size_t n = sym_param() % 10, len = sym_param() / 10;
  script s = sym_script(n, len, true);
  switch (sym_choice(8)) {
  case 0: read_all<std::string>(script_stream { &s }, s); break;
  case 1: read_all<bytes>(script_stream { &s }, s); break;
  case 2: read_all<std::vector<unsigned char>>(script_stream { &s }, s); break;
  case 3: {
    any_async_readable_stream a(script_stream { &s });
    read_all<std::string>(a, s);
    break;
  }
  case 4: {
    any_async_readable_stream a { async_readable_vector_stream() };
    any_async_readable_stream b(script_stream { &s });
    a = std::move(b);
    any_async_readable_stream c(std::move(a));
    read_all<bytes>(c, s);
    break;
  }
  case 5: {
    any_body b(any_body::chunked {}, script_stream { &s });
    sym_assert(std::holds_alternative<any_body::chunked>(b.size()), "kind of body");
    any_body c;
    sym_assert(std::holds_alternative<any_body::null>(c.size()), "an empty body");
    c = std::move(b);
    sym_assert(std::holds_alternative<any_body::chunked>(c.size()), "kind of body after a move");
    read_all<std::vector<char>>(c.stream(), s);
    break;
  }
  case 6: {
    any_body b(any_body::sized { 7 }, any_async_readable_stream(script_stream { &s }));
    any_body c(std::move(b));
    auto* z = std::get_if<any_body::sized>(&c.size());
    sym_assert(z && z->size == optional<std::size_t>(7), "stated size");
    read_all<std::string>(c.stream(), s);
    break;
  }
  case 7: {
    // one piece at a time
    any_async_readable_stream a(script_stream { &s });
    for (auto& p : s.pieces) {
      auto r = run(a.async_read_some());
      sym_assert(r && *r, "a piece");
      if (r && *r) check_eq(as_text(**r), p, "pieces keep their borders");
    }
    auto r = run(a.async_read_some());
    sym_assert(r.has_value() == (bool) s.end, "then the end");
    if (r) sym_assert(!*r && r->error() == s.end, "or the error");
    sym_cover("pieces");
  }
  }
}
// a body held in memory is delivered once
HARNESS(bd_vector)
{
  size_t n = sym_param();
  sym_str t(n);
  auto piece = [&](auto& s) {
    auto r = run(s.async_read_some());
    sym_assert(r.has_value() == (n != 0), "one piece unless empty");
    if (r) {
      sym_assert(r->has_value(), "never fails");
      if (*r) check_eq(as_text(**r), t.sv(), "the bytes given");
    }
  };
  auto done = [&](auto& s) {
    sym_assert(!run(s.async_read_some()), "then the end");
    sym_assert(!run(s.async_read_some()), "for ever");
  };
  bytes b(n);
  if (n) std::memcpy(b.data(), t.p, n);
  auto use = [&](async_readable_vector_stream s) {
    switch (sym_choice(4)) {
    case 0:
      piece(s);
      done(s);
      break;
    case 1: {
      auto c = s;
      piece(c);
      done(c);
      piece(s);
      done(s);
      break;
    }
    case 2: {
      auto c = std::move(s);
      piece(c);
      async_readable_vector_stream d;
      done(d);
      d = std::move(c);
      done(d);
      break;
    }
    case 3: {
      piece(s);
      auto c = s;
      done(c);
      done(s);
      auto r = run(async_read_until_eof<std::string>(s));
      sym_assert(r && r->empty(), "reading an ended stream gives nothing");
      break;
    }
    }
  };
  switch (sym_choice(4)) {
  case 0: use(async_readable_vector_stream(b)); break;
  case 1: use(async_readable_vector_stream(std::span<const std::byte>(b))); break;
  case 2: use(async_readable_vector_stream(std::span<const char>(t.p, n))); break;
  case 3: {
    bytes c = b;
    use(async_readable_vector_stream(std::span<std::byte>(c)));
    sym_assert(c == b, "the source is not changed");
    break;
  }
  }
  observe(t.sv());
  sym_cover("vector");
}
// ---- a body on the wire in chunks
namespace {
int hexd(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }
// reads a chunked body; returns the number of bytes it takes, 0 when it does not end
size_t unchunk(std::string_view w, std::string& body)
{
  size_t i = 0;
  for (;;) {
    size_t n = 0, d = 0;
    while (i < w.size() && hexd((unsigned char) w[i]) >= 0) {
      n = n * 16 + (size_t) hexd((unsigned char) w[i++]);
      ++d;
    }
    if (!d || i + 2 > w.size() || w[i] != '\r' || w[i + 1] != '\n') return 0;
    i += 2;
    if (n == 0) {
      if (i + 2 > w.size() || w[i] != '\r' || w[i + 1] != '\n') return 0;
      return i + 2;
    }
    if (i + n + 2 > w.size()) return 0;
    body += w.substr(i, n);
    i += n;
    if (w[i] != '\r' || w[i + 1] != '\n') return 0;
    i += 2;
  }
}
void chunks(script& s)
{
  sink_state k;
  static const size_t ST[] = { 0, 1, 3 };
  k.step = ST[sym_choice(3)];
  switch (sym_choice(3)) {
  case 0: break;
  case 1: k.limit = sym_choice(12); break;
  case 2: k.limit = 30; break;
  }
  any_async_readable_stream from(script_stream { &s });
  sink_stream to { &k };
  auto r = run(async_write_chunks(to, from));
  std::string body;
  size_t used = unchunk(k.out, body);
  observe(k.out);
  if (r) {
    sym_assert(!s.end && !k.failed, "success only when neither side failed");
    sym_assert(used == k.out.size() && used != 0, "exactly one complete chunked body is written");
    check_eq(body, s.all(), "it carries all pieces in order");
    sym_cover("written");
  } else if (k.failed) {
    sym_assert(r.error() == make_error_code(boost::asio::error::broken_pipe), "the error of the connection");
    sym_assert(used == 0, "a body that was cut off is not ended");
    sym_cover("write error");
  } else {
    sym_assert(s.end && r.error() == s.end, "the error of the body");
    sym_assert(used == 0, "a body that failed is not ended");
    sym_assert(s.after == 0, "nothing is read after the end");
    sym_cover("read error");
  }
}
}
HARNESS(bd_chunks)
{
  script s = sym_script(sym_param() % 10, sym_param() / 10, true);
  chunks(s);
}
// sizes with several digits
HARNESS(bd_big)
{
  static const size_t Z[] = { 9, 10, 15, 16, 17, 255, 256, 4095, 4096 };
  size_t z = Z[sym_param()];
  script s;
  sym_str c("??");
  std::string p(z, 'x');
  p[0] = c.p[0];
  p[z - 1] = c.p[1];
  s.pieces = { p, "tail" };
  chunks(s);
}
