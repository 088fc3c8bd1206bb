// Decompression with gzip and Brotli behind stand-ins of the libraries, and
// the middleware which undoes the content codings of a request.
#include "streams.h"
#include "bits.h"
#include "codec.h"
#include <chrono>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <boost/json.hpp>
#include <boost/pfr.hpp>
#include <boost/url.hpp>
#include <fitoria/web/any_routable.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/handler.hpp>
#include <fitoria/web/middleware/decompress.hpp>
#include <fitoria/web/middleware/detail/async_brotli_deflate_stream.hpp>
#include <fitoria/web/route.hpp>
#include <fitoria/web/router.hpp>
#include <fitoria/web/scope.hpp>
using namespace fitoria;
using namespace fitoria::web;
using middleware::detail::async_brotli_deflate_stream;
using middleware::detail::async_brotli_inflate_stream;
using middleware::detail::async_gzip_inflate_stream;
using http::field;

namespace {
script pieces(const std::string& all)
{
  script s;
  if (sym_choice(2)) {
    for (char c : all) s.pieces.emplace_back(1, c);
    return s;
  }
  size_t a = (size_t) sym_choice(all.size() + 1);
  s.pieces.push_back(all.substr(0, a));
  s.pieces.push_back(all.substr(a));
  return s;
}
struct result {
  bool ok = false;
  std::string text;
  std::error_code ec;
};
template <class S>
result read(S s)
{
  auto r = run(async_read_until_eof<std::string>(std::move(s)));
  if (r) return { true, std::move(*r), {} };
  return { false, {}, r.error() };
}
result inflate_with(unsigned kind, script& s)
{
  result r;
  toy::live = toy::opened = 0;
  if (kind == 0) r = read(async_gzip_inflate_stream(script_stream { &s }));
  else if (kind == 1) r = read(async_brotli_inflate_stream(script_stream { &s }));
  else if (kind == 2) {
    any_async_readable_stream a = async_gzip_inflate_stream(script_stream { &s });
    any_async_readable_stream b(std::move(a));
    r = read(std::move(b));
  } else {
    any_async_readable_stream a = async_brotli_inflate_stream(script_stream { &s });
    any_async_readable_stream b(std::move(a));
    r = read(std::move(b));
  }
  sym_assert(toy::live == 0 && toy::opened == 1, "the decoder is released");
  return r;
}
}
// param: number of operations
HARNESS(dz_ops)
{
  unsigned kind = (unsigned) sym_choice(4);
  std::string in(1, kind % 2 ? 'B' : 'Z'), plain;
  bool bad = false;
  for (size_t i = 0; i < sym_param(); ++i) {
    switch (sym_choice(6)) {
    case 0: {
      char c = (char) sym_u8();
      in += 'L';
      in += c;
      plain += c;
      break;
    }
    case 1: in += std::string("R\0", 2); plain.append(65536, 'x'); break;
    case 2: in += "R\xff"; plain.append(65535, 'x'); break;
    case 3: in += "R\xfe"; plain.append(65537, 'x'); break;
    case 4: in += "D"; bad = true; break;
    case 5: in += "?"; bad = true; break;
    }
    if (bad) break;
  }
  if (!bad) in += 'E';
  script s = pieces(in);
  if (sym_choice(2)) s.end = std::make_error_code(std::errc::connection_reset);
  std::error_code e = s.end;
  result r = inflate_with(kind, s);
  if (bad) {
    sym_assert(!r.ok, "an invalid stream is an error");
    sym_cover("bad");
  } else if (e) {
    sym_assert(!r.ok && r.ec == e, "the error of the stream below");
    sym_cover("failed");
  } else {
    sym_assert(r.ok, "a valid stream is decompressed");
    check_eq(r.text, plain, "decompressed content");
    sym_cover("valid");
  }
}
HARNESS(dz_cut)
{
  unsigned kind = (unsigned) sym_choice(2);
  sym_str t(2);
  std::string in = toy::encode(t.sv(), kind ? 'B' : 'Z');
  if (sym_choice(2)) {
    in.resize((size_t) sym_choice(in.size()));
    bool none = in.empty();
    script s = pieces(in);
    result r = inflate_with(kind, s);
    sym_assert(r.ok == none && r.text.empty(), "a truncated stream is an error");
    sym_cover(none ? "empty" : "truncated");
  } else {
    sym_str x(1 + (size_t) sym_choice(3));
    in += x.sv();
    script s = pieces(in);
    result r = inflate_with(kind, s);
    if (r.ok) check_eq(r.text, t.sv(), "nothing after the end becomes content");
    sym_cover("trailing");
  }
}
// param: 0 small, 1 more output than one buffer
HARNESS(dz_encode)
{
  toy::live = toy::opened = 0;
  {
    script s;
    if (sym_param()) {
      s.pieces.assign(1 + (size_t) sym_choice(2), std::string(40000, 'y'));
      char c = (char) sym_u8();
      s.pieces.push_back(std::string(1, c));
      toy::enc_lazy = sym_choice(2);
      toy::enc_room = 100000;
    } else {
      s = sym_script(2, 2, true);
      toy::enc_lazy = sym_choice(2);
      toy::enc_room = 2 + 3 * (size_t) sym_choice(2);
    }
    std::string all = s.all();
    std::error_code e = s.end;
    result r = read(async_brotli_inflate_stream(async_brotli_deflate_stream(script_stream { &s })));
    if (e) {
      sym_assert(!r.ok && r.ec == e, "the error of the stream below");
      sym_cover("failed");
    } else {
      sym_assert(r.ok, "what was compressed can be decompressed");
      check_eq(r.text, all, "what was compressed comes back");
      sym_cover("back");
    }
  }
  sym_assert(toy::live == 0, "encoder and decoder are released");
}

namespace {
struct coding {
  const char* name;
  int kind; // 0 identity, 1 deflate, 2 gzip, 3 brotli, 4 unknown
};
const coding codings[] = { { "identity", 0 }, { "deflate", 1 }, { "gzip", 2 }, { "brotli", 3 }, { "br", 3 }, { "GZip", 2 }, { "DEFLATE", 1 }, { "compress", 4 }, { "gzi", 4 }, { "deflatex", 4 } };
std::string coded(int kind, const std::string& s)
{
  switch (kind) {
  case 1: {
    bitwriter w;
    w.stored(s, true);
    return w.out;
  }
  case 2: return toy::encode(s, 'Z');
  case 3: return toy::encode(s, 'B');
  }
  return s;
}
}
// param: number of codings; 10 + n: on several lines
HARNESS(dz_middleware)
{
  size_t n = sym_param() % 10;
  bool lines = sym_param() >= 10;
  sym_str t(2);
  std::string plain(t.sv()), body = plain;
  http::header_map h;
  h.insert("x-before", "1");
  bool unknown = false;
  std::string value;
  for (size_t i = 0; i < n; ++i) {
    auto& c = codings[sym_choice(sizeof codings / sizeof *codings)];
    if (c.kind == 4) unknown = true;
    body = coded(c.kind, body);
    if (i && lines) {
      h.insert(field::content_encoding, value);
      value.clear();
    } else if (i) {
      value += i == 1 ? ", " : " ,";
    }
    value += c.name;
  }
  if (n) h.insert(field::content_encoding, value);
  h.insert("x-after", "2");
  script s;
  if (sym_choice(2))
    for (char c : body) s.pieces.emplace_back(1, c);
  else s.pieces.push_back(body);
  toy::live = 0;
  {
    int ran = 0;
    auto handler_fn = [&](request& r) -> awaitable<response> {
      ++ran;
      auto x = co_await async_read_until_eof<std::string>(r.body());
      sym_assert(x.has_value(), "the body is readable");
      if (x) check_eq(*x, plain, "the handler reads the content with all codings undone");
      sym_assert(!r.headers().get(field::content_encoding), "no coding is left to undo");
      sym_assert(r.headers().get("x-before") == optional<std::string_view>("1") && r.headers().get("x-after") == optional<std::string_view>("2"), "other headers stay");
      sym_assert(r.method() == http::verb::put && r.path().match_path() == "/p" && r.query().get("k") == optional<std::string_view>("v"), "the rest of the request stays");
      co_return response::accepted().build();
    };
    auto rt = any_routable<request&, awaitable<response>>(route::put<"/">(handler_fn).use(middleware::decompress()).template build<request&, awaitable<response>>(handler()));
    query_map q;
    q.set("k", "v");
    request req(connect_info(), path_info("/", "/p", {}), http::verb::put, http::version::v1_1, std::move(h), std::move(q), script_stream { &s }, {});
    response r = run(rt(req));
    sym_assert(ran == !unknown, "the handler runs unless a coding is unknown");
    sym_assert(r.status() == (unknown ? http::status::bad_request : http::status::accepted), "status");
    sym_cover(unknown ? "unknown" : "decoded");
  }
  sym_assert(toy::live == 0, "decoders are released");
}
