#include "streams.h"
#include "bits.h"
#include <fitoria/web/any_async_readable_stream.hpp>
#include <fitoria/web/async_read_until_eof.hpp>
#include <fitoria/web/async_readable_vector_stream.hpp>
#include <fitoria/web/middleware/detail/async_deflate_stream.hpp>
#include <fitoria/web/middleware/detail/async_inflate_stream.hpp>
using namespace fitoria;
using namespace fitoria::web;
using middleware::detail::async_inflate_stream;
using middleware::detail::async_deflate_stream;

namespace {
script cut(const std::string& all, size_t a, size_t b)
{
  script s;
  s.pieces.push_back(all.substr(0, a));
  s.pieces.push_back(all.substr(a, b - a));
  s.pieces.push_back(all.substr(b));
  return s;
}
script bytewise(const std::string& all)
{
  script s;
  for (char c : all) s.pieces.emplace_back(1, c);
  return s;
}
script pieces(const std::string& all)
{
  if (sym_choice(2)) return bytewise(all);
  size_t a = (size_t) sym_choice(all.size() + 1);
  return cut(all, a, all.size());
}
struct result {
  bool ok;
  std::string text;
  std::error_code ec;
};
template <class S>
result inflate(script& s)
{
  auto r = run(async_read_until_eof<std::string>(S(script_stream { &s })));
  if (r) return { true, std::move(*r), {} };
  return { false, {}, r.error() };
}
}

// content of n literals, the ones after the first out of a class of 4
std::string content(size_t n, unsigned char base)
{
  sym_str t(n);
  for (size_t i = 0; i < n; ++i) {
    if (i == 0) sym_assume(base >= 144 ? t[i] >= 144 : t[i] < 144);
    else sym_assume(t[i] >> 2 == base >> 2);
  }
  return std::string(t.sv());
}

// param: content length; a stream of blocks
HARNESS(dc_valid)
{
  size_t n = sym_param() % 10, kind = sym_param() / 10;
  sym_str t(n);
  std::string plain;
  bitwriter w;
  switch (kind) {
  case 0:
    plain = t.sv();
    w.stored(plain, true);
    break;
  case 1:
    plain = t.sv();
    w.stored(plain.substr(0, n / 2), false);
    w.stored(plain.substr(n / 2), true);
    break;
  case 2:
    plain = content(n, 'a');
    w.fixed(true);
    for (unsigned char c : plain) w.lit(c, false);
    w.eob();
    break;
  case 3:
    plain = content(n, 0xf0);
    w.fixed(false);
    for (unsigned char c : plain) w.lit(c, true);
    w.eob();
    w.stored("", true);
    break;
  case 5: {
    w.dynamic(true);
    for (size_t i = 0; i < n; ++i) {
      unsigned c = (unsigned) sym_concretize(t[i] & 1);
      plain.push_back((char) ('a' + c));
      if (c) w.huff(2, 2);
      else w.huff(0, 1);
    }
    w.huff(6, 3);
    break;
  }
  case 4: {
    plain = content(n, 'a');
    w.fixed(true);
    for (unsigned char c : plain) w.lit(c, false);
    static const unsigned lens[] = { 3, 5, 10 };
    unsigned len = lens[sym_choice(3)], dist = 1 + (unsigned) sym_choice(n < 4 ? n : 4);
    w.match(len, dist);
    for (unsigned i = 0; i < len; ++i) plain.push_back(plain[plain.size() - dist]);
    w.eob();
    break;
  }
  }
  script s = pieces(w.out);
  result r = inflate<async_inflate_stream<script_stream>>(s);
  sym_assert(r.ok, "a valid stream is decompressed");
  check_eq(r.text, plain, "decompressed content");
  observe(r.text);
  sym_cover("valid");
}
// param: bit 0: fixed Huffman codes, bit 1: bytes after the end
HARNESS(dc_cut)
{
  bitwriter w;
  std::string plain;
  if (sym_param() & 1) {
    plain = content(1, 'a') + "a";
    w.fixed(true);
    for (unsigned char c : plain) w.lit(c, false);
    w.eob();
  } else {
    sym_str t(3);
    plain = t.sv();
    w.stored(plain, true);
  }
  std::string all = w.out;
  if (sym_param() & 2) {
    sym_str x(1 + (size_t) sym_choice(2));
    all += x.sv();
    script s = pieces(all);
    result r = inflate<async_inflate_stream<script_stream>>(s);
    if (r.ok) check_eq(r.text, plain, "nothing after the end becomes content");
    sym_cover("trailing");
  } else {
    all = all.substr(0, (size_t) sym_choice(all.size()));
    bool none = all.empty();
    script s = pieces(all);
    result r = inflate<async_inflate_stream<script_stream>>(s);
    sym_assert(r.ok == none, "a truncated stream is an error, no stream is none");
    if (none) check_eq(r.text, "", "no stream, no content");
    if (none) sym_cover("empty");
    else sym_cover("truncated");
  }
}
// a piece which decompresses to the size of the output buffer, or one byte
// less or more, with nothing left over; param: difference + 1
HARNESS(dc_full)
{
  sym_str u(2);
  sym_assume(u[1] < 144);
  unsigned char t[5] = { 0x90, 0x91, 0xff, 0xe0, u[1] };
  std::string head(257 + sym_param(), 'x');
  head[0] = (char) u[0];
  std::string plain = head;
  bitwriter w;
  w.stored(head, false);
  w.fixed(true);
  for (int i = 0; i < 4; ++i) {
    w.lit(t[i], true);
    plain.push_back((char) t[i]);
  }
  for (int i = 0; i < 253; ++i) w.len258();
  plain.append(258 * 253, (char) t[3]);
  size_t at = w.out.size();
  w.lit(t[4], false);
  plain.push_back((char) t[4]);
  w.eob();
  script s = cut(w.out, at - (size_t) sym_choice(2), at + (size_t) sym_choice(2));
  result r = inflate<async_inflate_stream<script_stream>>(s);
  sym_assert(r.ok, "a valid stream is decompressed");
  check_eq(r.text, plain, "decompressed content");
  sym_cover("full");
}
// any bytes at all: cut or not makes no difference; param: number of bytes,
// from 2 bytes on other than fixed Huffman codes in the first block
HARNESS(dc_any)
{
  sym_str t(sym_param());
  if (t.n > 1) sym_assume((t[0] & 6) != 2);
  script a;
  a.pieces.emplace_back(t.sv());
  script b = pieces(std::string(t.sv()));
  result x = inflate<async_inflate_stream<script_stream>>(a);
  result y = inflate<async_inflate_stream<script_stream>>(b);
  sym_assert(x.ok == y.ok, "the same outcome however cut");
  if (x.ok && y.ok) check_eq(x.text, y.text, "the same content however cut");
  sym_cover(x.ok ? "any valid" : "any invalid");
}
