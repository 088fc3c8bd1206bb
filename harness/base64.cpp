#include "sym.h"
#include <fitoria/encoding.hpp>
using namespace fitoria::encoding::base64;

namespace {
// RFC 4648 reference
const char* const STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const char* const URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
char ref_char(unsigned v, bool url)
{
  return (url ? URL : STD)[v & 63];
}
signed char ref_vals[2][256];
void ref_init()
{
  for (int u = 0; u < 2; ++u) {
    for (int i = 0; i < 256; ++i) ref_vals[u][i] = -1;
    for (int i = 0; i < 64; ++i) ref_vals[u][(unsigned char) (u ? URL : STD)[i]] = (signed char) i;
  }
}
int ref_val(unsigned char c, bool url)
{
  return ref_vals[url][c];
}
std::string ref_encode(std::string_view s, bool url, bool pad)
{
  std::string r;
  size_t i = 0;
  auto u = [&](size_t k) { return (unsigned) (unsigned char) s[k]; };
  for (; i + 3 <= s.size(); i += 3) {
    unsigned w = u(i) << 16 | u(i + 1) << 8 | u(i + 2);
    for (int k = 3; k >= 0; --k) r.push_back(ref_char(w >> (6 * k) & 63, url));
  }
  if (s.size() - i == 1) {
    unsigned w = u(i) << 4;
    r.push_back(ref_char(w >> 6, url));
    r.push_back(ref_char(w & 63, url));
    if (pad) r += "==";
  } else if (s.size() - i == 2) {
    unsigned w = (u(i) << 8 | u(i + 1)) << 2;
    r.push_back(ref_char(w >> 12, url));
    r.push_back(ref_char(w >> 6 & 63, url));
    r.push_back(ref_char(w & 63, url));
    if (pad) r += "=";
  }
  return r;
}

template <class Enc, class It>
std::string run_encode(padding p, It f, It l, size_t cut)
{
  std::string o;
  Enc e(p);
  e.encode_next(f, f + cut, std::back_inserter(o));
  e.encode_next(f + cut, l, std::back_inserter(o));
  e.encode_rest(std::back_inserter(o));
  return o;
}

// how a decoder is fed: whole range, one byte at a time, or in two pieces
template <class Dec, class B>
void roundtrip(bool url, bool pad, const B* f, size_t n, size_t cut)
{
  auto enc = url ? run_encode<url_encoder>(pad ? padding::yes : padding::no, f, f + n, cut)
                 : run_encode<standard_encoder>(pad ? padding::yes : padding::no, f, f + n, cut);
  std::string_view in((const char*) f, n);
  check_eq(enc, ref_encode(in, url, pad), "encoder output is the RFC 4648 text");
  std::string q;
  Dec d;
  auto c = sym_concretize(cut < enc.size() ? cut : enc.size());
  d.decode_next(enc.begin(), enc.begin() + (long) c, std::back_inserter(q));
  d.decode_next(enc.begin() + (long) c, enc.end(), std::back_inserter(q));
  sym_assert(!d.is_error() && d.is_done(), "decoder accepts what the encoder wrote");
  check_eq(q, in, "decode(encode(x)) == x");
  std::string q2;
  Dec d2;
  d2.decode(enc.begin(), enc.end(), std::back_inserter(q2));
  check_eq(q2, in, "one-shot decode(encode(x)) == x");
  observe(enc);
}
}

// encoding and decoding back, every byte string of the length, every way of
// cutting the input in two
HARNESS(b64_roundtrip)
{
  size_t n = sym_param() % 100;
  sym_str s(n);
  bool url = sym_choice(2), pad = sym_choice(2);
  size_t cut = sym_choice(n + 1);
  auto u = (const std::uint8_t*) s.p;
  if (sym_param() >= 100) {
    if (url) roundtrip<url_decoder>(url, pad, u, n, cut);
    else roundtrip<standard_decoder>(url, pad, u, n, cut);
  } else {
    if (url) roundtrip<url_decoder>(url, pad, s.p, n, cut);
    else roundtrip<standard_decoder>(url, pad, s.p, n, cut);
  }
  // the same encoder object can be used again after a complete encode
  sym_cover("roundtrip");
}

HARNESS(b64_encoder_reuse)
{
  size_t n = sym_param();
  sym_str a(n), b(n);
  bool pad = sym_choice(2);
  standard_encoder e(pad ? padding::yes : padding::no);
  std::string o;
  e.encode(a.begin(), a.end(), std::back_inserter(o));
  e.encode(b.begin(), b.end(), std::back_inserter(o));
  check_eq(o, ref_encode(a.sv(), false, pad) + ref_encode(b.sv(), false, pad), "encoder restarts after encode");
  observe(o);
}

// the decoder on arbitrary bytes: exact language, output, absorbing error
template <class Dec, class B>
static void decode_any(bool url, size_t n)
{
  sym_str s(n);
  size_t mode = sym_choice(2);
  ref_init();
  auto f = (const B*) s.p;
  std::string out;
  Dec d;
  // reference automaton
  size_t pos = 0;      // alphabet characters seen
  size_t pads = 0;
  bool err = false;
  std::string want;
  unsigned acc = 0;
  bool threw = false;
  if (mode == 0) {
    // byte at a time, state visible after each
    for (size_t i = 0; i < n; ++i) {
      d.decode_next(f[i], std::back_inserter(out));
      if (!err) {
        int v = ref_val(s[i], url);
        if (s[i] == '=') {
          size_t m = pos % 4;
          if (m < 2 || pads + 1 > 4 - m) err = true;
          else ++pads;
        } else if (v < 0 || pads) {
          err = true;
        } else {
          unsigned m = pos % 4;
          if (m == 1) want.push_back((char) (acc << 2 | (unsigned) v >> 4));
          if (m == 2) want.push_back((char) (acc << 4 | (unsigned) v >> 2));
          if (m == 3) want.push_back((char) (acc << 6 | (unsigned) v));
          acc = (unsigned) v;
          ++pos;
        }
      }
      sym_assert(d.is_error() == err, "decoder reports an error exactly at the first malformed byte and keeps it");
      check_eq(out, want, "decoded bytes so far");
      size_t m = pos % 4;
      bool done = !err && m != 1 && (pads == 0 || pads == 4 - m);
      sym_assert(d.is_done() == done, "decoder is done exactly at a complete text");
      if (done) sym_cover("done");
      if (err) sym_cover("error");
    }
  } else {
    std::string o2;
    for (size_t i = 0; i < n && !err; ++i) {
      int v = ref_val(s[i], url);
      if (s[i] == '=') {
        size_t m = pos % 4;
        if (m < 2 || pads + 1 > 4 - m) err = true;
        else ++pads;
      } else if (v < 0 || pads) {
        err = true;
      } else {
        unsigned m = pos % 4;
        if (m == 1) want.push_back((char) (acc << 2 | (unsigned) v >> 4));
        if (m == 2) want.push_back((char) (acc << 4 | (unsigned) v >> 2));
        if (m == 3) want.push_back((char) (acc << 6 | (unsigned) v));
        acc = (unsigned) v;
        ++pos;
      }
    }
    size_t m = pos % 4;
    bool done = !err && m != 1 && (pads == 0 || pads == 4 - m);
    try {
      d.decode(f, f + n, std::back_inserter(out));
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    sym_assert(threw == !done, "decode throws exactly for malformed or incomplete text");
    if (!threw) check_eq(out, want, "decoded bytes");
  }
  sym_observe(threw);
  observe(out);
}
HARNESS(b64_decode_std) { decode_any<standard_decoder, char>(false, sym_param()); }
HARNESS(b64_decode_url) { decode_any<url_decoder, char>(true, sym_param()); }
HARNESS(b64_decode_u8) { decode_any<standard_decoder, std::uint8_t>(false, sym_param()); }
