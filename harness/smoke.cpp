#include "sym.h"
#include <fitoria/http/header/range.hpp>
#include <fitoria/encoding/base64.hpp>
using namespace fitoria;
HARNESS(h_b64)
{
  size_t n = sym_param();
  sym_str s(n);
  std::string o;
  encoding::base64::standard_encoder e;
  e.encode(s.begin(), s.end(), std::back_inserter(o));
  std::string q;
  encoding::base64::standard_decoder d;
  d.decode(o.begin(), o.end(), std::back_inserter(q));
  check_eq(q, s.sv(), "round trip");
  observe(o);
}
HARNESS(h_range)
{
  sym_str s("bytes=???-???");
  uint64_t tot = sym_u64();
  auto r = http::header::range::parse(s.sv(), tot);
  sym_observe(r.has_value());
  if (r) { sym_observe((*r)[0].offset); sym_cover("ok");
    sym_assert((*r)[0].offset + (*r)[0].length <= tot || (*r)[0].offset<=999, "in"); }
}
