#include "sym.h"
#include <fitoria/core/from_string.hpp>
#include <limits>
using namespace fitoria;

namespace {
// value of the whole text as a base-10 integer literal, -?[0-9]+ (no '-' for
// unsigned types); st: 0 ok, 1 malformed, 2 does not fit
template <class T>
int ref_parse(std::string_view s, T& out)
{
  size_t i = 0;
  bool neg = false;
  if (std::numeric_limits<T>::is_signed && s.size() && s[0] == '-') {
    neg = true;
    i = 1;
  }
  if (i == s.size()) return 1;
  for (size_t k = i; k < s.size(); ++k) {
    unsigned char d = (unsigned char) (s[k] - '0');
    if (d > 9) return k == i ? 1 : 3; // 3: malformed after a digit run
  }
  // magnitudes are accumulated exactly; 20 digits at most by the bounds
  __uint128_t m = 0;
  for (size_t k = i; k < s.size(); ++k) m = m * 10 + (unsigned) (s[k] - '0');
  __uint128_t lim = neg ? (__uint128_t) std::numeric_limits<T>::max() + 1 : (__uint128_t) std::numeric_limits<T>::max();
  if (m > lim) return 2;
  out = (T) (neg ? 0 - (uint64_t) m : (uint64_t) m);
  return 0;
}
template <class T>
void check_int(std::string_view s)
{
  auto r = from_string<T>(s);
  T w {};
  int st = ref_parse<T>(s, w);
  if (st == 0) {
    sym_assert(r.has_value(), "a decimal number of the type is accepted");
    if (r) sym_assert(*r == w, "its value is returned");
    sym_cover("ok");
  } else {
    sym_assert(!r.has_value(), "anything else is an error");
    if (!r && st == 1) {
      sym_assert(r.error() == std::make_error_code(std::errc::invalid_argument), "not a number: invalid_argument");
    }
    if (!r && st == 2) {
      sym_assert(r.error() == std::make_error_code(std::errc::result_out_of_range), "too big: result_out_of_range");
      sym_cover("range");
    }
  }
  sym_observe(r.has_value());
  sym_observe(r ? (uint64_t) *r : 0);
}
}
HARNESS(fs_i8) { sym_str s(sym_param()); check_int<signed char>(s.sv()); }
HARNESS(fs_u8) { sym_str s(sym_param()); check_int<unsigned char>(s.sv()); }
HARNESS(fs_i16) { sym_str s(sym_param()); check_int<short>(s.sv()); }
HARNESS(fs_u16) { sym_str s(sym_param()); check_int<unsigned short>(s.sv()); }
HARNESS(fs_i32) { sym_str s(sym_param()); check_int<int>(s.sv()); }
HARNESS(fs_u32) { sym_str s(sym_param()); check_int<unsigned>(s.sv()); }
HARNESS(fs_i64) { sym_str s(sym_param()); check_int<long>(s.sv()); }
HARNESS(fs_u64) { sym_str s(sym_param()); check_int<unsigned long>(s.sv()); }
HARNESS(fs_ll) { sym_str s(sym_param()); check_int<long long>(s.sv()); }
HARNESS(fs_ull) { sym_str s(sym_param()); check_int<unsigned long long>(s.sv()); }
// around the limits of each type: long literal prefix, symbolic tail
template <class T>
static void limits(const char* t)
{
  sym_str s(t);
  check_int<T>(s.sv());
}
HARNESS(fs_limits)
{
  switch (sym_param()) {
  case 0: limits<int>("21474836??"); break;
  case 1: limits<int>("-21474836??"); break;
  case 2: limits<unsigned>("42949672??"); break;
  case 3: limits<long>("92233720368547758??"); break;
  case 4: limits<long>("-92233720368547758??"); break;
  case 5: limits<unsigned long>("184467440737095516??"); break;
  case 6: limits<unsigned long>("000000000000000000??"); break;
  case 7: limits<short>("327??"); break;
  case 8: limits<short>("-327??"); break;
  case 9: limits<unsigned short>("655??"); break;
  case 10: limits<unsigned>("+??"); break;
  case 11: limits<int>("4294967??6"); break;
  case 12: limits<unsigned long>("?84467440737095516?5"); break;
  case 13: limits<long>("?223372036854775807?"); break;
  }
}
static bool ieq(std::string_view s, const char* w)
{
  size_t n = 0;
  while (w[n]) ++n;
  if (s.size() != n) return false;
  bool r = true;
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = (unsigned char) s[i];
    unsigned char up = (unsigned char) (w[i] >= 'a' ? w[i] - 32 : w[i]);
    r = r & ((c == (unsigned char) w[i]) | (c == up));
  }
  return r;
}
HARNESS(fs_bool)
{
  sym_str s(sym_param());
  auto v = s.sv();
  auto r = from_string<bool>(v);
  bool t = ieq(v, "1") | ieq(v, "t") | ieq(v, "true") | ieq(v, "y") | ieq(v, "yes");
  bool f = ieq(v, "0") | ieq(v, "f") | ieq(v, "false") | ieq(v, "n") | ieq(v, "no");
  sym_assert(r.has_value() == (t | f), "exactly the truth words are accepted");
  if (r) {
    sym_assert(*r == t, "with their meaning");
    sym_cover("bool");
  } else {
    sym_assert(r.error() == std::make_error_code(std::errc::invalid_argument), "invalid_argument otherwise");
  }
  sym_observe(r.has_value() ? (uint64_t) *r : 2);
}
HARNESS(fs_str)
{
  sym_str s(sym_param());
  auto r = from_string<std::string>(s.sv());
  sym_assert(r.has_value(), "any text is a string");
  if (r) check_eq(*r, s.sv(), "the text itself");
  auto v = from_string<std::string_view>(s.sv());
  sym_assert(v.has_value() && v->data() == s.p && v->size() == s.n, "the view itself");
}
