#include "sym.h"
#include <fitoria/http/header/date.hpp>
using namespace fitoria;
using http::header::date;
namespace {
using utc = std::chrono::time_point<chrono::utc_clock>;
using ft = std::chrono::time_point<std::chrono::file_clock>;
using rep = utc::duration::rep;
static_assert(std::is_same_v<rep, ft::duration::rep>);
constexpr int64_t NS = 1000000000;
utc mk(int64_t t) { return utc(utc::duration(t)); }

struct day {
  int64_t n; // days since 1970-01-01
  const char* text;
};
// calendar facts written down by hand: first and last days of months, leap
// days, century rules, before and after the epoch
const day D[] = {
  { 0, "Thu, 01 Jan 1970" },       { 58, "Sat, 28 Feb 1970" },      { 59, "Sun, 01 Mar 1970" },
  { 364, "Thu, 31 Dec 1970" },     { 789, "Tue, 29 Feb 1972" },     { 11016, "Tue, 29 Feb 2000" },
  { 11017, "Wed, 01 Mar 2000" },   { 10956, "Fri, 31 Dec 1999" },   { 10957, "Sat, 01 Jan 2000" },
  { -1, "Wed, 31 Dec 1969" },      { -25509, "Wed, 28 Feb 1900" },  { -25508, "Thu, 01 Mar 1900" },
  { 19782, "Thu, 29 Feb 2024" },   { 19844, "Wed, 01 May 2024" },   { 19904, "Sun, 30 Jun 2024" },
  { 19905, "Mon, 01 Jul 2024" },   { 19966, "Sat, 31 Aug 2024" },   { 19996, "Mon, 30 Sep 2024" },
  { 20009, "Sun, 13 Oct 2024" },   { 20044, "Sun, 17 Nov 2024" },   { 24855, "Tue, 19 Jan 2038" },
  { 47540, "Sun, 28 Feb 2100" },   { 47541, "Mon, 01 Mar 2100" },   { 106750, "Thu, 10 Apr 2262" },
  { 19822, "Tue, 09 Apr 2024" },
};
void two(char* p, unsigned v)
{
  p[0] = (char) ('0' + v / 10);
  p[1] = (char) ('0' + v % 10);
}
void check_text(size_t d, unsigned h, unsigned m, unsigned s, int64_t t)
{
  static const long TZ[] = { 0, 19800, -28800 };
  sym_tz(TZ[sym_choice(3)]);
  date x(mk(t));
  auto got = x.to_string();
  std::string w(D[d].text);
  w += " 00:00:00 GMT";
  size_t o = 17;
  two(&w[o], h);
  two(&w[o + 3], m);
  two(&w[o + 6], s);
  check_eq(got, w, "text of the date");
  observe(got);
  sym_cover("text");
}
}
// every hour, every minute and every second, one at a time
HARNESS(dt_text)
{
  size_t d = sym_param();
  unsigned which = (unsigned) sym_choice(3), v = sym_u8();
  sym_assume(v < (which == 0 ? 24u : 60u));
  unsigned h = which == 0 ? v : 23, m = which == 1 ? v : 5, q = which == 2 ? v : 40;
  check_text(d, h, m, q, (D[d].n * 86400 + h * 3600 + m * 60 + q) * NS);
}
// every nanosecond of a second
HARNESS(dt_floor)
{
  size_t d = sym_param();
  static const unsigned S[] = { 0, 1, 59, 60, 3599, 43200, 86399 };
  unsigned s = S[sym_choice(7)];
  uint32_t ns = sym_u32();
  sym_assume(ns < NS);
  check_text(d, s / 3600, s / 60 % 60, s % 60, (D[d].n * 86400 + s) * NS + ns);
}
HARNESS(dt_clock)
{
  int64_t a = (int64_t) sym_u64(), b = (int64_t) sym_u64();
  date x(mk(a)), y(mk(b));
  sym_assert(x.utc_time() == mk(a), "keeps the time it was built from");
  sym_assert((x == y) == (a == b), "equality");
  sym_assert((x < y) == (a < b), "order");
  sym_assert((x > y) == (a > b), "order");
  sym_assert((x <= y) == (a <= b), "order");
  auto o = x <=> y;
  sym_assert((o == 0) == (a == b) && (o < 0) == (a < b), "three-way comparison");
  // times whose file-clock representation exists
  ft lo = std::chrono::file_clock::from_sys(mk(0));
  int64_t off = (int64_t) lo.time_since_epoch().count();
  if (off < 0) sym_assume((a >= INT64_MIN - off) & (a < INT64_MAX));
  else sym_assume(a <= INT64_MAX - off);
  ft f = x.file_time();
  sym_assert(f.time_since_epoch().count() == a + off, "file time");
  date z(f);
  sym_assert(z.utc_time() == mk(a), "file time converts back to the same time");
  sym_assert(z == x, "and gives an equal date");
  sym_cover("clock");
}
