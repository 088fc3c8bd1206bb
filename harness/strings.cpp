#include "sym.h"
#include <fitoria/core/strings.hpp>
#include <compare>
using namespace fitoria;

namespace {
// C locale, written without the library's own classification tables
bool ref_space(unsigned char c) { return (c == ' ') | ((unsigned char) (c - 9) < 5); }
unsigned char ref_low(unsigned char c) { return (unsigned char) (c | (((unsigned char) (c - 'A') < 26) << 5)); }
bool is_sub(std::string_view part, std::string_view whole)
{
  return part.data() >= whole.data() && part.data() + part.size() <= whole.data() + whole.size();
}
size_t off(std::string_view part, std::string_view whole) { return (size_t) (part.data() - whole.data()); }

// [b, e) is s with leading/trailing matches of pred removed
template <class P>
void check_trim(std::string_view s, std::string_view r, bool left, bool right, P pred)
{
  sym_assert(is_sub(r, s), "trimmed text is a part of the input");
  size_t b = off(r, s), e = b + r.size();
  for (size_t i = 0; i < s.size(); ++i) {
    if (i < b || i >= e) sym_assert(pred(s[i]), "only matching characters are removed");
  }
  if (!left && !r.empty()) sym_assert(b == 0, "left end untouched");
  if (!right && !r.empty()) sym_assert(e == s.size(), "right end untouched");
  if (!r.empty()) {
    if (left) sym_assert(!pred(s[b]), "no leading match remains");
    if (right) sym_assert(!pred(s[e - 1]), "no trailing match remains");
  }
  sym_observe(b);
  sym_observe(r.size());
}
}

HARNESS(str_trim)
{
  static const char* const T[] = { "??0123456789abcdef??", "?                  ?", "a?          ?b     ?", "?\t\n\v\f\r \xa0\x85 ?" };
  std::string tpl(sym_param() < 100 ? std::string(sym_param(), '?') : T[sym_param() - 100]);
  sym_str s(tpl.c_str());
  auto sp = [](char c) { return ref_space((unsigned char) c); };
  switch (sym_choice(6)) {
  case 0: check_trim(s.sv(), ltrim(s.sv()), true, false, sp); break;
  case 1: check_trim(s.sv(), rtrim(s.sv()), false, true, sp); break;
  case 2: check_trim(s.sv(), trim(s.sv()), true, true, sp); break;
  case 3: {
    char q = (char) sym_u8();
    auto p = [q](char c) { return c == q; };
    check_trim(s.sv(), ltrim(s.sv(), p), true, false, p);
    break;
  }
  case 4: {
    char q = (char) sym_u8();
    auto p = [q](char c) { return c == q; };
    check_trim(s.sv(), rtrim(s.sv(), p), false, true, p);
    break;
  }
  case 5: {
    char q = (char) sym_u8();
    auto p = [q](char c) { return c == q; };
    auto t = trim(s.sv(), p);
    check_trim(s.sv(), t, true, true, p);
    auto t2 = trim(t, p);
    sym_assert(t2.data() == t.data() && t2.size() == t.size(), "trimming twice changes nothing");
    break;
  }
  }
  sym_cover("trim");
}

// tokens are the stretches between delimiter characters, trimmed, in order
HARNESS(str_split)
{
  static const char* const T[] = { "ab?cd,ef ; gh?ij  ,k", ",,?;;0123456789abcdefghijk,?", "a,b,c,d,e,f,g,h,?,j" };
  size_t n = sym_param() % 10, m = sym_param() / 10;
  if (sym_param() >= 100) m = 2;
  std::string tpl(sym_param() < 100 ? std::string(n, '?') : T[sym_param() - 100]);
  sym_str s(tpl.c_str()), d(m);
  n = s.n;
  auto v = split_of(s.sv(), d.sv());
  size_t k = 0, b = 0;
  for (size_t i = 0; i <= n; ++i) {
    bool cut = i == n;
    if (!cut) {
      unsigned hit = 0;
      for (size_t j = 0; j < m; ++j) hit |= (unsigned) (s[i] == d[j]);
      cut = hit != 0;
    }
    if (cut) {
      if (k >= v.size()) sym_fail("a token is missing");
      size_t x = b, y = i;
      while (x < y && ref_space(s[x])) ++x;
      while (y > x && ref_space(s[y - 1])) --y;
      sym_assert(v[k].size() == y - x, "token length");
      if (y > x) sym_assert(v[k].data() == s.p + x, "token position");
      sym_observe(v[k].size());
      ++k;
      b = i + 1;
    }
  }
  sym_assert(k == v.size(), "number of tokens is one more than the number of delimiters");
  sym_cover("split");
}

static void check_ci(std::string_view a, std::string_view b)
{
  // reference: fold A-Z, compare character by character as tolower does on char
  int ref = 0;
  bool eq = a.size() == b.size();
  size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = 0; i < n; ++i) {
    unsigned char x = ref_low((unsigned char) a[i]), y = ref_low((unsigned char) b[i]);
    eq = eq & (x == y);
  }
  bool r = cmp_eq_ci(a, b);
  sym_assert(r == eq, "equal exactly when the texts differ at most in ASCII letter case");
  auto o = cmp_tw_ci(a, b);
  auto o2 = cmp_tw_ci(b, a);
  sym_assert((o == 0) == r, "the ordering agrees with the equality");
  sym_assert((o < 0) == (o2 > 0) && (o > 0) == (o2 < 0), "swapping the operands reverses the order");
  (void) ref;
  sym_observe(r);
  sym_observe((uint64_t) (o < 0));
}
HARNESS(str_ci)
{
  static const char* const T[][2] = { { "0123456789abcdef?ABCDEF?", "0123456789ABCDEF?abcdef?" }, { "Content-Type-Option-?", "content-tYpe-oPtion-?" }, { "x0123456789abcde?gh", "X0123456789ABCDE?" } };
  size_t q = sym_param();
  auto A = q < 100 ? std::string(q / 10, '?') : T[q - 100][0], B = q < 100 ? std::string(q % 10, '?') : T[q - 100][1];
  sym_str a(A.c_str()), b(B.c_str());
  check_ci(a.sv(), b.sv());
  sym_cover("ci");
}
HARNESS(str_ci_trans)
{
  size_t n = sym_param();
  sym_str a(n / 100), b(n / 10 % 10), c(n % 10);
  auto ab = cmp_tw_ci(a.sv(), b.sv());
  auto bc = cmp_tw_ci(b.sv(), c.sv());
  auto ac = cmp_tw_ci(a.sv(), c.sv());
  if (ab <= 0 && bc <= 0) {
    sym_assert(ac <= 0, "the order is transitive");
    if (ab < 0 || bc < 0) sym_assert(ac < 0, "strict order is transitive");
    else sym_assert(ac == 0, "equivalence is transitive");
    sym_cover("trans");
  }
  sym_observe((uint64_t) (ac < 0));
}
// the order on ASCII text is the order of the lower-cased texts
HARNESS(str_ci_lex)
{
  sym_str a(sym_param() / 10), b(sym_param() % 10);
  for (unsigned char c : a.sv()) sym_assume(c < 128);
  for (unsigned char c : b.sv()) sym_assume(c < 128);
  auto o = cmp_tw_ci(a.sv(), b.sv());
  int ref = 0;
  size_t i = 0;
  for (; i < a.n && i < b.n; ++i) {
    unsigned char x = ref_low(a[i]), y = ref_low(b[i]);
    if (x != y) {
      ref = x < y ? -1 : 1;
      break;
    }
  }
  if (ref == 0) ref = a.n < b.n ? -1 : a.n > b.n;
  sym_assert((o < 0) == (ref < 0) && (o > 0) == (ref > 0), "order of the lower-cased texts");
  sym_observe((uint64_t) (ref + 1));
}
