#include "sym.h"
#include <fitoria/core/fixed_string.hpp>
using namespace fitoria;

template <size_t N>
static basic_fixed_string<char, N> mk(const sym_str& s)
{
  char b[N + 1];
  for (size_t i = 0; i < N; ++i) b[i] = s.p[i];
  b[N] = 0;
  return basic_fixed_string<char, N>(b);
}
template <size_t A, size_t B, size_t C>
static void concat()
{
  sym_str a(A), b(B), c(C);
  auto x = mk<A>(a);
  auto y = mk<B>(b);
  auto z = mk<C>(c);
  std::string_view vx = x;
  check_eq(vx, a.sv(), "holds the characters it was built from");
  sym_assert(x.size() == A && (size_t) (x.end() - x.begin()) == A, "size");
  auto xy = x + y;
  std::string w(a.sv());
  w += b.sv();
  check_eq(std::string_view(xy), w, "concatenation");
  auto l = (x + y) + z;
  auto r = x + (y + z);
  w += c.sv();
  check_eq(std::string_view(l), w, "concatenation of three");
  check_eq(std::string_view(l), std::string_view(r), "associative");
  static_assert(std::is_same_v<decltype(l), decltype(r)>);
  check_eq(std::string_view(x), a.sv(), "operands unchanged");
  observe(std::string_view(l));
  sym_cover("concat");
}
HARNESS(fx_concat)
{
  switch (sym_param()) {
  case 0: concat<1, 1, 1>(); break;
  case 1: concat<1, 3, 2>(); break;
  case 2: concat<4, 1, 5>(); break;
  case 3: concat<7, 8, 3>(); break;
  }
}
