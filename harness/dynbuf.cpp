#include "sym.h"
#include <cstring>
#include <fitoria/core/dynamic_buffer.hpp>
#include <vector>
using namespace fitoria;

// A queue of bytes: prepare/commit appends at the end, consume removes at the
// front, never more than the limit.
namespace {
// sizes that matter: small ones and ones at the end of the range
size_t pick()
{
  static const size_t N[] = { 0, 1, 2, 3, 5, ~size_t(0), ~size_t(0) - 1, ~size_t(0) / 2 + 1 };
  return N[sym_choice(8)];
}
size_t small()
{
  static const size_t N[] = { 0, 1, 2, 3, 5 };
  return N[sym_choice(5)];
}
template <class C>
void machine(size_t steps, size_t limit, bool filled, bool unlimited)
{
  std::string q;
  C c0;
  if (filled)
    for (int i = 0; i < 3; ++i) {
      char x = (char) sym_u8();
      c0.push_back((typename C::value_type) x);
      q.push_back(x);
    }
  dynamic_buffer<C> b = filled ? dynamic_buffer<C>(std::move(c0)) : unlimited ? dynamic_buffer<C>() : dynamic_buffer<C>(limit);
  if (filled || unlimited) limit = C().max_size();
  auto check = [&] {
    sym_assert(b.size() == q.size(), "number of readable bytes");
    sym_assert(b.max_size() == limit, "limit");
    const auto& cb = b;
    auto d = cb.data();
    auto e = b.data();
    auto f = b.cdata();
    sym_assert(d.size() == q.size() && e.size() == q.size() && f.size() == q.size(), "readable bytes");
    sym_assert(d.data() == e.data() && d.data() == f.data(), "one readable range");
    check_eq(std::string_view((const char*) d.data(), d.size()), q, "bytes come out in the order they went in");
    sym_assert(b.capacity() >= q.size(), "capacity");
  };
  check();
  for (size_t k = 0; k < steps; ++k) {
    switch (sym_choice(3)) {
    case 0: {
      size_t n = limit < 100 ? pick() : small();
      bool room = n <= limit - q.size();
      bool threw = false;
      net::mutable_buffer m;
      try {
        m = b.prepare(n);
      } catch (const std::length_error&) {
        threw = true;
        sym_cover("full");
      }
      sym_assert(threw == !room, "prepare fails exactly when the bytes do not fit under the limit");
      check();
      if (threw) break;
      sym_assert(m.size() == n, "prepared size");
      auto p = (unsigned char*) m.data();
      std::string w;
      for (size_t i = 0; i < n; ++i) {
        p[i] = sym_u8();
        w.push_back((char) p[i]);
      }
      check();
      size_t j = pick();
      b.commit(j);
      q += w.substr(0, j < n ? j : n);
      sym_cover("append");
      break;
    }
    case 1: {
      size_t n = pick();
      b.consume(n);
      q.erase(0, n);
      sym_cover("consume");
      break;
    }
    case 2: {
      // a copy is independent
      auto c = b;
      c.consume(1);
      if (sym_choice(2)) {
        auto d = std::move(b);
        b = std::move(d);
      }
      break;
    }
    }
    check();
    sym_observe(q.size());
  }
  auto r = b.release();
  sym_assert(r.size() == q.size(), "released bytes");
  if (r.size() == q.size()) check_eq(std::string_view((const char*) r.data(), r.size()), q, "released bytes");
  observe(q);
}
}
HARNESS(db_limit)
{
  static const size_t L[] = { 4, 1, 3, 7, 0 };
  size_t p = sym_param();
  machine<std::vector<char>>(p % 10, L[p / 10], false, false);
}
HARNESS(db_string)
{
  size_t p = sym_param();
  machine<std::string>(p % 10, 5, false, p >= 10);
}
HARNESS(db_filled)
{
  size_t p = sym_param();
  machine<std::vector<std::byte>>(p % 10, 0, true, false);
}
