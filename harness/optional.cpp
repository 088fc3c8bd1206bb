#include "tracked.h"
#include <fitoria/core/optional.hpp>
#include <compare>
using namespace fitoria;

namespace {
struct model {
  bool has;
  std::uint8_t v;
};
template <class T>
void agree(const optional<T>& e, const model& m, const char* msg)
{
  sym_assert(e.has_value() == m.has && (bool) e == m.has, msg);
  if (e.has_value() != m.has) return;
  if (m.has) {
    sym_assert(val(*e) == m.v, msg);
    sym_assert(&*e == e.operator->() && &*e == &e.value(), "one value, however it is reached");
  }
}
template <class T>
std::uint8_t after_move(std::uint8_t v)
{
  return leaves_mark<T> ? 0xEE : v;
}
void arm(int n)
{
  auto c = sym_choice((uint64_t) n + 1);
  trk::fuse = c == 0 ? -1 : (int) c - 1;
}

template <class T>
void machine(int steps, int faults)
{
  trk::live = 0;
  trk::fuse = -1;
  {
    using X = optional<T>;
    std::uint8_t x0 = sym_u8(), x1 = sym_u8();
    model m[2] = { { sym_choice(2) == 0, x0 }, { sym_choice(2) == 0, x1 } };
    X o[2] = { m[0].has ? X(std::in_place, x0) : X(), m[1].has ? X(T(x1)) : X(nullopt) };
    for (int s = 0; s < steps; ++s) {
      int i = (int) sym_choice(2), j = 1 - i;
      auto op = sym_choice(13);
      std::uint8_t x = sym_u8();
      model mi = m[i], mj = m[j];
      bool mv = false;
      try {
        switch (op) {
        case 0:
          arm(faults);
          mi = m[j];
          o[i] = std::as_const(o[j]);
          break;
        case 1:
          arm(faults);
          mv = true;
          mi = m[j];
          if (mj.has) mj.v = after_move<T>(mj.v);
          o[i] = std::move(o[j]);
          break;
        case 2: {
          const T t(x);
          arm(faults);
          mi = { true, x };
          o[i] = t;
          break;
        }
        case 3: {
          T t(x);
          arm(faults);
          mi = { true, x };
          o[i] = std::move(t);
          break;
        }
        case 4:
          mi = { false, 0 };
          o[i] = nullopt;
          break;
        case 5:
          mi = { false, 0 };
          o[i].reset();
          break;
        case 6:
          arm(faults);
          mv = true;
          mi = m[j];
          mj = m[i];
          o[i].swap(o[j]);
          break;
        case 7:
          arm(faults);
          mv = true;
          mi = m[j];
          mj = m[i];
          {
            using std::swap;
            swap(o[i], o[j]);
          }
          break;
        case 8: {
          arm(faults);
          X c(std::as_const(o[i]));
          trk::fuse = -1;
          agree(c, m[i], "a copy equals its source");
          agree(o[i], m[i], "copying leaves the source alone");
          break;
        }
        case 9: {
          arm(faults);
          mv = true;
          if (mi.has) mi.v = after_move<T>(mi.v);
          X c(std::move(o[i]));
          trk::fuse = -1;
          agree(c, m[i], "a moved-to object holds what the source held");
          break;
        }
        case 10: o[i] = std::as_const(o[i]); break;
        case 11: {
          arm(faults);
          mi = { true, x };
          auto& r = o[i].emplace(x);
          sym_assert(&r == &*o[i], "emplace returns the new value");
          break;
        }
        case 12:
          if (m[i].has) {
            mi.v = x;
            *o[i] = T(x);
          }
          break;
        }
        trk::fuse = -1;
        m[i] = mi;
        m[j] = mj;
      } catch (const boom&) {
        trk::fuse = -1;
        sym_cover("threw");
        if (op == 11) {
          sym_assert(!o[i].has_value(), "a failed emplace leaves the object empty");
          m[i].has = false;
        }
        sym_assert(o[i].has_value() == m[i].has && o[j].has_value() == m[j].has, "a failed operation neither creates nor drops a value");
        if (op != 6 && op != 7 && op != 9) agree(o[i], m[i], "a failed assignment leaves the target as it was");
        if (!mv) agree(o[j], m[j], "a failed operation leaves the other object as it was");
        for (int k = 0; k < 2; ++k)
          if (o[k]) m[k].v = val(*o[k]);
      }
      agree(o[0], m[0], "holds exactly the value last given to it, or nothing");
      agree(o[1], m[1], "holds exactly the value last given to it, or nothing");
      sym_assert(!is_tr<T> || trk::live == (int) m[0].has + (int) m[1].has, "exactly one object alive in each that has a value");
      sym_assert((o[0] == o[1]) == (m[0].has == m[1].has && (!m[0].has || m[0].v == m[1].v)), "equality compares presence and content");
      sym_observe(m[0].has);
      sym_observe(m[1].has);
      sym_observe(m[0].has ? m[0].v : 0);
      sym_observe(m[1].has ? m[1].v : 0);
    }
    sym_cover("machine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
using A1 = Tr<1, true, true, true>;
using B1 = Tr<1, true, false, false>;
using C1 = Tr<1, false, false, false>;
}
HARNESS(op_nothrow) { machine<A1>((int) sym_param(), 0); }
HARNESS(op_copy_throws) { machine<B1>((int) sym_param(), 2); }
HARNESS(op_throws) { machine<C1>((int) sym_param(), 3); }
HARNESS(op_trivial) { machine<std::uint8_t>((int) sym_param(), 0); }

namespace {
struct widget { // converts from and to bytes, not trivially copyable
  A1 a;
  widget(std::uint8_t x) : a(x) { }
  widget& operator=(std::uint8_t x)
  {
    a = A1(x);
    return *this;
  }
};
void rmachine(int steps)
{
  using X = optional<std::uint8_t&>;
  std::uint8_t slot[2] = { sym_u8(), sym_u8() };
  std::uint8_t* m[2] = { sym_choice(2) ? &slot[0] : nullptr, sym_choice(2) ? &slot[1] : nullptr };
  X o[2] = { m[0] ? X(slot[0]) : X(), m[1] ? X(slot[1]) : X(nullopt) };
  auto ok = [](const X& e, std::uint8_t* p, const char* msg) {
    sym_assert(e.has_value() == (p != nullptr) && (bool) e == (p != nullptr), msg);
    if (p && e.has_value()) sym_assert(&*e == p && e.operator->() == p && &e.value() == p, msg);
  };
  for (int s = 0; s < steps; ++s) {
    int i = (int) sym_choice(2), j = 1 - i;
    auto op = sym_choice(12);
    std::uint8_t* q = &slot[sym_choice(2)];
    std::uint8_t x = sym_u8();
    switch (op) {
    case 0: m[i] = m[j]; o[i] = std::as_const(o[j]); break;
    case 1: m[i] = m[j]; o[i] = std::move(o[j]); break;
    case 2: m[i] = nullptr; o[i] = nullopt; break;
    case 3: m[i] = nullptr; o[i].reset(); break;
    case 4: m[i] = q; o[i] = *q; break;
    case 5: {
      m[i] = q;
      auto& r = o[i].emplace(*q);
      sym_assert(&r == q, "emplace returns the referred object");
      break;
    }
    case 6: std::swap(m[0], m[1]); o[i].swap(o[j]); break;
    case 7: std::swap(m[0], m[1]); swap(o[i], o[j]); break;
    case 8: {
      X c(std::as_const(o[i]));
      ok(c, m[i], "a copy refers to what its source refers to");
      X d(std::move(c));
      ok(d, m[i], "a copy refers to what its source refers to");
      break;
    }
    case 9:
      if (m[i]) {
        *o[i] = x;
        sym_assert(*m[i] == x, "writing through it writes the referred object");
      }
      break;
    case 10: {
      optional<const std::uint8_t&> c(o[i]);
      sym_assert(c.has_value() == (m[i] != nullptr) && (!m[i] || &*c == m[i]), "conversion keeps the referent");
      break;
    }
    case 11: {
      optional<const std::uint8_t&> c(*q);
      c = o[i];
      sym_assert(c.has_value() == (m[i] != nullptr) && (!m[i] || &*c == m[i]), "assigning another optional reference takes over what it refers to, or nothing");
      break;
    }
    }
    ok(o[0], m[0], "refers to the object last given to it, or to nothing");
    ok(o[1], m[1], "refers to the object last given to it, or to nothing");
    sym_assert((o[0] == o[1]) == ((m[0] != nullptr) == (m[1] != nullptr) && (!m[0] || *m[0] == *m[1])), "equality compares presence and content");
    sym_observe(m[0] ? *m[0] : 0);
    sym_observe(m[1] ? *m[1] : 0);
  }
  sym_cover("machine");
}
void vmachine(int steps)
{
  using X = optional<void>;
  bool m[2] = { sym_choice(2) == 0, sym_choice(2) == 0 };
  X o[2] = { m[0] ? X(std::in_place) : X(), m[1] ? X(std::in_place) : X(nullopt) };
  for (int s = 0; s < steps; ++s) {
    int i = (int) sym_choice(2), j = 1 - i;
    switch (sym_choice(8)) {
    case 0: m[i] = m[j]; o[i] = o[j]; break;
    case 1: m[i] = m[j]; o[i] = std::move(o[j]); break;
    case 2: m[i] = false; o[i] = nullopt; break;
    case 3: m[i] = false; o[i].reset(); break;
    case 4: m[i] = true; o[i].emplace(); break;
    case 5: std::swap(m[0], m[1]); o[i].swap(o[j]); break;
    case 6: std::swap(m[0], m[1]); swap(o[i], o[j]); break;
    case 7: {
      X c(o[i]);
      sym_assert(c.has_value() == m[i], "a copy equals its source");
      bool threw = false;
      try {
        c.value();
      } catch (const bad_optional_access&) {
        threw = true;
      }
      sym_assert(threw == !m[i], "value() throws exactly when empty");
      int n = 0;
      auto t = c.transform([&] { ++n; });
      sym_assert(n == (int) m[i] && t.has_value() == m[i], "transform runs the function exactly when set");
      auto tv = c.transform([&]() -> std::uint8_t { return 7; });
      sym_assert(tv.has_value() == m[i] && (!tv || *tv == 7), "transform keeps what the function returns");
      auto a = c.and_then([&] { ++n; return optional<std::uint8_t>(7); });
      sym_assert(n == 2 * (int) m[i] && a.has_value() == m[i], "and_then runs the function exactly when set");
      auto r = c.or_else([&] { ++n; return X(); });
      sym_assert(n == (m[i] ? 2 : 1) && r.has_value() == m[i], "or_else runs the function exactly when empty");
      break;
    }
    }
    bool a = m[0], b = m[1];
    sym_assert(o[0].has_value() == a && o[1].has_value() == b && (bool) o[0] == a, "set or empty as last told");
    sym_assert((o[0] == o[1]) == (a == b) && (o[0] != o[1]) == (a != b) && (o[0] < o[1]) == (a < b) && (o[0] <= o[1]) == (a <= b)
                   && (o[0] > o[1]) == (a > b) && (o[0] >= o[1]) == (a >= b), "empty sorts before set");
    sym_observe(a * 2 + b);
  }
  sym_cover("machine");
}

template <class T>
void combine()
{
  trk::live = 0;
  trk::fuse = -1;
  {
    std::uint8_t x = sym_u8(), d = sym_u8();
    bool has = sym_choice(2);
    optional<T> e = has ? optional<T>(std::in_place, x) : optional<T>();
    const auto& ce = e;
    model m { has, x };
    int calls = 0;
    auto q = sym_choice(4);
    switch (sym_choice(6)) {
    case 0: {
      auto f = [&](auto&& t) -> optional<T> {
        ++calls;
        sym_assert(val(t) == x, "the function receives the value");
        if (d & 1) return nullopt;
        return optional<T>(std::in_place, (std::uint8_t) (val(t) + 1));
      };
      auto r = q == 0 ? e.and_then(f) : q == 1 ? ce.and_then(f) : q == 2 ? std::move(e).and_then(f) : std::move(ce).and_then(f);
      sym_assert(calls == (int) has, "called exactly once, and only with a value");
      sym_assert(r.has_value() == (has && !(d & 1)), "the function's result is the result");
      if (r) sym_assert(val(*r) == (std::uint8_t) (x + 1), "the function's value");
      break;
    }
    case 1: {
      auto f = [&]() -> optional<T> {
        ++calls;
        if (d & 1) return nullopt;
        return optional<T>(std::in_place, d);
      };
      auto r = q & 1 ? ce.or_else(f) : std::move(e).or_else(f);
      sym_assert(calls == (int) !has, "called exactly once, and only when empty");
      sym_assert(r.has_value() == (has || !(d & 1)), "the function's result is the result");
      if (r) sym_assert(val(*r) == (has ? x : d), "a value passes through");
      if (!(q & 1) && has) m.v = after_move<T>(x);
      break;
    }
    case 2: {
      auto f = [&](auto&& t) -> std::uint16_t {
        ++calls;
        sym_assert(val(t) == x, "the function receives the value");
        return (std::uint16_t) (val(t) * 3);
      };
      auto r = q == 0 ? e.transform(f) : q == 1 ? ce.transform(f) : q == 2 ? std::move(e).transform(f) : std::move(ce).transform(f);
      sym_assert(calls == (int) has, "called exactly once, and only with a value");
      sym_assert(r.has_value() == has, "transform keeps presence");
      if (r) sym_assert(*r == (std::uint16_t) (x * 3), "the function's value");
      break;
    }
    case 3: {
      bool threw = false;
      try {
        auto& p = q == 0 ? std::as_const(e.value()) : q == 1 ? ce.value() : q == 2 ? (const T&) std::move(e).value() : (const T&) std::move(ce).value();
        sym_assert(&p == &*ce && val(p) == x, "value() is the held value");
      } catch (const bad_optional_access&) {
        threw = true;
      }
      sym_assert(threw == !has, "value() throws exactly when empty");
      break;
    }
    case 4: {
      T r = q & 1 ? ce.value_or(d) : std::move(e).value_or(d);
      sym_assert(val(r) == (has ? x : d), "value_or");
      if (!(q & 1) && has) m.v = after_move<T>(x);
      break;
    }
    case 5: {
      if (!has) break;
      T r = q == 0 ? T(*e) : q == 1 ? T(*ce) : q == 2 ? T(*std::move(e)) : T(*std::move(ce));
      sym_assert(val(r) == x, "dereference reads the value");
      if (q == 2) m.v = after_move<T>(x);
      break;
    }
    }
    agree(e, m, "the source is unchanged unless it was an rvalue that was consumed");
    sym_cover("combine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
// relational operators: empty sorts before every value
template <class T>
void order()
{
  std::uint8_t x = sym_u8(), y = sym_u8();
  bool hx = sym_choice(2), hy = sym_choice(2);
  optional<T> a = hx ? optional<T>(std::in_place, x) : optional<T>();
  optional<T> b = hy ? optional<T>(std::in_place, y) : optional<T>();
  int l = hx ? 1 + x : 0, r = hy ? 1 + y : 0;
  sym_assert((a == b) == (l == r), "==");
  sym_assert((a != b) == (l != r), "!=");
  sym_assert((a < b) == (l < r), "<");
  sym_assert((a <= b) == (l <= r), "<=");
  sym_assert((a > b) == (l > r), ">");
  sym_assert((a >= b) == (l >= r), ">=");
  auto c = a <=> b;
  sym_assert((c < 0) == (l < r) && (c > 0) == (l > r) && (c == 0) == (l == r), "<=>");
  T v(y);
  r = 1 + y;
  sym_assert((a == v) == (l == r) && (v == a) == (l == r), "== value");
  sym_assert((a != v) == (l != r) && (v != a) == (l != r), "!= value");
  sym_assert((a < v) == (l < r) && (v > a) == (l < r), "< value");
  sym_assert((a <= v) == (l <= r) && (v >= a) == (l <= r), "<= value");
  sym_assert((a > v) == (l > r) && (v < a) == (l > r), "> value");
  sym_assert((a >= v) == (l >= r) && (v <= a) == (l >= r), ">= value");
  sym_assert((a == nullopt) == !hx && (nullopt == a) == !hx && (a != nullopt) == hx, "== nullopt");
  auto n = a <=> nullopt;
  sym_assert((n > 0) == hx && (n == 0) == !hx, "<=> nullopt");
  sym_assert((a > nullopt) == hx && !(a < nullopt) && a >= nullopt && (a <= nullopt) == !hx, "order against nullopt");
  sym_cover("order");
}
// contents that are not totally ordered (as NaN): 200 and above compare with nothing
struct part {
  std::uint8_t v;
  friend std::partial_ordering operator<=>(part a, part b)
  {
    if (a.v >= 200 || b.v >= 200) return std::partial_ordering::unordered;
    return a.v <=> b.v;
  }
  friend bool operator==(part a, part b) { return a.v < 200 && b.v < 200 && a.v == b.v; }
};
void order_partial()
{
  part x { sym_u8() }, y { sym_u8() };
  bool hx = sym_choice(2), hy = sym_choice(2);
  optional<part> a = hx ? optional<part>(x) : optional<part>(), b = hy ? optional<part>(y) : optional<part>();
  bool un = (x.v >= 200) | (y.v >= 200), both = hx & hy;
  int l = hx ? 1 + x.v : 0, r = hy ? 1 + y.v : 0;
  bool cmp = !(both & un);
  sym_assert((a == b) == (cmp & (l == r)) && (a != b) == !(cmp & (l == r)), "== of unordered contents");
  sym_assert((a < b) == (cmp & (l < r)) && (a <= b) == (cmp & (l <= r)) && (a > b) == (cmp & (l > r)) && (a >= b) == (cmp & (l >= r)),
             "relational operators of unordered contents");
  auto c = a <=> b;
  sym_assert((c == std::partial_ordering::unordered) == (both & un), "<=> of unordered contents");
  r = 1 + y.v;
  cmp = !(hx & un);
  sym_assert((a == y) == (cmp & (l == r)) && (a != y) == !(cmp & (l == r)), "== of unordered contents");
  sym_assert((a < y) == (cmp & (l < r)) && (a <= y) == (cmp & (l <= r)) && (a > y) == (cmp & (l > r)) && (a >= y) == (cmp & (l >= r)),
             "comparison with a value it is not ordered with");
  sym_assert((y > a) == (cmp & (l < r)) && (y >= a) == (cmp & (l <= r)) && (y < a) == (cmp & (l > r)) && (y <= a) == (cmp & (l >= r)),
             "comparison with a value it is not ordered with");
  sym_cover("order");
}
}
HARNESS(op_order_partial) { order_partial(); }
HARNESS(op_ref) { rmachine((int) sym_param()); }
HARNESS(op_void) { vmachine((int) sym_param()); }
HARNESS(op_combine) { combine<A1>(); }
HARNESS(op_combine_triv) { combine<std::uint8_t>(); }
HARNESS(op_order) { order<A1>(); }
HARNESS(op_order_triv) { order<std::uint8_t>(); }
template <class V>
void ref_combine()
{
  std::uint8_t d = sym_u8(), s0 = sym_u8();
  V slot(s0), other(d);
  bool has = sym_choice(2);
  optional<V&> e = has ? optional<V&>(slot) : optional<V&>();
  int calls = 0;
  auto r = e.and_then([&](V& t) -> optional<std::uint16_t> {
    ++calls;
    sym_assert(&t == &slot, "the function receives the referred object");
    if (d & 1) return nullopt;
    return (std::uint16_t) (val(t) + 1);
  });
  sym_assert(calls == (int) has && r.has_value() == (has && !(d & 1)) && (!r || *r == (std::uint16_t) (s0 + 1)), "and_then");
  auto t = e.transform([&](V& t) { ++calls; sym_assert(&t == &slot, "the function receives the referred object"); return (std::uint16_t) (val(t) * 3); });
  sym_assert(calls == 2 * (int) has && t.has_value() == has && (!t || *t == (std::uint16_t) (s0 * 3)), "transform");
  auto o = e.or_else([&]() -> optional<V&> { ++calls; if (d & 1) return nullopt; return slot; });
  sym_assert(calls == (has ? 2 : 1) && o.has_value() == (has || !(d & 1)) && (!o || &*o == &slot), "or_else");
  sym_assert(val(e.value_or(d)) == (has ? s0 : d), "value_or");
  bool threw = false;
  try {
    sym_assert(&e.value() == &slot, "value() is the referred object");
  } catch (const bad_optional_access&) {
    threw = true;
  }
  sym_assert(threw == !has, "value() throws exactly when empty");
  sym_assert(val(slot) == s0 && e.has_value() == has, "nothing is written");
  sym_assert((e == other) == (has && s0 == d) && (e == nullopt) == !has, "comparisons");
  sym_cover("combine");
}
HARNESS(op_ref_combine) { ref_combine<A1>(); }
HARNESS(op_ref_combine_triv) { ref_combine<std::uint8_t>(); }
HARNESS(op_convert)
{
  trk::live = 0;
  {
    std::uint8_t x = sym_u8(), y = sym_u8();
    bool has = sym_choice(2), had = sym_choice(2);
    optional<std::uint8_t> s = has ? optional<std::uint8_t>(x) : optional<std::uint8_t>();
    optional<A1> a(s);
    agree(a, { has, x }, "conversion keeps presence and content");
    optional<A1> b(std::move(s));
    agree(b, { has, x }, "conversion keeps presence and content");
    optional<A1> c = had ? optional<A1>(std::in_place, y) : optional<A1>();
    c = std::as_const(s);
    agree(c, { has, x }, "converting assignment");
    optional<A1> e = had ? optional<A1>(std::in_place, y) : optional<A1>();
    e = std::move(s);
    agree(e, { has, x }, "converting assignment");
    e = y;
    agree(e, { true, y }, "assigned a value");
    auto k = make_optional(x);
    sym_assert(k.has_value() && *k == x, "make_optional");
    auto k2 = make_optional<A1>(x);
    agree(k2, { true, x }, "make_optional in place");
    sym_cover("convert");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
