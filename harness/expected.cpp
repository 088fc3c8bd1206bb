#include "tracked.h"
#include <fitoria/core/expected.hpp>
using namespace fitoria;

namespace {
struct model {
  bool has;
  std::uint8_t v;
};
template <class T, class E>
void agree(const expected<T, E>& e, const model& m, const char* msg)
{
  sym_assert(e.has_value() == m.has && (bool) e == m.has, msg);
  if (e.has_value() != m.has) return;
  if (m.has) {
    sym_assert(val(*e) == m.v, msg);
    sym_assert(&*e == e.operator->() && &*e == &e.value(), "one value, however it is reached");
  } else {
    sym_assert(val(e.error()) == m.v, msg);
  }
}
template <class T, class E>
int tracked_in(const expected<T, E>& e)
{
  return e.has_value() ? (is_tr<T> ? 1 : 0) : (is_tr<E> ? 1 : 0);
}
template <class T>
std::uint8_t after_move(std::uint8_t v)
{
  return leaves_mark<T> ? 0xEE : v;
}
void arm(int n)
{
  auto c = sym_choice((uint64_t) n + 1);
  trk::fuse = c == 0 ? -1 : (int) c - 1;
}

template <class T, class E>
void machine(int steps, int faults)
{
  trk::live = 0;
  trk::fuse = -1;
  {
    using X = expected<T, E>;
    std::uint8_t x0 = sym_u8(), x1 = sym_u8();
    model m[2] = { { sym_choice(2) == 0, x0 }, { sym_choice(2) == 0, x1 } };
    X o[2] = { m[0].has ? X(std::in_place, x0) : X(unexpect, x0), m[1].has ? X(std::in_place, x1) : X(unexpect, x1) };
    for (int s = 0; s < steps; ++s) {
      int i = (int) sym_choice(2), j = 1 - i;
      auto op = sym_choice(13);
      std::uint8_t x = sym_u8();
      model mi = m[i], mj = m[j];
      bool src_may_move = false;
      try {
        switch (op) {
        case 0: // copy assignment
          arm(faults);
          mi = m[j];
          o[i] = std::as_const(o[j]);
          break;
        case 1: // move assignment
          arm(faults);
          src_may_move = true;
          mi = m[j];
          mj.v = mj.has ? after_move<T>(mj.v) : after_move<E>(mj.v);
          o[i] = std::move(o[j]);
          break;
        case 2: { // value, lvalue
          const T t(x);
          arm(faults);
          mi = { true, x };
          o[i] = t;
          break;
        }
        case 3: { // value, rvalue
          T t(x);
          arm(faults);
          mi = { true, x };
          o[i] = std::move(t);
          break;
        }
        case 4: { // unexpected, lvalue
          const unexpected<E> u(std::in_place, x);
          arm(faults);
          mi = { false, x };
          o[i] = u;
          break;
        }
        case 5: { // unexpected, rvalue
          unexpected<E> u(std::in_place, x);
          arm(faults);
          mi = { false, x };
          o[i] = std::move(u);
          break;
        }
        case 6: // swap, member and free
          arm(faults);
          src_may_move = true;
          mi = m[j];
          mj = m[i];
          o[i].swap(o[j]);
          break;
        case 7:
          arm(faults);
          src_may_move = true;
          mi = m[j];
          mj = m[i];
          {
            using std::swap;
            swap(o[i], o[j]);
          }
          break;
        case 8: { // copy construction
          arm(faults);
          X c(std::as_const(o[i]));
          trk::fuse = -1;
          agree(c, m[i], "a copy equals its source");
          agree(o[i], m[i], "copying leaves the source alone");
          break;
        }
        case 9: { // move construction
          arm(faults);
          src_may_move = true;
          mi.v = mi.has ? after_move<T>(mi.v) : after_move<E>(mi.v);
          X c(std::move(o[i]));
          trk::fuse = -1;
          agree(c, m[i], "a moved-to object holds what the source held");
          break;
        }
        case 10: // self assignment
          o[i] = std::as_const(o[i]);
          break;
        case 11: // emplace
          if constexpr (std::is_nothrow_constructible_v<T, std::uint8_t>) {
            mi = { true, x };
            auto& r = o[i].emplace(x);
            sym_assert(&r == &*o[i], "emplace returns the new value");
          }
          break;
        case 12: // writing through the accessors
          mi.v = x;
          if (m[i].has) o[i].value() = T(x);
          else o[i].error() = E(x);
          break;
        }
        trk::fuse = -1;
        m[i] = mi;
        m[j] = mj;
      } catch (const boom&) {
        trk::fuse = -1;
        sym_cover("threw");
        sym_assert(o[i].has_value() == m[i].has, "a failed operation does not change what kind of result is held");
        sym_assert(o[j].has_value() == m[j].has, "a failed operation leaves the other object's kind");
        if (op != 6 && op != 7 && op != 9) {
          agree(o[i], m[i], "a failed assignment leaves the target as it was");
        }
        if (!src_may_move) agree(o[j], m[j], "a failed operation leaves the other object as it was");
        // a throwing move may have consumed a source: read the model back
        for (int k = 0; k < 2; ++k) m[k].v = o[k].has_value() ? val(*o[k]) : val(o[k].error());
      }
      agree(o[0], m[0], "holds exactly the value or the error last given to it");
      agree(o[1], m[1], "holds exactly the value or the error last given to it");
      sym_assert(trk::live == tracked_in(o[0]) + tracked_in(o[1]), "exactly one object alive in each");
      sym_assert((o[0] == o[1]) == (m[0].has == m[1].has && m[0].v == m[1].v), "equality compares kind and content");
      sym_observe(o[0].has_value());
      sym_observe(m[0].v);
      sym_observe(m[1].v);
    }
    sym_cover("machine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
using A1 = Tr<1, true, true, true>;
using A2 = Tr<2, true, true, true>;
using B1 = Tr<1, true, false, false>;
using B2 = Tr<2, true, false, false>;
using C1 = Tr<1, false, false, false>;
using C2 = Tr<2, false, false, false>;
using N1 = Tr<1, true, false, true>;
}
HARNESS(ex_nothrow) { machine<A1, A2>((int) sym_param(), 0); }
HARNESS(ex_copy_throws) { machine<B1, B2>((int) sym_param(), 2); }
HARNESS(ex_value_throws) { machine<C1, B2>((int) sym_param(), 3); }
HARNESS(ex_error_throws) { machine<B1, C2>((int) sym_param(), 3); }
HARNESS(ex_emplace) { machine<N1, C2>((int) sym_param(), 3); }
HARNESS(ex_trivial) { machine<std::uint8_t, std::uint8_t>((int) sym_param(), 0); }
HARNESS(ex_triv_value) { machine<std::uint8_t, B2>((int) sym_param(), 2); }
HARNESS(ex_triv_error) { machine<B1, std::uint8_t>((int) sym_param(), 2); }
HARNESS(ex_triv_error2) { machine<C1, std::uint8_t>((int) sym_param(), 2); }

// ---- expected<void, E>
namespace {
template <class E>
void vmachine(int steps, int faults)
{
  trk::live = 0;
  trk::fuse = -1;
  {
    using X = expected<void, E>;
    std::uint8_t x0 = sym_u8(), x1 = sym_u8();
    model m[2] = { { sym_choice(2) == 0, x0 }, { sym_choice(2) == 0, x1 } };
    X o[2] = { m[0].has ? (sym_choice(2) ? X() : X(std::in_place)) : X(unexpect, x0), m[1].has ? X() : X(unexpect, x1) };
    auto ok = [](const X& e, const model& k, const char* msg) {
      sym_assert(e.has_value() == k.has && (bool) e == k.has, msg);
      if (!k.has && !e.has_value()) sym_assert(val(e.error()) == k.v, msg);
    };
    for (int s = 0; s < steps; ++s) {
      int i = (int) sym_choice(2), j = 1 - i;
      auto op = sym_choice(10);
      std::uint8_t x = sym_u8();
      model mi = m[i], mj = m[j];
      bool mv = false;
      try {
        switch (op) {
        case 0:
          arm(faults);
          mi = m[j];
          o[i] = std::as_const(o[j]);
          break;
        case 1:
          arm(faults);
          mv = true;
          mi = m[j];
          mj.v = after_move<E>(mj.v);
          o[i] = std::move(o[j]);
          break;
        case 2: {
          const unexpected<E> u(std::in_place, x);
          arm(faults);
          mi = { false, x };
          o[i] = u;
          break;
        }
        case 3: {
          unexpected<E> u(std::in_place, x);
          arm(faults);
          mi = { false, x };
          o[i] = std::move(u);
          break;
        }
        case 4:
          arm(faults);
          mv = true;
          mi = m[j];
          mj = m[i];
          o[i].swap(o[j]);
          break;
        case 5: {
          arm(faults);
          X c(std::as_const(o[i]));
          trk::fuse = -1;
          ok(c, m[i], "a copy equals its source");
          break;
        }
        case 6: {
          arm(faults);
          mv = true;
          mi.v = after_move<E>(mi.v);
          X c(std::move(o[i]));
          trk::fuse = -1;
          ok(c, m[i], "a moved-to object holds what the source held");
          break;
        }
        case 7: o[i] = std::as_const(o[i]); break;
        case 8:
          mi = { true, 0 };
          o[i].emplace();
          break;
        case 9: {
          expected<void, E> c(o[j].has_value() ? X() : X(unexpected<E>(std::in_place, x)));
          ok(c, { m[j].has, x }, "constructed from unexpected");
          bool threw = false;
          try {
            std::as_const(c).value();
          } catch (const bad_expected_access<E>& e) {
            threw = true;
            sym_assert(val(e.error()) == x, "the exception carries the error");
          }
          sym_assert(threw == !m[j].has, "value() throws exactly when there is an error");
          break;
        }
        }
        trk::fuse = -1;
        m[i] = mi;
        m[j] = mj;
      } catch (const boom&) {
        trk::fuse = -1;
        sym_assert(o[i].has_value() == m[i].has && o[j].has_value() == m[j].has, "a failed operation does not change what kind of result is held");
        if (op < 4) ok(o[i], m[i], "a failed assignment leaves the target as it was");
        if (!mv) ok(o[j], m[j], "a failed operation leaves the other object as it was");
        for (int k = 0; k < 2; ++k)
          if (!o[k].has_value()) m[k].v = val(o[k].error());
      }
      ok(o[0], m[0], "holds success or the error last given to it");
      ok(o[1], m[1], "holds success or the error last given to it");
      sym_assert(!is_tr<E> || trk::live == (int) !m[0].has + (int) !m[1].has, "exactly one error alive in each failed result");
      sym_assert((o[0] == o[1]) == (m[0].has == m[1].has && (m[0].has || m[0].v == m[1].v)), "equality compares kind and error");
      sym_observe(o[0].has_value());
      sym_observe(m[0].has ? 0 : m[0].v);
      sym_observe(m[1].has ? 0 : m[1].v);
    }
    sym_cover("machine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}

// ---- expected<T&, E>
template <class E>
void rmachine(int steps, int faults)
{
  trk::live = 0;
  trk::fuse = -1;
  {
    using X = expected<std::uint8_t&, E>;
    std::uint8_t slot[2] = { sym_u8(), sym_u8() };
    struct rm {
      bool has;
      std::uint8_t* p;
      std::uint8_t v;
    };
    std::uint8_t x0 = sym_u8(), x1 = sym_u8();
    rm m[2] = { { sym_choice(2) == 0, &slot[0], x0 }, { sym_choice(2) == 0, &slot[1], x1 } };
    X o[2] = { m[0].has ? X(slot[0]) : X(unexpect, x0), m[1].has ? X(std::in_place, slot[1]) : X(unexpect, x1) };
    auto ok = [](const X& e, const rm& k, const char* msg) {
      sym_assert(e.has_value() == k.has && (bool) e == k.has, msg);
      if (e.has_value() != k.has) return;
      if (k.has) sym_assert(&*e == k.p && e.operator->() == k.p && &e.value() == k.p, msg);
      else sym_assert(val(e.error()) == k.v, msg);
    };
    for (int s = 0; s < steps; ++s) {
      int i = (int) sym_choice(2), j = 1 - i;
      auto op = sym_choice(10);
      std::uint8_t x = sym_u8();
      std::uint8_t* q = &slot[sym_choice(2)];
      rm mi = m[i], mj = m[j];
      bool mv = false;
      try {
        switch (op) {
        case 0:
          arm(faults);
          mi = m[j];
          o[i] = std::as_const(o[j]);
          break;
        case 1:
          arm(faults);
          mv = true;
          mi = m[j];
          if (!mj.has) mj.v = after_move<E>(mj.v);
          o[i] = std::move(o[j]);
          break;
        case 2: {
          const unexpected<E> u(std::in_place, x);
          arm(faults);
          mi = { false, nullptr, x };
          o[i] = u;
          break;
        }
        case 3: {
          unexpected<E> u(std::in_place, x);
          arm(faults);
          mi = { false, nullptr, x };
          o[i] = std::move(u);
          break;
        }
        case 4:
          arm(faults);
          mv = true;
          mi = m[j];
          mj = m[i];
          o[i].swap(o[j]);
          break;
        case 5: {
          arm(faults);
          X c(std::as_const(o[i]));
          trk::fuse = -1;
          ok(c, m[i], "a copy refers to what its source refers to");
          break;
        }
        case 6: {
          arm(faults);
          mv = true;
          if (!mi.has) mi.v = after_move<E>(mi.v);
          X c(std::move(o[i]));
          trk::fuse = -1;
          ok(c, m[i], "a moved-to object holds what the source held");
          break;
        }
        case 7: o[i] = std::as_const(o[i]); break;
        case 8:
          mi = { true, q, 0 };
          o[i].emplace(*q);
          break;
        case 9:
          mi = { true, q, 0 };
          o[i] = *q;
          break;
        }
        trk::fuse = -1;
        m[i] = mi;
        m[j] = mj;
      } catch (const boom&) {
        trk::fuse = -1;
        sym_assert(o[i].has_value() == m[i].has && o[j].has_value() == m[j].has, "a failed operation does not change what kind of result is held");
        if (!mv) {
          ok(o[j], m[j], "a failed operation leaves the other object as it was");
          if (op != 0 || !m[i].has) ok(o[i], m[i], "a failed assignment leaves the target as it was");
        }
        // the referent is lost when constructing the error over it throws
        for (int k = 0; k < 2; ++k)
          if (!o[k].has_value()) m[k].v = val(o[k].error());
        if (m[i].has) {
          o[i].emplace(*q);
          m[i].p = q;
        }
        if (m[j].has) {
          o[j].emplace(*q);
          m[j].p = q;
        }
      }
      ok(o[0], m[0], "refers to the object or holds the error last given to it");
      ok(o[1], m[1], "refers to the object or holds the error last given to it");
      sym_assert(!is_tr<E> || trk::live == (int) !m[0].has + (int) !m[1].has, "exactly one error alive in each failed result");
      sym_assert((o[0] == o[1]) == (m[0].has == m[1].has && (m[0].has ? *m[0].p == *m[1].p : m[0].v == m[1].v)), "equality compares kind and content");
      sym_observe(o[0].has_value());
      sym_observe(m[0].has ? *m[0].p : m[0].v);
    }
    sym_cover("machine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
}
HARNESS(ev_nothrow) { vmachine<A2>((int) sym_param(), 0); }
HARNESS(ev_throws) { vmachine<C2>((int) sym_param(), 2); }
HARNESS(ev_trivial) { vmachine<std::uint8_t>((int) sym_param(), 0); }
HARNESS(er_nothrow) { rmachine<A2>((int) sym_param(), 0); }
HARNESS(er_trivial) { rmachine<std::uint8_t>((int) sym_param(), 0); }
HARNESS(er_throws) { rmachine<B2>((int) sym_param(), 0); }

// ---- reading and combining
namespace {
template <class T, class E>
void combine()
{
  trk::live = 0;
  trk::fuse = -1;
  {
    using X = expected<T, E>;
    std::uint8_t x = sym_u8(), d = sym_u8();
    bool has = sym_choice(2);
    X e = has ? X(std::in_place, x) : X(unexpect, x);
    const X& ce = e;
    model m { has, x };
    int calls = 0;
    auto q = sym_choice(4); // &, const&, &&, const&&
    bool consumes = q == 2;
    switch (sym_choice(8)) {
    case 0: { // and_then
      auto f = [&](auto&& t) -> expected<std::uint16_t, E> {
        ++calls;
        sym_assert(val(t) == x, "the function receives the value");
        if (d & 1) return unexpected<E>(E(d));
        return expected<std::uint16_t, E>(std::in_place, (std::uint16_t) (val(t) + 1));
      };
      auto r = q == 0 ? e.and_then(f) : q == 1 ? ce.and_then(f) : q == 2 ? std::move(e).and_then(f) : std::move(ce).and_then(f);
      sym_assert(calls == (has ? 1 : 0), "called exactly once, and only with a value");
      if (has) {
        sym_assert(r.has_value() == !(d & 1), "the function's result is the result");
        if (r) sym_assert(*r == (std::uint16_t) (x + 1), "the function's value");
        else sym_assert(val(r.error()) == d, "the function's error");
      } else {
        sym_assert(!r.has_value() && val(r.error()) == x, "an error passes through");
        if (consumes) m.v = after_move<E>(x);
      }
      sym_observe(r.has_value());
      break;
    }
    case 1: { // or_else
      auto f = [&](auto&& t) -> expected<T, std::uint16_t> {
        ++calls;
        sym_assert(val(t) == x, "the function receives the error");
        if (d & 1) return unexpected<std::uint16_t>((std::uint16_t) (val(t) + 1));
        return expected<T, std::uint16_t>(std::in_place, d);
      };
      auto r = q == 0 ? e.or_else(f) : q == 1 ? ce.or_else(f) : q == 2 ? std::move(e).or_else(f) : std::move(ce).or_else(f);
      sym_assert(calls == (has ? 0 : 1), "called exactly once, and only with an error");
      if (!has) {
        sym_assert(r.has_value() == !(d & 1), "the function's result is the result");
        if (r) sym_assert(val(*r) == d, "the function's value");
        else sym_assert(r.error() == (std::uint16_t) (x + 1), "the function's error");
      } else {
        sym_assert(r.has_value() && val(*r) == x, "a value passes through");
        if (consumes) m.v = after_move<T>(x);
      }
      sym_observe(r.has_value());
      break;
    }
    case 2: { // transform
      auto f = [&](auto&& t) -> std::uint16_t {
        ++calls;
        sym_assert(val(t) == x, "the function receives the value");
        return (std::uint16_t) (val(t) * 3);
      };
      auto r = q == 0 ? e.transform(f) : q == 1 ? ce.transform(f) : q == 2 ? std::move(e).transform(f) : std::move(ce).transform(f);
      sym_assert(calls == (has ? 1 : 0), "called exactly once, and only with a value");
      sym_assert(r.has_value() == has, "transform keeps the kind");
      if (has) sym_assert(*r == (std::uint16_t) (x * 3), "the function's value");
      else {
        sym_assert(val(r.error()) == x, "an error passes through");
        if (consumes) m.v = after_move<E>(x);
      }
      sym_observe(r.has_value());
      break;
    }
    case 3: { // transform_error
      auto f = [&](auto&& t) -> std::uint16_t {
        ++calls;
        sym_assert(val(t) == x, "the function receives the error");
        return (std::uint16_t) (val(t) * 3);
      };
      auto r = q == 0 ? e.transform_error(f) : q == 1 ? ce.transform_error(f) : q == 2 ? std::move(e).transform_error(f) : std::move(ce).transform_error(f);
      sym_assert(calls == (has ? 0 : 1), "called exactly once, and only with an error");
      sym_assert(r.has_value() == has, "transform_error keeps the kind");
      if (!has) sym_assert(r.error() == (std::uint16_t) (x * 3), "the function's error");
      else {
        sym_assert(val(*r) == x, "a value passes through");
        if (consumes) m.v = after_move<T>(x);
      }
      sym_observe(r.has_value());
      break;
    }
    case 4: { // value()
      bool threw = false;
      try {
        auto& p = q == 0 ? std::as_const(e.value()) : q == 1 ? ce.value() : q == 2 ? (const T&) std::move(e).value() : (const T&) std::move(ce).value();
        sym_assert(val(p) == x && &p == &*ce, "value() is the held value");
      } catch (const bad_expected_access<E>& b) {
        threw = true;
        sym_assert(val(b.error()) == x, "the exception carries the error");
        if (consumes) m.v = after_move<E>(x);
      }
      sym_assert(threw == !has, "value() throws exactly when there is an error");
      sym_observe(threw);
      break;
    }
    case 5: { // value_or / error_or
      if (q & 1) {
        T r = q == 1 ? ce.value_or(d) : std::move(e).value_or(d);
        sym_assert(val(r) == (has ? x : d), "value_or");
        if (q == 3 && has) m.v = after_move<T>(x);
        sym_observe(val(r));
      } else {
        E r = q == 0 ? ce.error_or(d) : std::move(e).error_or(d);
        sym_assert(val(r) == (has ? d : x), "error_or");
        if (q == 2 && !has) m.v = after_move<E>(x);
        sym_observe(val(r));
      }
      break;
    }
    case 6: { // comparison with values and unexpected
      T t(d);
      sym_assert((ce == t) == (has && x == d), "equal to a value");
      sym_assert((ce != t) == !(has && x == d), "different from a value");
      unexpected<E> u(std::in_place, d);
      sym_assert((ce == u) == (!has && x == d), "equal to an unexpected");
      sym_assert((ce != u) == !(!has && x == d), "different from an unexpected");
      unexpected<E> u2(std::in_place, x);
      sym_assert((u == u2) == (x == d), "unexpected equality");
      u.swap(u2);
      sym_assert(val(u.error()) == x && val(u2.error()) == d, "unexpected swap");
      swap(u, u2);
      sym_assert(val(u.error()) == d && val(u2.error()) == x, "unexpected swap");
      break;
    }
    case 7: { // dereference forms
      if (has) {
        sym_assert(&*e == &*ce && e.operator->() == &*e && ce.operator->() == &*e, "dereference");
        T r = q & 1 ? T(*std::move(e)) : T(*ce);
        sym_assert(val(r) == x, "dereference reads the value");
        if (q & 1) m.v = after_move<T>(x);
      } else {
        E r = q & 1 ? E(std::move(e).error()) : E(ce.error());
        sym_assert(val(r) == x, "error() reads the error");
        if (q & 1) m.v = after_move<E>(x);
      }
      break;
    }
    }
    agree(e, m, "the source is unchanged unless it was an rvalue that was consumed");
    sym_cover("combine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
// conversions between expected types
template <class T, class E>
void convert()
{
  trk::live = 0;
  {
    std::uint8_t x = sym_u8();
    bool has = sym_choice(2);
    expected<std::uint8_t, std::uint8_t> s = has ? expected<std::uint8_t, std::uint8_t>(x) : expected<std::uint8_t, std::uint8_t>(unexpected<std::uint8_t>(x));
    expected<T, E> a(s);
    agree(a, { has, x }, "conversion keeps kind and content");
    expected<T, E> b(std::move(s));
    agree(b, { has, x }, "conversion keeps kind and content");
    expected<T, E> c(unexpected<std::uint8_t> { x });
    agree(c, { false, x }, "from unexpected");
    const unexpected<std::uint8_t> u { x };
    expected<T, E> c2(u);
    agree(c2, { false, x }, "from unexpected");
    expected<T, E> d(std::in_place, x);
    agree(d, { true, x }, "in place");
    d = unexpected<std::uint8_t>(x);
    agree(d, { false, x }, "assigned an unexpected");
    d = x;
    agree(d, { true, x }, "assigned a value");
    d = u;
    agree(d, { false, x }, "assigned an unexpected");
    d = u;
    agree(d, { false, x }, "assigned an unexpected again");
    expected<void, std::uint8_t> sv = has ? expected<void, std::uint8_t>() : expected<void, std::uint8_t>(u);
    expected<void, E> v(sv);
    sym_assert(v.has_value() == has && (has || val(v.error()) == x), "void conversion keeps kind and error");
    expected<void, E> v2(std::move(sv));
    sym_assert(v2.has_value() == has && (has || val(v2.error()) == x), "void conversion keeps kind and error");
    expected<T, E> e0;
    agree(e0, { true, 0 }, "default constructed holds a value");
    sym_cover("convert");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
template <class E>
void vcombine()
{
  trk::live = 0;
  trk::fuse = -1;
  {
    using X = expected<void, E>;
    std::uint8_t x = sym_u8(), d = sym_u8();
    bool has = sym_choice(2);
    X e = has ? X() : X(unexpect, x);
    const X& ce = e;
    int calls = 0;
    auto q = sym_choice(4);
    std::uint8_t left = x;
    switch (sym_choice(6)) {
    case 0: {
      auto f = [&]() -> expected<std::uint16_t, E> {
        ++calls;
        if (d & 1) return unexpected<E>(E(d));
        return expected<std::uint16_t, E>(std::in_place, d);
      };
      auto r = q == 0 ? e.and_then(f) : q == 1 ? ce.and_then(f) : q == 2 ? std::move(e).and_then(f) : std::move(ce).and_then(f);
      sym_assert(calls == (has ? 1 : 0), "called exactly once, and only on success");
      if (has) {
        sym_assert(r.has_value() == !(d & 1), "the function's result is the result");
        if (r) sym_assert(*r == d, "the function's value");
        else sym_assert(val(r.error()) == d, "the function's error");
      } else {
        sym_assert(!r.has_value() && val(r.error()) == x, "an error passes through");
        if (q == 2) left = after_move<E>(x);
      }
      break;
    }
    case 1: {
      auto f = [&](auto&& t) -> expected<void, std::uint16_t> {
        ++calls;
        sym_assert(val(t) == x, "the function receives the error");
        if (d & 1) return unexpected<std::uint16_t>((std::uint16_t) (val(t) + 1));
        return {};
      };
      auto r = q == 0 ? e.or_else(f) : q == 1 ? ce.or_else(f) : q == 2 ? std::move(e).or_else(f) : std::move(ce).or_else(f);
      sym_assert(calls == (has ? 0 : 1), "called exactly once, and only with an error");
      if (has) sym_assert(r.has_value(), "success passes through");
      else {
        sym_assert(r.has_value() == !(d & 1), "the function's result is the result");
        if (!r) sym_assert(r.error() == (std::uint16_t) (x + 1), "the function's error");
      }
      break;
    }
    case 2: {
      auto f = [&]() -> std::uint16_t {
        ++calls;
        return d;
      };
      auto r = q == 0 ? e.transform(f) : q == 1 ? ce.transform(f) : q == 2 ? std::move(e).transform(f) : std::move(ce).transform(f);
      sym_assert(calls == (has ? 1 : 0), "called exactly once, and only on success");
      sym_assert(r.has_value() == has, "transform keeps the kind");
      if (has) sym_assert(*r == d, "the function's value");
      else {
        sym_assert(val(r.error()) == x, "an error passes through");
        if (q == 2) left = after_move<E>(x);
      }
      break;
    }
    case 3: {
      auto f = [&](auto&& t) -> std::uint16_t {
        ++calls;
        sym_assert(val(t) == x, "the function receives the error");
        return (std::uint16_t) (val(t) * 3);
      };
      auto r = q == 0 ? e.transform_error(f) : q == 1 ? ce.transform_error(f) : q == 2 ? std::move(e).transform_error(f) : std::move(ce).transform_error(f);
      sym_assert(calls == (has ? 0 : 1), "called exactly once, and only with an error");
      sym_assert(r.has_value() == has, "transform_error keeps the kind");
      if (!has) sym_assert(r.error() == (std::uint16_t) (x * 3), "the function's error");
      break;
    }
    case 4: {
      bool threw = false;
      try {
        if (q & 1) ce.value();
        else std::move(e).value();
      } catch (const bad_expected_access<E>& b) {
        threw = true;
        sym_assert(val(b.error()) == x, "the exception carries the error");
        if (!(q & 1)) left = after_move<E>(x);
      }
      sym_assert(threw == !has, "value() throws exactly when there is an error");
      break;
    }
    case 5: {
      E r = q & 1 ? ce.error_or(d) : std::move(e).error_or(d);
      sym_assert(val(r) == (has ? d : x), "error_or");
      if (!(q & 1) && !has) left = after_move<E>(x);
      unexpected<E> u(std::in_place, d);
      if (q & 1) sym_assert((ce == u) == (!has && x == d) && (ce != u) == !(!has && x == d), "comparison with an unexpected");
      break;
    }
    }
    sym_assert(e.has_value() == has, "the source keeps its kind");
    if (!has) sym_assert(val(e.error()) == left, "the source is unchanged unless it was an rvalue that was consumed");
    sym_cover("combine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
template <class V, class E>
void rcombine()
{
  trk::live = 0;
  trk::fuse = -1;
  {
    using X = expected<V&, E>;
    std::uint8_t x = sym_u8(), d = sym_u8(), s0 = sym_u8();
    V slot(s0), other(d);
    bool has = sym_choice(2);
    X e = has ? X(slot) : X(unexpect, x);
    const X& ce = e;
    int calls = 0;
    auto q = sym_choice(4);
    std::uint8_t left = x;
    switch (sym_choice(6)) {
    case 0: {
      auto f = [&](V& t) -> expected<std::uint16_t, E> {
        ++calls;
        sym_assert(&t == &slot, "the function receives the referred object");
        if (d & 1) return unexpected<E>(E(d));
        return expected<std::uint16_t, E>(std::in_place, (std::uint16_t) (val(t) + 1));
      };
      auto r = q == 0 ? e.and_then(f) : q == 1 ? ce.and_then(f) : q == 2 ? std::move(e).and_then(f) : std::move(ce).and_then(f);
      sym_assert(calls == (has ? 1 : 0), "called exactly once, and only with a value");
      if (has) {
        sym_assert(r.has_value() == !(d & 1), "the function's result is the result");
        if (r) sym_assert(*r == (std::uint16_t) (s0 + 1), "the function's value");
        else sym_assert(val(r.error()) == d, "the function's error");
      } else {
        sym_assert(!r.has_value() && val(r.error()) == x, "an error passes through");
        if (q == 2) left = after_move<E>(x);
      }
      break;
    }
    case 1: {
      auto f = [&](auto&& t) -> expected<V&, std::uint16_t> {
        ++calls;
        sym_assert(val(t) == x, "the function receives the error");
        if (d & 1) return unexpected<std::uint16_t>((std::uint16_t) (val(t) + 1));
        return slot;
      };
      auto r = q == 0 ? e.or_else(f) : q == 1 ? ce.or_else(f) : q == 2 ? std::move(e).or_else(f) : std::move(ce).or_else(f);
      sym_assert(calls == (has ? 0 : 1), "called exactly once, and only with an error");
      if (has || !(d & 1)) sym_assert(r.has_value() && &*r == &slot, "refers to the object");
      else sym_assert(!r.has_value() && r.error() == (std::uint16_t) (x + 1), "the function's error");
      break;
    }
    case 2: {
      auto f = [&](V& t) -> std::uint16_t {
        ++calls;
        sym_assert(&t == &slot, "the function receives the referred object");
        return (std::uint16_t) (val(t) * 3);
      };
      auto r = q == 0 ? e.transform(f) : q == 1 ? ce.transform(f) : q == 2 ? std::move(e).transform(f) : std::move(ce).transform(f);
      sym_assert(calls == (has ? 1 : 0), "called exactly once, and only with a value");
      sym_assert(r.has_value() == has, "transform keeps the kind");
      if (has) sym_assert(*r == (std::uint16_t) (s0 * 3), "the function's value");
      else {
        sym_assert(val(r.error()) == x, "an error passes through");
        if (q == 2) left = after_move<E>(x);
      }
      break;
    }
    case 3: {
      auto f = [&](auto&& t) -> std::uint16_t {
        ++calls;
        sym_assert(val(t) == x, "the function receives the error");
        return (std::uint16_t) (val(t) * 3);
      };
      auto r = q == 0 ? e.transform_error(f) : q == 1 ? ce.transform_error(f) : q == 2 ? std::move(e).transform_error(f) : std::move(ce).transform_error(f);
      sym_assert(calls == (has ? 0 : 1), "called exactly once, and only with an error");
      sym_assert(r.has_value() == has, "transform_error keeps the kind");
      if (!has) sym_assert(r.error() == (std::uint16_t) (x * 3), "the function's error");
      else sym_assert(val(*r) == s0, "the value passes through");
      break;
    }
    case 4: {
      bool threw = false;
      try {
        sym_assert(&ce.value() == &slot, "value() is the referred object");
      } catch (const bad_expected_access<E>& b) {
        threw = true;
        sym_assert(val(b.error()) == x, "the exception carries the error");
      }
      sym_assert(threw == !has, "value() throws exactly when there is an error");
      sym_assert(val(ce.value_or(d)) == (has ? s0 : d), "value_or");
      sym_assert((ce == other) == (has && s0 == d), "equal to a value");
      if (has) {
        *e = other;
        sym_assert(val(slot) == d, "writing through the result writes the referred object");
        slot = V(s0);
      }
      break;
    }
    case 5: {
      E r = q & 1 ? ce.error_or(d) : std::move(e).error_or(d);
      sym_assert(val(r) == (has ? d : x), "error_or");
      if (!(q & 1) && !has) left = after_move<E>(x);
      unexpected<E> u(std::in_place, d);
      if (q & 1) sym_assert((ce == u) == (!has && x == d), "comparison with an unexpected");
      break;
    }
    }
    sym_assert(val(slot) == s0, "the referred object is not written");
    sym_assert(e.has_value() == has, "the source keeps its kind");
    if (!has) sym_assert(val(e.error()) == left, "the source is unchanged unless it was an rvalue that was consumed");
    else sym_assert(&*e == &slot, "still refers to the object");
    sym_cover("combine");
  }
  sym_assert(trk::live == 0, "everything constructed is destroyed exactly once");
}
}
HARNESS(ex_combine) { combine<A1, A2>(); }
HARNESS(ex_combine_triv) { combine<std::uint8_t, std::uint8_t>(); }
HARNESS(ex_convert) { convert<A1, A2>(); }
HARNESS(ex_convert_t) { convert<C1, B2>(); }
HARNESS(ev_combine) { vcombine<A2>(); }
HARNESS(ev_combine_triv) { vcombine<std::uint8_t>(); }
HARNESS(er_combine) { rcombine<A1, A2>(); }
HARNESS(er_combine_triv) { rcombine<std::uint8_t, std::uint8_t>(); }
