// Value types that account for their own lifetime: every object is constructed
// once and destroyed once at the address it was constructed at, copies and
// moves are counted, and any throwing operation can be made to throw.
#pragma once
#include "sym.h"
#include <utility>

struct boom { };
namespace trk {
inline int live = 0;   // objects alive
inline int fuse = -1;  // the fuse-th throwing operation from now throws (-1: none)
inline int copies = 0, moves = 0;
inline void step()
{
  if (fuse == 0) {
    fuse = -1;
    throw boom {};
  }
  if (fuse > 0) --fuse;
}
}

// NM: nothrow move, NC: nothrow copy, NV: nothrow construction from a byte
template <int Tag, bool NM, bool NC, bool NV>
struct Tr {
  Tr* self;
  std::uint8_t v;
  bool moved;
  Tr() noexcept(NV)
      : v(0)
      , moved(false)
  {
    if constexpr (!NV) trk::step();
    born();
  }
  Tr(std::uint8_t x) noexcept(NV)
      : v(x)
      , moved(false)
  {
    if constexpr (!NV) trk::step();
    born();
  }
  Tr(const Tr& o) noexcept(NC)
      : v(o.v)
      , moved(o.moved)
  {
    o.check();
    if constexpr (!NC) trk::step();
    ++trk::copies;
    born();
  }
  Tr(Tr&& o) noexcept(NM)
      : v(o.v)
      , moved(o.moved)
  {
    o.check();
    if constexpr (!NM) trk::step();
    ++trk::moves;
    o.moved = true;
    o.v = 0xEE;
    born();
  }
  Tr& operator=(const Tr& o) noexcept(NC)
  {
    o.check();
    check();
    if constexpr (!NC) trk::step();
    ++trk::copies;
    v = o.v;
    moved = o.moved;
    return *this;
  }
  Tr& operator=(Tr&& o) noexcept(NM)
  {
    o.check();
    check();
    if constexpr (!NM) trk::step();
    if (this == &o) return *this;
    ++trk::moves;
    v = o.v;
    moved = o.moved;
    o.moved = true;
    o.v = 0xEE;
    return *this;
  }
  ~Tr()
  {
    check();
    self = nullptr;
    --trk::live;
  }
  friend void swap(Tr& a, Tr& b) noexcept
  {
    a.check();
    b.check();
    std::swap(a.v, b.v);
    std::swap(a.moved, b.moved);
  }
  friend bool operator==(const Tr& a, const Tr& b)
  {
    a.check();
    b.check();
    return a.v == b.v;
  }
  friend auto operator<=>(const Tr& a, const Tr& b)
  {
    a.check();
    b.check();
    return a.v <=> b.v;
  }
  void check() const { sym_assert(self == this, "object used outside its lifetime"); }

private:
  void born()
  {
    self = this;
    ++trk::live;
  }
};
template <class T>
inline std::uint8_t val(const T& t)
{
  if constexpr (requires { t.self; }) {
    t.check();
    return t.v;
  } else {
    return (std::uint8_t) t;
  }
}
template <class T>
inline constexpr bool is_tr = requires(T t) { t.self; };
// does moving from it change it?
template <class T>
inline constexpr bool leaves_mark = is_tr<T>;
