// Interface between a harness and the two ways of running it: the symbolic
// executor (bytes are symbolic, choices fork) and the native replayer (both
// come from a recorded input).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>

extern "C" {
void sym_bytes(void* p, size_t n);
uint64_t sym_choice(uint64_t n);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
[[noreturn]] void sym_fail(const char* msg);
void sym_observe(uint64_t v);
void sym_observe_bytes(const void* p, size_t n);
void sym_cover(const char* msg);
uint64_t sym_live_heap();
uint64_t sym_param();
uint64_t sym_thorough();
uint64_t sym_is_symbolic();
uint64_t sym_concretize(uint64_t v);
void sym_dbg(uint64_t v);
void sym_trace();
void sym_env(const char* name, const char* value); // environment, value null: unset
void sym_tz(long east); // time zone of the process, seconds east of UTC
}

#if defined(SYM_NATIVE)
struct sym_reg {
  sym_reg(const char* n, void (*f)());
};
#define HARNESS(name)                                                         \
  static void name##_impl();                                                  \
  static sym_reg name##_reg(#name, name##_impl);                              \
  static void name##_impl()
#else
#define HARNESS(name) extern "C" void name()
#endif

#define CHECK(c) sym_assert((c), #c)

template <class T>
inline T sym_val()
{
  unsigned char b[sizeof(T)];
  sym_bytes(b, sizeof(T));
  T v = 0;
  for (size_t i = 0; i < sizeof(T); ++i)
    v = (T) (v | ((T) b[i] << (8 * i)));
  return v;
}
inline uint64_t sym_u64() { return sym_val<uint64_t>(); }
inline uint32_t sym_u32() { return sym_val<uint32_t>(); }
inline uint16_t sym_u16() { return sym_val<uint16_t>(); }
inline uint8_t sym_u8() { return sym_val<uint8_t>(); }

// a string of n symbolic characters in a heap block of exactly n bytes, so
// that every access outside it is a memory error
struct sym_str {
  char* p;
  size_t n;
  explicit sym_str(size_t n_)
      : p(new char[n_])
      , n(n_)
  {
    sym_bytes(p, n);
  }
  // template: '?' is a symbolic character, everything else is literal
  explicit sym_str(const char* t)
      : n(0)
  {
    while (t[n])
      ++n;
    p = new char[n];
    for (size_t i = 0; i < n; ++i)
      if (t[i] == '?')
        sym_bytes(p + i, 1);
      else
        p[i] = t[i];
  }
  sym_str(const sym_str&) = delete;
  sym_str& operator=(const sym_str&) = delete;
  ~sym_str() { delete[] p; }
  std::string_view sv() const { return std::string_view(p, n); }
  const char* begin() const { return p; }
  const char* end() const { return p + n; }
  unsigned char operator[](size_t i) const { return (unsigned char) p[i]; }
};

inline void observe(std::string_view s)
{
  sym_observe(s.size());
  sym_observe_bytes(s.data(), s.size());
}
// branch-free equality of two buffers of known equal length
inline bool bytes_eq(const void* a, const void* b, size_t n)
{
  unsigned char d = 0;
  auto x = (const unsigned char*) a;
  auto y = (const unsigned char*) b;
  for (size_t i = 0; i < n; ++i)
    d = (unsigned char) (d | (x[i] ^ y[i]));
  return d == 0;
}
inline bool sv_eq(std::string_view a, std::string_view b)
{
  return a.size() == b.size() && bytes_eq(a.data(), b.data(), a.size());
}
inline void check_eq(std::string_view a, std::string_view b, const char* msg)
{
  sym_assert(a.size() == b.size(), msg);
  if (a.size() == b.size())
    sym_assert(bytes_eq(a.data(), b.data(), a.size()), msg);
}
