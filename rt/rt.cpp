// Stand-ins for the parts of libc / libstdc++ that are only available as
// machine code.  Interpreted by the symbolic executor.
#include <cstddef>
#include <cstdint>
#include <exception>
#include <map>
#include <stdexcept>
#include <string>
#include <system_error>
#include <unordered_map>

#include <ctime>
extern "C" {
#define C_UP 1
#define C_LO 2
#define C_DG 4
#define C_SP 8
#define C_PU 16
#define C_XD 32
struct ctab {
  unsigned char t[384];
  constexpr ctab()
      : t()
  {
    for (int i = 0; i < 384; ++i) {
      int c = i - 128;
      unsigned char k = 0;
      if (c >= 'A' && c <= 'Z')
        k |= C_UP;
      if (c >= 'a' && c <= 'z')
        k |= C_LO;
      if (c >= '0' && c <= '9')
        k |= C_DG | C_XD;
      if ((c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))
        k |= C_XD;
      if (c == ' ' || (c >= 9 && c <= 13))
        k |= C_SP;
      if (c > 32 && c < 127 && !(k & (C_UP | C_LO | C_DG)))
        k |= C_PU;
      t[i] = k;
    }
  }
};
static constexpr ctab CT;
struct ltab {
  short t[384];
  constexpr ltab(bool up)
      : t()
  {
    for (int i = 0; i < 384; ++i) {
      int c = i - 128;
      if (c < -1)
        c += 256; // glibc: the table repeats for negative char values, EOF apart
      int r = c;
      if (!up && c >= 'A' && c <= 'Z')
        r = c + 32;
      if (up && c >= 'a' && c <= 'z')
        r = c - 32;
      t[i] = (short) r;
    }
  }
};
uint64_t sym_concretize(uint64_t);
extern void* symex_exc_vtable[3];
static constexpr ltab LT(false), UT(true);
int isalnum(int c) { return CT.t[c + 128] & (C_UP | C_LO | C_DG); }
int isalpha(int c) { return CT.t[c + 128] & (C_UP | C_LO); }
int isdigit(int c) { return CT.t[c + 128] & C_DG; }
int isxdigit(int c) { return CT.t[c + 128] & C_XD; }
int isspace(int c) { return CT.t[c + 128] & C_SP; }
int isupper(int c) { return CT.t[c + 128] & C_UP; }
int islower(int c) { return CT.t[c + 128] & C_LO; }
int ispunct(int c) { return CT.t[c + 128] & C_PU; }
int isgraph(int c) { return CT.t[c + 128] & (C_UP | C_LO | C_DG | C_PU); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int tolower(int c) { return (unsigned) c + 128 < 384 ? LT.t[c + 128] : c; }
int toupper(int c) { return (unsigned) c + 128 < 384 ? UT.t[c + 128] : c; }

// the classic locale is the only one; nothing looks inside of it
static char CLASSIC[16];
void* _ZNSt6locale7classicEv() { return CLASSIC; }
bool _ZNKSt6localeeqERKS_(const void* a, const void* b) { return a == b; }
void _ZNSt6localeD1Ev(void*) { }
struct tm* gmtime_r(const time_t* tp, struct tm* r)
{
  long t = (long) sym_concretize((uint64_t) *tp); // one path per second
  long d = t / 86400, s = t % 86400;
  if (s < 0) {
    s += 86400;
    --d;
  }
  r->tm_hour = (int) (s / 3600);
  r->tm_min = (int) (s / 60 % 60);
  r->tm_sec = (int) (s % 60);
  long w = (d + 4) % 7;
  r->tm_wday = (int) (w < 0 ? w + 7 : w);
  long z = d + 719468;
  long era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned long doe = (unsigned long) (z - era * 146097);
  unsigned long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long y = (long) yoe + era * 400;
  unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned long mp = (5 * doy + 2) / 153;
  unsigned long dd = doy - (153 * mp + 2) / 5 + 1;
  unsigned long m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2;
  r->tm_year = (int) (y - 1900);
  r->tm_mon = (int) m - 1;
  r->tm_mday = (int) dd;
  static const int cum[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
  bool leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
  r->tm_yday = cum[m - 1] + (int) dd - 1 + (int) (leap & (m > 2));
  r->tm_isdst = 0;
  return r;
}
// environment: one variable at most
static const char *ENV_K, *ENV_V;
void sym_env(const char* k, const char* v)
{
  ENV_K = k;
  ENV_V = v;
}
char* getenv(const char* k)
{
  if (!ENV_K) return nullptr;
  for (size_t i = 0;; ++i) {
    if (k[i] != ENV_K[i]) return nullptr;
    if (!k[i]) return (char*) ENV_V;
  }
}
// type_info objects of fundamental types, which live in libsupc++
struct fti {
  const void* vt;
  const char* name;
};
#define FTI(x) extern const fti _ZTI##x; const fti _ZTI##x = { symex_exc_vtable, #x };
FTI(b) FTI(c) FTI(a) FTI(h) FTI(s) FTI(t) FTI(i) FTI(j) FTI(l) FTI(m) FTI(x) FTI(y) FTI(f) FTI(d) FTI(PKc)
// seconds east of UTC of the modelled time zone
static long TZ_EAST;
void sym_tz(long east) { TZ_EAST = east; }
struct tm* localtime_r(const time_t* tp, struct tm* r)
{
  time_t t = *tp + TZ_EAST;
  return gmtime_r(&t, r);
}
size_t strlen(const char* s)
{
  size_t n = 0;
  while (s[n])
    ++n;
  return n;
}
size_t strnlen(const char* s, size_t m)
{
  size_t n = 0;
  while (n < m && s[n])
    ++n;
  return n;
}
char* strchr(const char* s, int c)
{
  for (;; ++s) {
    if (*s == (char) c)
      return (char*) s;
    if (!*s)
      return nullptr;
  }
}
char* strrchr(const char* s, int c)
{
  const char* r = nullptr;
  for (;; ++s) {
    if (*s == (char) c)
      r = s;
    if (!*s)
      return (char*) r;
  }
}
void* memrchr(const void* p, int c, size_t n)
{
  auto b = (const unsigned char*) p;
  while (n--)
    if (b[n] == (unsigned char) c)
      return (void*) (b + n);
  return nullptr;
}
void* memmem(const void* p, size_t n, const void* q, size_t m)
{
  auto a = (const unsigned char*) p, b = (const unsigned char*) q;
  for (size_t i = 0; m <= n && i <= n - m; ++i) {
    size_t k = 0;
    while (k < m && a[i + k] == b[k])
      ++k;
    if (k == m)
      return (void*) (a + i);
  }
  return nullptr;
}
char* strstr(const char* s, const char* t)
{
  for (;; ++s) {
    size_t k = 0;
    while (t[k] && s[k] == t[k])
      ++k;
    if (!t[k])
      return (char*) s;
    if (!*s)
      return nullptr;
  }
}
size_t strspn(const char* s, const char* t)
{
  size_t n = 0;
  while (s[n] && strchr(t, s[n]))
    ++n;
  return n;
}
size_t strcspn(const char* s, const char* t)
{
  size_t n = 0;
  while (s[n] && !strchr(t, s[n]))
    ++n;
  return n;
}
char* strpbrk(const char* s, const char* t)
{
  s += strcspn(s, t);
  return *s ? (char*) s : nullptr;
}
int strncasecmp(const char* a, const char* b, size_t n)
{
  for (; n; ++a, ++b, --n) {
    int x = tolower((unsigned char) *a), y = tolower((unsigned char) *b);
    if (x != y)
      return x - y;
    if (!x)
      return 0;
  }
  return 0;
}
int strcasecmp(const char* a, const char* b) { return strncasecmp(a, b, ~size_t(0)); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int* __errno_location()
{
  static int e;
  return &e;
}
// magnitude and sign of the number at the beginning; range errors saturate
static unsigned long long tol(const char* s, char** end, int base, unsigned long long pos, unsigned long long neg, bool& minus, bool& over)
{
  const char* b = s;
  while (isspace((unsigned char) *s))
    ++s;
  minus = *s == '-';
  if (*s == '-' || *s == '+')
    ++s;
  auto dig = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; };
  if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dig(s[2]) < 16) {
    s += 2;
    base = 16;
  } else if (base == 0)
    base = *s == '0' ? 8 : 10;
  unsigned long long v = 0, lim = minus ? neg : pos;
  bool any = false;
  over = false;
  for (; dig(*s) < base; ++s) {
    any = true;
    unsigned long long d = dig(*s);
    if (v > (lim - d) / base || d > lim)
      over = true;
    if (!over)
      v = v * base + d;
  }
  if (end)
    *end = (char*) (any ? s : b);
  if (over) {
    *__errno_location() = 34;
    v = lim;
  }
  return any ? v : 0;
}
long strtol(const char* s, char** e, int b)
{
  bool m, o;
  auto v = tol(s, e, b, ~0ull >> 1, 1ull << 63, m, o);
  return (long) (m ? 0 - v : v);
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b)
{
  bool m, o;
  auto v = tol(s, e, b, ~0ull, ~0ull, m, o);
  return o ? ~0ul : m ? 0 - v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
#define TOL(t, n)                                                             \
  t symex_##n(const char*, char**, int) asm(#n);                              \
  t symex_##n(const char* s, char** e, int b) { return n(s, e, b); }
TOL(long, strtol) TOL(long long, strtoll) TOL(unsigned long, strtoul) TOL(unsigned long long, strtoull)
int symex_atoi(const char* s) asm("atoi");
int symex_atoi(const char* s) { return (int) strtol(s, nullptr, 10); }
long symex_atol(const char* s) asm("atol");
long symex_atol(const char* s) { return strtol(s, nullptr, 10); }
void* memchr(const void* p, int c, size_t n)
{
  auto b = (const unsigned char*) p;
  for (size_t i = 0; i < n; ++i)
    if (b[i] == (unsigned char) c)
      return (void*) (b + i);
  return nullptr;
}
int strcmp(const char* a, const char* b)
{
  for (;; ++a, ++b) {
    if (*a != *b)
      return (unsigned char) *a < (unsigned char) *b ? -1 : 1;
    if (!*a)
      return 0;
  }
}
int strncmp(const char* a, const char* b, size_t n)
{
  for (; n; ++a, ++b, --n) {
    if (*a != *b)
      return (unsigned char) *a < (unsigned char) *b ? -1 : 1;
    if (!*a)
      return 0;
  }
  return 0;
}

// exceptions thrown by the library itself
void symex_exc_dtor(void*) { }
const char* symex_exc_what(void*) { return "exception"; }


extern void* symex_exc_vtable[3];
void* symex_exc_vtable[3] = {(void*) symex_exc_dtor, (void*) symex_exc_dtor,
                             (void*) symex_exc_what};

#define EXC(cls)                                                              \
  void _ZNSt##cls##C1EPKc(void* s, const char*)                               \
  {                                                                           \
    *(void***) s = symex_exc_vtable;                                          \
  }                                                                           \
  void _ZNSt##cls##C2EPKc(void* s, const char*)                               \
  {                                                                           \
    *(void***) s = symex_exc_vtable;                                          \
  }                                                                           \
  void                                                                        \
      _ZNSt##cls##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(  \
          void* s, const void*)                                               \
  {                                                                           \
    *(void***) s = symex_exc_vtable;                                          \
  }                                                                           \
  void                                                                        \
      _ZNSt##cls##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(  \
          void* s, const void*)                                               \
  {                                                                           \
    *(void***) s = symex_exc_vtable;                                          \
  }                                                                           \
  void _ZNSt##cls##C1ERKS_(void* s, const void*)                              \
  {                                                                           \
    *(void***) s = symex_exc_vtable;                                          \
  }                                                                           \
  void _ZNSt##cls##C2ERKS_(void* s, const void*)                              \
  {                                                                           \
    *(void***) s = symex_exc_vtable;                                          \
  }                                                                           \
  void _ZNSt##cls##D1Ev(void*) { }                                            \
  void _ZNSt##cls##D2Ev(void*) { }
EXC(11logic_error)
EXC(13runtime_error)
EXC(12out_of_range)
EXC(12length_error)
EXC(16invalid_argument)
EXC(12domain_error)
EXC(11range_error)
EXC(14overflow_error)
const char* _ZNKSt11logic_error4whatEv(const void*) { return "exception"; }
const char* _ZNKSt13runtime_error4whatEv(const void*) { return "exception"; }
void _ZNSt9bad_allocD1Ev(void*) { }
void _ZNSt9bad_allocD2Ev(void*) { }
void _ZNSt9bad_allocD0Ev(void*) { }
void _ZNSt8bad_castD1Ev(void*) { }
void _ZNSt8bad_castD2Ev(void*) { }
void _ZNSt12bad_weak_ptrD1Ev(void*) { }
void _ZNSt12bad_weak_ptrD2Ev(void*) { }
}

namespace std {
exception::~exception() noexcept { }
const char* exception::what() const noexcept { return "exception"; }
bad_exception::~bad_exception() noexcept { }
const char* bad_exception::what() const noexcept { return "bad_exception"; }

// red-black tree -----------------------------------------------------------
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y)
      x = y;
  }
  return x;
}
const _Rb_tree_node_base*
_Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right)
      y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
const _Rb_tree_node_base*
_Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
  _Rb_tree_node_base* y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left)
    y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_left)
    x->_M_parent->_M_left = y;
  else
    x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
  _Rb_tree_node_base* y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right)
    y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_right)
    x->_M_parent->_M_right = y;
  else
    x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) throw()
{
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left)
      h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) {
          x = x->_M_parent;
          rotL(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotR(xpp, root);
      }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) {
          x = x->_M_parent;
          rotR(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotL(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base*
_Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                             _Rb_tree_node_base& h) throw()
{
  _Rb_tree_node_base*& root = h._M_parent;
  _Rb_tree_node_base*& leftmost = h._M_left;
  _Rb_tree_node_base*& rightmost = h._M_right;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = 0;
  _Rb_tree_node_base* xp = 0;
  if (y->_M_left == 0)
    x = y->_M_right;
  else if (y->_M_right == 0)
    x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left != 0)
      y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x)
        x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else
      xp = y;
    if (root == z)
      root = y;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = y;
    else
      z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c = y->_M_color;
    y->_M_color = z->_M_color;
    z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x)
      x->_M_parent = y->_M_parent;
    if (root == z)
      root = x;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = x;
    else
      z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0)
        leftmost = z->_M_parent;
      else {
        leftmost = x;
        while (leftmost->_M_left)
          leftmost = leftmost->_M_left;
      }
    }
    if (rightmost == z) {
      if (z->_M_left == 0)
        rightmost = z->_M_parent;
      else {
        rightmost = x;
        while (rightmost->_M_right)
          rightmost = rightmost->_M_right;
      }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rotL(xp, root);
          w = xp->_M_right;
        }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black)
            && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        } else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) {
            w->_M_left->_M_color = _S_black;
            w->_M_color = _S_red;
            rotR(w, root);
            w = xp->_M_right;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if (w->_M_right)
            w->_M_right->_M_color = _S_black;
          rotL(xp, root);
          break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rotR(xp, root);
          w = xp->_M_left;
        }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black)
            && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        } else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) {
            w->_M_right->_M_color = _S_black;
            w->_M_color = _S_red;
            rotL(w, root);
            w = xp->_M_left;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if (w->_M_left)
            w->_M_left->_M_color = _S_black;
          rotR(xp, root);
          break;
        }
      }
    if (x)
      x->_M_color = _S_black;
  }
  return y;
}

// hashing: the hash of a string is its length, so that bucket choice never
// depends on symbolic content (a legal, if poor, hash function)
size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }
size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n; }
namespace __detail {
  static const size_t primes[]
      = {2,  3,  5,   7,   11,  13,  17,  19,   23,   29,   31,   37,
         41, 59, 97,  127, 199, 257, 541, 1109, 2357, 5087, 10273, 20753};
  size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
  {
    for (size_t p : primes)
      if (p >= n) {
        _M_next_resize = p;
        return p;
      }
    __builtin_trap();
  }
  pair<bool, size_t>
  _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt,
                                       size_t ins) const
  {
    if (elt + ins > _M_next_resize) {
      size_t want = elt + ins;
      if (_M_next_resize == 0 && want < 11)
        want = 11;
      if (want >= bkt) {
        size_t g = bkt * 2;
        size_t w = want + 1;
        return {true, _M_next_bkt(w > g ? w : g)};
      }
      _M_next_resize = bkt;
    }
    return {false, 0};
  }
}

inline namespace _V2 {
  error_category::~error_category() { }
  error_condition error_category::default_error_condition(int e) const noexcept
  {
    return error_condition(e, *this);
  }
  bool error_category::equivalent(int e,
                                  const error_condition& c) const noexcept
  {
    return default_error_condition(e) == c;
  }
  bool error_category::equivalent(const error_code& c, int e) const noexcept
  {
    return *this == c.category() && c.value() == e;
  }
  __attribute__((weak)) __cow_string error_category::_M_message(int) const
  {
    __builtin_trap();
  }
}
namespace {
  struct gcat : error_category {
    const char* name() const noexcept override { return "generic"; }
    string message(int) const override { return "generic error"; }
  };
  struct scat : error_category {
    const char* name() const noexcept override { return "system"; }
    string message(int) const override { return "system error"; }
    error_condition default_error_condition(int e) const noexcept override
    {
      return error_condition(e, generic_category());
    }
  };
  constinit gcat GC {};
  constinit scat SC {};
}
inline namespace _V2 {
  const error_category& generic_category() noexcept { return GC; }
  const error_category& system_category() noexcept { return SC; }
}
}
extern "C" int rt_xalloc() __asm__("_ZNSt8ios_base6xallocEv");
extern "C" int rt_xalloc()
{
  static int n = 3;
  return ++n;
}

// ---- std::future --------------------------------------------------------
#include <future>
namespace std {
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
}

// ---- clocks: time stands still --------------------------------------------
#include <chrono>
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1700000000123456789)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000)); }
}
}

// ---- std::call_once ---------------------------------------------------------
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
extern "C" int pthread_once(int* o, void (*f)())
{
  if (*o == 0) {
    f();
    *o = 2;
  }
  return 0;
}
