// Bit-vector expression DAG over symbolic input bytes.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

[[noreturn]] inline void die(const std::string& m)
{
  fprintf(stderr, "symex: fatal: %s\n", m.c_str());
  exit(3);
}

struct Set256 {
  u64 w[4] = {0, 0, 0, 0};
  bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void add(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  bool full() const { return (w[0] & w[1] & w[2] & w[3]) == ~0ull; }
  int count() const
  {
    return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1])
        + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]);
  }
  int first() const
  {
    for (int i = 0; i < 4; ++i)
      if (w[i])
        return i * 64 + __builtin_ctzll(w[i]);
    return -1;
  }
  Set256 operator&(const Set256& o) const
  {
    Set256 r;
    for (int i = 0; i < 4; ++i)
      r.w[i] = w[i] & o.w[i];
    return r;
  }
  Set256 operator|(const Set256& o) const
  {
    Set256 r;
    for (int i = 0; i < 4; ++i)
      r.w[i] = w[i] | o.w[i];
    return r;
  }
  Set256 operator~() const
  {
    Set256 r;
    for (int i = 0; i < 4; ++i)
      r.w[i] = ~w[i];
    return r;
  }
  bool operator==(const Set256& o) const
  {
    return !memcmp(w, o.w, sizeof w);
  }
};

struct SetHash {
  size_t operator()(const Set256& s) const
  {
    u64 h = 1469598103934665603ull;
    for (u64 x : s.w) {
      h ^= x;
      h *= 0x9E3779B97F4A7C15ull;
      h ^= h >> 29;
    }
    return h;
  }
};

struct SetPool {
  std::deque<Set256> v;
  std::unordered_map<Set256, u32, SetHash> m;
  u32 full;
  SetPool()
  {
    Set256 f;
    f = ~f;
    full = id(f);
  }
  u32 id(const Set256& s)
  {
    auto [it, ins] = m.try_emplace(s, (u32) v.size());
    if (ins)
      v.push_back(s);
    return it->second;
  }
  const Set256& operator[](u32 i) const { return v[i]; }
};
inline SetPool SETS;

enum Op : u8 {
  CONST,
  VAR,
  INSET,
  LOOKUP,
  ADD,
  SUB,
  MUL,
  UDIV,
  SDIV,
  UREM,
  SREM,
  AND,
  OR,
  XOR,
  SHL,
  LSHR,
  ASHR,
  NOT,
  EQ,
  ULT,
  ULE,
  SLT,
  SLE,
  ITE,
  CONCAT,
  EXTRACT,
  ZEXT,
  SEXT
};

struct Sup {
  std::vector<u16> v;
  u32 id;
};

struct Expr {
  Op op;
  u16 w;
  u32 id;
  u32 aux; // VAR: var, INSET: set id, LOOKUP: table id, EXTRACT: lo bit
  Expr *a = nullptr, *b = nullptr, *c = nullptr;
  u128 val = 0; // CONST
  const Sup* sup;
  u32 ep = 0;
  u128 ev = 0;
  u64* tb = nullptr; // 256-entry value table for single-byte support
  void* z = nullptr; // Z3_ast
  bool isC() const { return op == CONST; }
};

inline u128 maskw(unsigned w)
{
  return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1);
}
inline i128 sx(u128 v, unsigned w)
{
  if (w >= 128)
    return (i128) v;
  u128 m = (u128) 1 << (w - 1);
  v &= maskw(w);
  return (i128) ((v ^ m) - m);
}

struct TablePool {
  std::deque<std::vector<u64>> v;
  std::map<std::vector<u64>, u32> m;
  u32 id(const std::vector<u64>& t)
  {
    auto [it, ins] = m.try_emplace(t, (u32) v.size());
    if (ins)
      v.push_back(t);
    return it->second;
  }
};
inline TablePool TABLES;

struct SupPool {
  std::deque<Sup> v;
  std::map<std::vector<u16>, const Sup*> m;
  std::unordered_map<u64, const Sup*> uni;
  const Sup* empty;
  SupPool() { empty = get({}); }
  const Sup* get(const std::vector<u16>& s)
  {
    auto it = m.find(s);
    if (it != m.end())
      return it->second;
    v.push_back(Sup {s, (u32) v.size()});
    m[s] = &v.back();
    return &v.back();
  }
  const Sup* join(const Sup* a, const Sup* b)
  {
    if (a == b || b->v.empty())
      return a;
    if (a->v.empty())
      return b;
    u32 x = a->id, y = b->id;
    if (x > y)
      std::swap(x, y);
    u64 k = ((u64) x << 32) | y;
    auto it = uni.find(k);
    if (it != uni.end())
      return it->second;
    std::vector<u16> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(),
                   std::back_inserter(r));
    const Sup* s = get(r);
    uni[k] = s;
    return s;
  }
};
inline SupPool SUPS;

struct ExprKeyHash {
  size_t operator()(const Expr* e) const
  {
    u64 h = (u64) e->op * 0x9E3779B97F4A7C15ull + e->w;
    auto mix = [&](u64 x) {
      h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      h *= 0xff51afd7ed558ccdull;
      h ^= h >> 32;
    };
    mix(e->aux);
    mix((u64) e->a);
    mix((u64) e->b);
    mix((u64) e->c);
    mix((u64) e->val);
    mix((u64) (e->val >> 64));
    return h;
  }
};
struct ExprKeyEq {
  bool operator()(const Expr* x, const Expr* y) const
  {
    return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a
        && x->b == y->b && x->c == y->c && x->val == y->val;
  }
};

inline std::unordered_set<Expr*, ExprKeyHash, ExprKeyEq> INTERN;
inline std::deque<Expr> ARENA;
inline u32 EPOCH = 1;

inline u128 foldBin(Op op, u128 a, u128 b, unsigned w)
{
  u128 m = maskw(w);
  switch (op) {
  case ADD:
    return (a + b) & m;
  case SUB:
    return (a - b) & m;
  case MUL:
    return (a * b) & m;
  case UDIV:
    return b ? a / b : m;
  case SDIV: {
    i128 x = sx(a, w), y = sx(b, w);
    if (!y)
      return x < 0 ? 1 : m;
    if (y == -1)
      return (u128) (-(u128) x) & m;
    return (u128) (x / y) & m;
  }
  case UREM:
    return b ? a % b : a;
  case SREM: {
    i128 x = sx(a, w), y = sx(b, w);
    if (!y)
      return a;
    if (y == -1)
      return 0;
    return (u128) (x % y) & m;
  }
  case AND:
    return a & b;
  case OR:
    return a | b;
  case XOR:
    return a ^ b;
  case SHL:
    return b >= w ? 0 : (a << (unsigned) b) & m;
  case LSHR:
    return b >= w ? 0 : a >> (unsigned) b;
  case ASHR:
    return (u128) (sx(a, w) >> (b >= w ? w - 1 : (unsigned) b)) & m;
  case EQ:
    return a == b;
  case ULT:
    return a < b;
  case ULE:
    return a <= b;
  case SLT:
    return sx(a, w) < sx(b, w);
  case SLE:
    return sx(a, w) <= sx(b, w);
  default:
    die("foldBin");
  }
}

inline u64* tblOf(Expr* e);

inline Expr* internE(const Expr& k)
{
  auto it = INTERN.find(const_cast<Expr*>(&k));
  if (it != INTERN.end())
    return *it;
  ARENA.push_back(k);
  Expr* e = &ARENA.back();
  e->id = (u32) ARENA.size();
  const Sup* s = SUPS.empty;
  if (e->op == VAR)
    s = SUPS.get({(u16) e->aux});
  else {
    if (e->a)
      s = SUPS.join(s, e->a->sup);
    if (e->b)
      s = SUPS.join(s, e->b->sup);
    if (e->c)
      s = SUPS.join(s, e->c->sup);
  }
  e->sup = s;
  INTERN.insert(e);
  return e;
}

inline Expr* K(u128 v, unsigned w)
{
  Expr k {};
  k.op = CONST;
  k.w = w;
  k.val = v & maskw(w);
  return internE(k);
}
inline Expr* TRUE_()
{
  static Expr* e = K(1, 1);
  return e;
}
inline Expr* FALSE_()
{
  static Expr* e = K(0, 1);
  return e;
}
inline Expr* mkVar(u32 i)
{
  if (i > 60000)
    die("too many symbolic bytes");
  Expr k {};
  k.op = VAR;
  k.w = 8;
  k.aux = i;
  return internE(k);
}
inline Expr* mkInset(u32 var, const Set256& s)
{
  if (s.empty())
    return FALSE_();
  if (s.full())
    return TRUE_();
  Expr k {};
  k.op = INSET;
  k.w = 1;
  k.a = mkVar(var);
  k.aux = SETS.id(s);
  return internE(k);
}

inline u128 evalNode(Expr* e, u128 a, u128 b, u128 c)
{
  switch (e->op) {
  case CONST:
    return e->val;
  case INSET:
    return SETS[e->aux].has((unsigned) a);
  case LOOKUP: {
    auto& t = TABLES.v[e->aux];
    return a < t.size() ? t[(size_t) a] : 0;
  }
  case NOT:
    return ~a & maskw(e->w);
  case ITE:
    return a ? b : c;
  case CONCAT:
    return (a << e->b->w) | b;
  case EXTRACT:
    return (a >> e->aux) & maskw(e->w);
  case ZEXT:
    return a;
  case SEXT:
    return (u128) sx(a, e->a->w) & maskw(e->w);
  default:
    return foldBin(e->op, a, b, e->a->w);
  }
}

inline u64* tblOf(Expr* e)
{
  if (e->tb)
    return e->tb;
  u64* t = (u64*) malloc(256 * 8);
  if (e->op == VAR) {
    for (int i = 0; i < 256; ++i)
      t[i] = i;
  } else if (e->op == CONST) {
    for (int i = 0; i < 256; ++i)
      t[i] = (u64) e->val;
    // constants are not cached on the node to save memory
    e->tb = t;
    return t;
  } else {
    static u64 zero[256];
    u64* a = e->a ? tblOf(e->a) : zero;
    u64* b = e->b ? tblOf(e->b) : zero;
    u64* c = e->c ? tblOf(e->c) : zero;
    for (int i = 0; i < 256; ++i)
      t[i] = (u64) evalNode(e, a[i], b[i], c[i]);
  }
  e->tb = t;
  return t;
}
inline bool narrowAll(Expr* e) // every node <= 64 bits
{
  if (e->w > 64)
    return false;
  if (e->tb)
    return true;
  return (!e->a || narrowAll(e->a)) && (!e->b || narrowAll(e->b))
      && (!e->c || narrowAll(e->c));
}

inline u128 evalE(Expr* e, const u8* wit)
{
  if (e->op == CONST)
    return e->val;
  if (e->op == VAR)
    return wit[e->aux];
  if (e->ep == EPOCH)
    return e->ev;
  if (e->tb) {
    u128 v = e->tb[wit[e->sup->v[0]]];
    e->ep = EPOCH;
    e->ev = v;
    return v;
  }
  u128 r;
  if (e->op == ITE) {
    r = evalE(e->a, wit) ? evalE(e->b, wit) : evalE(e->c, wit);
  } else {
    u128 a = e->a ? evalE(e->a, wit) : 0;
    u128 b = e->b ? evalE(e->b, wit) : 0;
    u128 c = e->c ? evalE(e->c, wit) : 0;
    r = evalNode(e, a, b, c);
  }
  e->ep = EPOCH;
  e->ev = r;
  return r;
}

// bits that can possibly be one
inline u128 maybeOnes(Expr* e, int depth = 0)
{
  u128 m = maskw(e->w);
  if (e->op == CONST)
    return e->val;
  if (depth > 12)
    return m;
  switch (e->op) {
  case ZEXT:
    return maybeOnes(e->a, depth + 1);
  case CONCAT:
    return (maybeOnes(e->a, depth + 1) << e->b->w)
        | maybeOnes(e->b, depth + 1);
  case EXTRACT:
    return (maybeOnes(e->a, depth + 1) >> e->aux) & m;
  case AND:
    return maybeOnes(e->a, depth + 1) & maybeOnes(e->b, depth + 1);
  case OR:
  case XOR:
    return maybeOnes(e->a, depth + 1) | maybeOnes(e->b, depth + 1);
  case ITE:
    return maybeOnes(e->b, depth + 1) | maybeOnes(e->c, depth + 1);
  case LOOKUP: {
    u128 r = 0;
    for (u64 x : TABLES.v[e->aux])
      r |= x;
    return r & m;
  }
  case ADD: {
    u128 x = maybeOnes(e->a, depth + 1), y = maybeOnes(e->b, depth + 1);
    if (!(x & y))
      return x | y;
    u128 s = x | y;
    // round up to one more bit
    unsigned hb = 0;
    while (s >> hb && hb < 127)
      ++hb;
    u128 tz = 0; // common trailing zeros
    u128 o = x | y;
    while (tz < 127 && !((o >> (unsigned) tz) & 1))
      ++tz;
    return m & maskw(hb + 1) & ~maskw((unsigned) tz);
  }
  case MUL: {
    if (e->b->op == CONST) {
      u128 x = maybeOnes(e->a, depth + 1);
      unsigned hb = 0, kb = 0;
      while (hb < 128 && (x >> hb))
        ++hb;
      while (kb < 128 && (e->b->val >> kb))
        ++kb;
      return m & maskw(std::min(128u, hb + kb));
    }
    return m;
  }
  case UREM:
    if (e->b->op == CONST && e->b->val) {
      unsigned kb = 0;
      while (kb < 128 && ((e->b->val - 1) >> kb))
        ++kb;
      return m & maskw(kb) ;
    }
    return m;
  case UDIV:
    if (e->b->op == CONST && e->b->val) {
      u128 x = maybeOnes(e->a, depth + 1) / e->b->val;
      unsigned kb = 0;
      while (kb < 128 && (x >> kb))
        ++kb;
      return m & maskw(kb);
    }
    return m;
  default:
    return m;
  }
}

Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkLookup(Expr* idx, const std::vector<u64>& t, unsigned w);

inline Expr* raw(Op op, unsigned w, Expr* a, Expr* b = nullptr,
                 Expr* c = nullptr, u32 aux = 0)
{
  Expr k {};
  k.op = op;
  k.w = w;
  k.a = a;
  k.b = b;
  k.c = c;
  k.aux = aux;
  Expr* e = internE(k);
  if (w == 1 && op != INSET && op != CONST && op != VAR
      && e->sup->v.size() == 1 && narrowAll(e)) {
    u64* t = tblOf(e);
    Set256 s;
    for (int i = 0; i < 256; ++i)
      if (t[i] & 1)
        s.add(i);
    return mkInset(e->sup->v[0], s);
  }
  return e;
}

inline Expr* mkNot(Expr* a)
{
  if (a->op == CONST)
    return K(~a->val, a->w);
  if (a->op == NOT)
    return a->a;
  if (a->op == INSET)
    return mkInset(a->a->aux, ~SETS[a->aux]);
  if (a->w == 1) {
    if (a->op == ULT)
      return mkBin(ULE, a->b, a->a);
    if (a->op == ULE)
      return mkBin(ULT, a->b, a->a);
    if (a->op == SLT)
      return mkBin(SLE, a->b, a->a);
    if (a->op == SLE)
      return mkBin(SLT, a->b, a->a);
  }
  return raw(NOT, a->w, a);
}

inline Expr* mkLookup(Expr* idx, const std::vector<u64>& t, unsigned w)
{
  if (idx->op == CONST)
    return K(idx->val < t.size() ? t[(size_t) idx->val] : 0, w);
  bool same = true;
  for (u64 x : t)
    same &= x == t[0];
  if (same && t.size() && maybeOnes(idx) < t.size())
    return K(t[0], w);
  return raw(LOOKUP, w, idx, nullptr, nullptr, TABLES.id(t));
}

inline bool constArms(Expr* e, int depth = 0)
{
  // ITE tree whose leaves are all constants
  if (e->op == CONST)
    return true;
  if (e->op != ITE || depth > 8)
    return false;
  return constArms(e->b, depth + 1) && constArms(e->c, depth + 1);
}

template <class F>
inline Expr* mapArms(Expr* e, F f)
{
  if (e->op == ITE)
    return mkIte(e->a, mapArms(e->b, f), mapArms(e->c, f));
  return f(e);
}

inline Expr* mkExtract(Expr* a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w)
    return a;
  switch (a->op) {
  case CONST:
    return K(a->val >> lo, w);
  case EXTRACT:
    return mkExtract(a->a, a->aux + lo, w);
  case ZEXT: {
    unsigned iw = a->a->w;
    if (lo >= iw)
      return K(0, w);
    if (lo + w <= iw)
      return mkExtract(a->a, lo, w);
    return mkZext(mkExtract(a->a, lo, iw - lo), w);
  }
  case SEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw)
      return mkExtract(a->a, lo, w);
    if (lo < iw)
      return mkSext(mkExtract(a->a, lo, iw - lo), w);
    if (w == 1)
      return mkExtract(a->a, iw - 1, 1);
    return mkSext(mkExtract(a->a, iw - 1, 1), w);
  }
  case CONCAT: {
    unsigned lw = a->b->w;
    if (lo >= lw)
      return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw)
      return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw),
                    mkExtract(a->b, lo, lw - lo));
  }
  case AND:
  case OR:
  case XOR:
    return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case NOT:
    return mkNot(mkExtract(a->a, lo, w));
  case ADD:
  case SUB:
  case MUL:
    if (lo == 0)
      return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case ITE:
    if (a->b->op == CONST || a->c->op == CONST || a->b->op == CONCAT
        || a->c->op == CONCAT || a->b->op == ZEXT || a->c->op == ZEXT)
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case LOOKUP:
    if (lo == 0 || w <= 8) {
      std::vector<u64> t = TABLES.v[a->aux];
      for (u64& x : t)
        x = (u64) ((x >> lo) & maskw(w));
      return mkLookup(a->a, t, w);
    }
    break;
  default:
    break;
  }
  return raw(EXTRACT, w, a, nullptr, nullptr, lo);
}

inline Expr* mkConcat(Expr* hi, Expr* lo)
{
  unsigned w = hi->w + lo->w;
  if (w > 128)
    die("concat > 128");
  if (hi->op == CONST && lo->op == CONST)
    return K((hi->val << lo->w) | lo->val, w);
  if (hi->op == CONST && hi->val == 0)
    return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a
      && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->a, lo->aux, w);
  // extract of the upper part with whole lower: concat(extract(x,k,..), trunc x)
  if (lo->op == CONCAT) {
    // try to merge hi with lo->a
    if (hi->op == EXTRACT && lo->a->op == EXTRACT && hi->a == lo->a->a
        && hi->aux == lo->a->aux + lo->a->w)
      return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (hi->op == CONST && lo->a->op == CONST)
      return mkConcat(mkConcat(hi, lo->a), lo->b);
  }
  if (hi->op == CONCAT && hi->b->op == CONST && lo->op == CONST)
    return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == CONCAT)
    return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-assoc canonical form
  if (lo->op == ZEXT && hi->op == CONST && hi->val == 0)
    return mkZext(lo->a, w);
  return raw(CONCAT, w, hi, lo);
}

inline Expr* mkZext(Expr* a, unsigned w)
{
  if (w == a->w)
    return a;
  if (w > 128)
    die("zext > 128");
  if (a->op == CONST)
    return K(a->val, w);
  if (a->op == ZEXT)
    return mkZext(a->a, w);
  if (a->op == LOOKUP && w <= 64)
    return raw(LOOKUP, w, a->a, nullptr, nullptr, a->aux);
  if (a->op == ITE && constArms(a))
    return mapArms(a, [w](Expr* x) { return mkZext(x, w); });
  return raw(ZEXT, w, a);
}
inline Expr* mkSext(Expr* a, unsigned w)
{
  if (w == a->w)
    return a;
  if (a->op == CONST)
    return K((u128) sx(a->val, a->w), w);
  if (a->op == ZEXT)
    return mkZext(a->a, w);
  if (a->op == SEXT)
    return mkSext(a->a, w);
  if (!((maybeOnes(a) >> (a->w - 1)) & 1))
    return mkZext(a, w);
  if (a->op == ITE && constArms(a))
    return mapArms(a, [w](Expr* x) { return mkSext(x, w); });
  return raw(SEXT, w, a);
}

inline Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
  if (c->op == CONST)
    return c->val ? a : b;
  if (a == b)
    return a;
  if (c->op == NOT)
    return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->op == CONST)
      return a->val ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (b->op == CONST)
      return b->val ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  }
  if (a->op == ITE && a->a == c)
    return mkIte(c, a->b, b);
  if (b->op == ITE && b->a == c)
    return mkIte(c, a, b->c);
  if (b->op == ITE && b->b == a)
    return mkIte(mkBin(OR, c, b->a), a, b->c);
  return raw(ITE, a->w, c, a, b);
}

inline bool isCommut(Op op)
{
  return op == ADD || op == MUL || op == AND || op == OR || op == XOR
      || op == EQ;
}

inline Expr* mkEq(Expr* a, Expr* b)
{
  if (a == b)
    return TRUE_();
  if (a->op == CONST)
    std::swap(a, b);
  if (a->op == CONST)
    return K(a->val == b->val, 1);
  if (b->op == CONST) {
    u128 c = b->val;
    if (a->w == 1)
      return c ? a : mkNot(a);
    switch (a->op) {
    case ZEXT:
      if (c >> a->a->w)
        return FALSE_();
      return mkEq(a->a, K(c, a->a->w));
    case SEXT: {
      u128 t = c & maskw(a->a->w);
      if (((u128) sx(t, a->a->w) & maskw(a->w)) != c)
        return FALSE_();
      return mkEq(a->a, K(t, a->a->w));
    }
    case CONCAT:
      return mkBin(AND, mkEq(a->a, K(c >> a->b->w, a->a->w)),
                   mkEq(a->b, K(c, a->b->w)));
    case XOR:
      if (a->b->op == CONST)
        return mkEq(a->a, K(c ^ a->b->val, a->w));
      break;
    case ADD:
      if (a->b->op == CONST)
        return mkEq(a->a, K(c - a->b->val, a->w));
      break;
    case SUB:
      if (a->a->op == CONST)
        return mkEq(a->b, K(a->a->val - c, a->w));
      if (c == 0)
        return mkEq(a->a, a->b);
      break;
    case NOT:
      return mkEq(a->a, K(~c, a->w));
    case OR:
      if (c == 0)
        return mkBin(AND, mkEq(a->a, b), mkEq(a->b, b));
      break;
    case ITE:
      if (a->b->op == CONST && a->c->op == CONST)
        return mkIte(a->a, K(a->b->val == c, 1), K(a->c->val == c, 1));
      if (a->b->op == CONST)
        return a->b->val == c ? mkBin(OR, a->a, mkEq(a->c, b))
                              : mkBin(AND, mkNot(a->a), mkEq(a->c, b));
      if (a->c->op == CONST)
        return a->c->val == c
            ? mkBin(OR, mkNot(a->a), mkEq(a->b, b))
            : mkBin(AND, a->a, mkEq(a->b, b));
      break;
    default:
      break;
    }
    if (c & ~maybeOnes(a))
      return FALSE_();
  } else {
    if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w)
      return mkBin(AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == ZEXT && b->op == ZEXT) {
      if (a->a->w == b->a->w)
        return mkEq(a->a, b->a);
      if (a->a->w < b->a->w)
        std::swap(a, b);
      return mkEq(a->a, mkZext(b->a, a->a->w));
    }
    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w)
      return mkEq(a->a, b->a);
    if (a->w > 8
        && (a->op == CONCAT || b->op == CONCAT)
        && (a->op == CONCAT || a->op == ZEXT) && (b->op == CONCAT || b->op == ZEXT)) {
      Expr* cc = a->op == CONCAT ? a : b;
      Expr* oo = a->op == CONCAT ? b : a;
      unsigned lw = cc->b->w;
      return mkBin(AND, mkEq(cc->a, mkExtract(oo, lw, oo->w - lw)),
                   mkEq(cc->b, mkExtract(oo, 0, lw)));
    }
  }
  if (b->op != CONST && a->id > b->id)
    std::swap(a, b);
  return raw(EQ, 1, a, b);
}

inline Expr* mkCmp(Op op, Expr* a, Expr* b)
{
  unsigned w = a->w;
  if (a == b)
    return K(op == ULE || op == SLE, 1);
  if (a->op == CONST && b->op == CONST)
    return K(foldBin(op, a->val, b->val, w), 1);
  u128 m = maskw(w);
  if (op == SLT || op == SLE) {
    // both known non-negative -> unsigned
    u128 sb = (u128) 1 << (w - 1);
    if (!(maybeOnes(a) & sb) && !(maybeOnes(b) & sb))
      return mkCmp(op == SLT ? ULT : ULE, a, b);
    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w)
      return mkCmp(op, a->a, b->a);
    if (a->op == SEXT && b->op == CONST) {
      i128 c = sx(b->val, w);
      unsigned iw = a->a->w;
      i128 lo = -((i128) 1 << (iw - 1)), hi = ((i128) 1 << (iw - 1)) - 1;
      if (c > hi)
        return TRUE_();
      if (c < lo)
        return FALSE_();
      return mkCmp(op, a->a, K((u128) c, iw));
    }
    if (b->op == SEXT && a->op == CONST) {
      i128 c = sx(a->val, w);
      unsigned iw = b->a->w;
      i128 lo = -((i128) 1 << (iw - 1)), hi = ((i128) 1 << (iw - 1)) - 1;
      if (c > hi)
        return FALSE_();
      if (c < lo)
        return TRUE_();
      return mkCmp(op, K((u128) c, iw), b->a);
    }
  } else {
    if (op == ULT && b->op == CONST) {
      if (b->val == 0)
        return FALSE_();
      if (b->val == 1)
        return mkEq(a, K(0, w));
      if (maybeOnes(a) < b->val)
        return TRUE_();
    }
    if (op == ULE && b->op == CONST) {
      if (b->val == m)
        return TRUE_();
      if (b->val == 0)
        return mkEq(a, b);
      if (maybeOnes(a) <= b->val)
        return TRUE_();
    }
    if (op == ULT && a->op == CONST) {
      if (a->val == m)
        return FALSE_();
      if (a->val == 0)
        return mkNot(mkEq(b, a));
      if (maybeOnes(b) <= a->val)
        return FALSE_();
    }
    if (op == ULE && a->op == CONST) {
      if (a->val == 0)
        return TRUE_();
      if (maybeOnes(b) < a->val)
        return FALSE_();
    }
    if (a->op == ZEXT && b->op == CONST) // b fits (maybeOnes check above)
      if (!(b->val >> a->a->w))
        return mkCmp(op, a->a, K(b->val, a->a->w));
    if (b->op == ZEXT && a->op == CONST)
      if (!(a->val >> b->a->w))
        return mkCmp(op, K(a->val, b->a->w), b->a);
    if (a->op == ZEXT && b->op == ZEXT) {
      unsigned iw = std::max(a->a->w, b->a->w);
      return mkCmp(op, mkZext(a->a, iw), mkZext(b->a, iw));
    }
  }
  if (a->op == ITE && b->op == CONST && constArms(a))
    return mapArms(a, [&](Expr* x) { return mkCmp(op, x, b); });
  if (b->op == ITE && a->op == CONST && constArms(b))
    return mapArms(b, [&](Expr* x) { return mkCmp(op, a, x); });
  return raw(op, 1, a, b);
}

inline Expr* mkBin(Op op, Expr* a, Expr* b)
{
  if (a->w != b->w)
    die("width mismatch in mkBin op " + std::to_string(op));
  unsigned w = a->w;
  if (op == EQ)
    return mkEq(a, b);
  if (op == ULT || op == ULE || op == SLT || op == SLE)
    return mkCmp(op, a, b);
  if (a->op == CONST && b->op == CONST)
    return K(foldBin(op, a->val, b->val, w), w);
  if (isCommut(op)) {
    if (a->op == CONST)
      std::swap(a, b);
    else if (b->op != CONST && a->id > b->id)
      std::swap(a, b);
  }
  u128 m = maskw(w);
  bool bc = b->op == CONST;
  switch (op) {
  case ADD:
    if (bc && b->val == 0)
      return a;
    if (w == 1)
      return mkBin(XOR, a, b);
    if (bc && a->op == ADD && a->b->op == CONST)
      return mkBin(ADD, a->a, K(a->b->val + b->val, w));
    if (bc && a->op == SUB && a->a->op == CONST)
      return mkBin(SUB, K(a->a->val + b->val, w), a->b);
    if (!bc && a->op == SUB && a->b == b)
      return a->a;
    if (!bc && b->op == SUB && b->b == a)
      return b->a;
    if (!bc && a->op == ADD && a->b->op == CONST)
      return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
    if (!bc && b->op == ADD && b->b->op == CONST)
      return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
    if (bc && a->op == ITE && constArms(a))
      return mapArms(a, [&](Expr* x) { return mkBin(ADD, x, b); });
    if (!(maybeOnes(a) & maybeOnes(b)) )
      return mkBin(OR, a, b);
    break;
  case SUB:
    if (bc)
      return mkBin(ADD, a, K((u128) 0 - b->val, w));
    if (a == b)
      return K(0, w);
    if (a->op == ADD && a->a == b)
      return a->b;
    if (a->op == ADD && a->b == b)
      return a->a;
    if (a->op == ADD && a->b->op == CONST && b->op == ADD
        && b->b->op == CONST)
      return mkBin(ADD, mkBin(SUB, a->a, b->a), K(a->b->val - b->b->val, w));
    if (a->op == ADD && a->b->op == CONST)
      return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
    if (b->op == ADD && b->b->op == CONST)
      return mkBin(ADD, mkBin(SUB, a, b->a), K((u128) 0 - b->b->val, w));
    if (w == 1)
      return mkBin(XOR, a, b);
    break;
  case MUL:
    if (bc && b->val == 0)
      return b;
    if (bc && b->val == 1)
      return a;
    if (w == 1)
      return mkBin(AND, a, b);
    if (bc && (b->val & (b->val - 1)) == 0) {
      unsigned k = 0;
      while (!((b->val >> k) & 1))
        ++k;
      return mkBin(SHL, a, K(k, w));
    }
    break;
  case UDIV:
    if (bc && b->val == 1)
      return a;
    if (bc && b->val && (b->val & (b->val - 1)) == 0) {
      unsigned k = 0;
      while (!((b->val >> k) & 1))
        ++k;
      return mkBin(LSHR, a, K(k, w));
    }
    if (a->op == ZEXT && bc && b->val && !(b->val >> a->a->w))
      return mkZext(mkBin(UDIV, a->a, K(b->val, a->a->w)), w);
    break;
  case UREM:
    if (bc && b->val == 1)
      return K(0, w);
    if (bc && b->val && (b->val & (b->val - 1)) == 0)
      return mkBin(AND, a, K(b->val - 1, w));
    if (bc && b->val > maybeOnes(a))
      return a;
    if (a->op == ZEXT && bc && b->val && !(b->val >> a->a->w))
      return mkZext(mkBin(UREM, a->a, K(b->val, a->a->w)), w);
    break;
  case AND:
    if (a == b)
      return a;
    if (bc) {
      if (b->val == 0)
        return b;
      if (b->val == m)
        return a;
      if (a->op == AND && a->b->op == CONST)
        return mkBin(AND, a->a, K(a->b->val & b->val, w));
      u128 mo = maybeOnes(a);
      if ((mo & b->val) == 0)
        return K(0, w);
      if ((mo & ~b->val) == 0)
        return a;
      if (w > 1) {
        // contiguous mask -> extract/concat form
        u128 v = b->val;
        unsigned lo = 0;
        while (!((v >> lo) & 1))
          ++lo;
        u128 t = v >> lo;
        if ((t & (t + 1)) == 0) {
          unsigned n = 0;
          while (n < 128 && ((t >> n) & 1))
            ++n;
          Expr* x = mkExtract(a, lo, n);
          if (lo)
            x = mkConcat(x, K(0, lo));
          return mkZext(x, w);
        }
      }
    }
    if (w == 1) {
      if (mkNot(a) == b)
        return FALSE_();
      // absorb
      if (a->op == AND && (a->a == b || a->b == b))
        return a;
      if (b->op == AND && (b->a == a || b->b == a))
        return b;
    }
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w)
      return mkZext(mkBin(AND, a->a, b->a), w);
    break;
  case OR:
    if (a == b)
      return a;
    if (bc) {
      if (b->val == 0)
        return a;
      if (b->val == m)
        return b;
    }
    if (w == 1) {
      if (mkNot(a) == b)
        return TRUE_();
      if (a->op == OR && (a->a == b || a->b == b))
        return a;
      if (b->op == OR && (b->a == a || b->b == a))
        return b;
    } else {
      // disjoint pieces -> concat
      auto tryCat = [&](Expr* x, Expr* y) -> Expr* {
        // x = concat(h, 0_k) (possibly zext'ed), y fits in k bits
        Expr* q = x;
        if (q->op == ZEXT)
          q = q->a;
        Expr* l = q;
        unsigned k = 0;
        if (q->op == CONCAT) {
          // find trailing zero const
          l = q;
          while (l->op == CONCAT)
            l = l->b;
          if (l->op == CONST && l->val == 0)
            k = l->w;
        }
        if (!k)
          return nullptr;
        u128 mo = maybeOnes(y);
        if (mo >> k)
          return nullptr;
        return mkZext(mkConcat(mkExtract(q, k, q->w - k), mkExtract(y, 0, k)),
                      w);
      };
      if (Expr* r = tryCat(a, b))
        return r;
      if (Expr* r = tryCat(b, a))
        return r;
      if (a->op == ZEXT && b->op == ZEXT) {
        unsigned iw = std::max(a->a->w, b->a->w);
        return mkZext(mkBin(OR, mkZext(a->a, iw), mkZext(b->a, iw)), w);
      }
    }
    break;
  case XOR:
    if (a == b)
      return K(0, w);
    if (bc) {
      if (b->val == 0)
        return a;
      if (b->val == m)
        return mkNot(a);
      if (a->op == XOR && a->b->op == CONST)
        return mkBin(XOR, a->a, K(a->b->val ^ b->val, w));
    }
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w)
      return mkZext(mkBin(XOR, a->a, b->a), w);
    break;
  case SHL:
    if (bc) {
      if (b->val == 0)
        return a;
      if (b->val >= w)
        return K(0, w);
      unsigned k = (unsigned) b->val;
      return mkConcat(mkExtract(a, 0, w - k), K(0, k));
    }
    if (a->op == CONST && a->val == 0)
      return a;
    break;
  case LSHR:
    if (bc) {
      if (b->val == 0)
        return a;
      if (b->val >= w)
        return K(0, w);
      unsigned k = (unsigned) b->val;
      return mkZext(mkExtract(a, k, w - k), w);
    }
    if (a->op == CONST && a->val == 0)
      return a;
    break;
  case ASHR:
    if (bc) {
      if (b->val == 0)
        return a;
      unsigned k = b->val >= w ? w - 1 : (unsigned) b->val;
      return mkSext(mkExtract(a, k, w - k), w);
    }
    break;
  default:
    break;
  }
  return raw(op, w, a, b);
}

inline void flattenAnd(Expr* e, std::vector<Expr*>& out)
{
  if (e->op == AND && e->w == 1) {
    flattenAnd(e->a, out);
    flattenAnd(e->b, out);
  } else if (e->op == NOT && e->a->op == OR && e->w == 1) {
    flattenAnd(mkNot(e->a->a), out);
    flattenAnd(mkNot(e->a->b), out);
  } else
    out.push_back(e);
}

inline std::string showE(Expr* e, int d = 0)
{
  static const char* n[] = {"const", "v",    "inset", "lookup", "+",
                            "-",     "*",    "udiv",  "sdiv",   "urem",
                            "srem",  "&",    "|",     "^",      "<<",
                            ">>",    ">>s",  "!",     "==",     "<u",
                            "<=u",   "<s",   "<=s",   "ite",    "cat",
                            "ext",   "zext", "sext"};
  if (e->op == CONST) {
    char b[64];
    snprintf(b, 64, "%lluw%d", (unsigned long long) e->val, e->w);
    return b;
  }
  if (e->op == VAR)
    return "v" + std::to_string(e->aux);
  if (d > 8)
    return "..";
  std::string s = std::string("(") + n[e->op] + std::to_string(e->w);
  if (e->op == EXTRACT || e->op == LOOKUP)
    s += "@" + std::to_string(e->aux);
  if (e->op == INSET)
    s += "#" + std::to_string(SETS[e->aux].count());
  for (Expr* x : {e->a, e->b, e->c})
    if (x)
      s += " " + showE(x, d + 1);
  return s + ")";
}
