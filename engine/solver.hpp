// Satisfiability of path conditions: finite-domain reasoning for constraints
// on a single input byte, z3 for everything else.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <z3.h>

struct Stats {
  u64 paths = 0, done = 0, killed = 0, incomplete = 0, errors = 0;
  u64 instrs = 0, forks = 0, branches = 0;
  u64 q_dom = 0, q_wit = 0, q_local = 0, q_cache = 0, q_z3 = 0, q_sat = 0,
      q_unsat = 0, q_unknown = 0;
  u64 asserts_sym = 0, asserts_conc = 0, asserts_dom = 0, asserts_z3 = 0;
  double z3_s = 0;
};
inline Stats ST;

inline double nowS()
{
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

// per-path constraint store
struct PC {
  std::vector<u32> dom; // var -> interned set
  std::vector<u8> wit; // satisfying assignment
  std::shared_ptr<std::vector<Expr*>> cons; // multi-byte constraints
  std::vector<u64> touched; // bitset of vars in cons

  bool isTouched(u32 v) const
  {
    return (v >> 6) < touched.size() && ((touched[v >> 6] >> (v & 63)) & 1);
  }
  void touch(u32 v)
  {
    if ((v >> 6) >= touched.size())
      touched.resize((v >> 6) + 1, 0);
    touched[v >> 6] |= 1ull << (v & 63);
  }
  u32 newVar()
  {
    dom.push_back(SETS.full);
    wit.push_back(0);
    return (u32) dom.size() - 1;
  }
};

inline unsigned Z3_TIMEOUT_MS = 60000;
inline std::string DUMP_DIR; // when set, every z3 query is also dumped

struct Z3S {
  Z3_context ctx;
  Z3_solver s;
  std::unordered_map<u32, Z3_ast> domAst; // by (var<<?) string key
  std::map<std::pair<u32, u32>, Z3_ast> domMemo;
  std::vector<Z3_ast> varAst;
  u64 nq = 0;
  Z3S()
  {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
      die(std::string("z3: ") + Z3_get_error_msg(c, e));
    });
    mk();
  }
  void mk()
  {
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"),
                       Z3_TIMEOUT_MS);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast num(u128 v, unsigned w)
  {
    if (w <= 64)
      return Z3_mk_unsigned_int64(ctx, (u64) v, bv(w));
    return Z3_mk_concat(ctx,
                        Z3_mk_unsigned_int64(ctx, (u64) (v >> 64), bv(w - 64)),
                        Z3_mk_unsigned_int64(ctx, (u64) v, bv(64)));
  }
  Z3_ast var(u32 i)
  {
    while (varAst.size() <= i) {
      std::string n = "b" + std::to_string(varAst.size());
      Z3_ast a
          = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bv(8));
      Z3_inc_ref(ctx, a);
      varAst.push_back(a);
    }
    return varAst[i];
  }
  // boolean
  Z3_ast inset(u32 var_, u32 set)
  {
    auto key = std::make_pair(var_, set);
    auto it = domMemo.find(key);
    if (it != domMemo.end())
      return it->second;
    const Set256& s = SETS[set];
    Z3_ast v = var(var_);
    std::vector<Z3_ast> d;
    for (int i = 0; i < 256;) {
      if (!s.has(i)) {
        ++i;
        continue;
      }
      int j = i;
      while (j < 255 && s.has(j + 1))
        ++j;
      if (i == j)
        d.push_back(Z3_mk_eq(ctx, v, num(i, 8)));
      else if (i == 0)
        d.push_back(Z3_mk_bvule(ctx, v, num(j, 8)));
      else if (j == 255)
        d.push_back(Z3_mk_bvuge(ctx, v, num(i, 8)));
      else {
        Z3_ast a[2] = {Z3_mk_bvuge(ctx, v, num(i, 8)),
                       Z3_mk_bvule(ctx, v, num(j, 8))};
        d.push_back(Z3_mk_and(ctx, 2, a));
      }
      i = j + 1;
    }
    Z3_ast r = d.empty() ? Z3_mk_false(ctx)
        : d.size() == 1  ? d[0]
                         : Z3_mk_or(ctx, d.size(), d.data());
    Z3_inc_ref(ctx, r);
    domMemo[key] = r;
    return r;
  }
  Z3_ast b2v(Z3_ast b)
  {
    return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1));
  }
  // width-1 expressions are translated as Bool, others as BV
  Z3_ast toBool(Expr* e) { return tr(e); }
  Z3_ast toBV(Expr* e)
  {
    Z3_ast a = tr(e);
    return e->w == 1 ? b2v(a) : a;
  }
  Z3_ast tr(Expr* e)
  {
    if (e->z)
      return (Z3_ast) e->z;
    Z3_ast r = tr0(e);
    Z3_inc_ref(ctx, r);
    e->z = r;
    return r;
  }
  Z3_ast tr0(Expr* e)
  {
    bool B = e->w == 1;
    auto bin = [&](auto f) { return f(ctx, toBV(e->a), toBV(e->b)); };
    auto vb = [&](Z3_ast v) { // bv1 -> bool
      return B ? Z3_mk_eq(ctx, v, num(1, 1)) : v;
    };
    switch (e->op) {
    case CONST:
      return B ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx))
               : num(e->val, e->w);
    case VAR:
      return var(e->aux);
    case INSET:
      return inset(e->a->aux, e->aux);
    case LOOKUP:
      return vb(lookup(e));
    case ADD:
      return vb(bin(Z3_mk_bvadd));
    case SUB:
      return vb(bin(Z3_mk_bvsub));
    case MUL:
      return vb(bin(Z3_mk_bvmul));
    case UDIV:
      return vb(bin(Z3_mk_bvudiv));
    case SDIV:
      return vb(bin(Z3_mk_bvsdiv));
    case UREM:
      return vb(bin(Z3_mk_bvurem));
    case SREM:
      return vb(bin(Z3_mk_bvsrem));
    case AND:
    case OR:
      if (B) {
        Z3_ast a[2] = {tr(e->a), tr(e->b)};
        return e->op == AND ? Z3_mk_and(ctx, 2, a) : Z3_mk_or(ctx, 2, a);
      }
      return e->op == AND ? bin(Z3_mk_bvand) : bin(Z3_mk_bvor);
    case XOR:
      if (B)
        return Z3_mk_xor(ctx, tr(e->a), tr(e->b));
      return bin(Z3_mk_bvxor);
    case SHL:
      return vb(bin(Z3_mk_bvshl));
    case LSHR:
      return vb(bin(Z3_mk_bvlshr));
    case ASHR:
      return vb(bin(Z3_mk_bvashr));
    case NOT:
      if (B)
        return Z3_mk_not(ctx, tr(e->a));
      return Z3_mk_bvnot(ctx, tr(e->a));
    case EQ:
      return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
    case ULT:
      return bin(Z3_mk_bvult);
    case ULE:
      return bin(Z3_mk_bvule);
    case SLT:
      return bin(Z3_mk_bvslt);
    case SLE:
      return bin(Z3_mk_bvsle);
    case ITE:
      return Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c));
    case CONCAT:
      return bin(Z3_mk_concat);
    case EXTRACT:
      return vb(
          Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, toBV(e->a)));
    case ZEXT:
      return Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a));
    case SEXT:
      return Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a));
    }
    die("z3 tr");
  }
  Z3_ast lookup(Expr* e)
  {
    auto& t = TABLES.v[e->aux];
    Z3_ast ix = toBV(e->a);
    unsigned iw = e->a->w, w = e->w;
    // piecewise: runs of constant or of (index + c)
    struct Run {
      size_t lo, hi;
      bool lin;
      u64 k;
    };
    std::vector<Run> runs;
    u64 m = (u64) maskw(w);
    for (size_t i = 0; i < t.size();) {
      size_t j = i, l = i;
      while (j + 1 < t.size() && t[j + 1] == t[i])
        ++j;
      while (l + 1 < t.size() && t[l + 1] == ((t[l] + 1) & m))
        ++l;
      if (l > j) {
        runs.push_back({i, l, true, (t[i] - i) & m});
        i = l + 1;
      } else {
        runs.push_back({i, j, false, t[i]});
        i = j + 1;
      }
    }
    Z3_ast ixw = iw > w ? Z3_mk_extract(ctx, w - 1, 0, ix)
        : iw < w        ? Z3_mk_zero_ext(ctx, w - iw, ix)
                        : ix;
    // balanced tree on run bounds; out of range -> 0
    auto leaf = [&](const Run& r) {
      return r.lin ? Z3_mk_bvadd(ctx, ixw, num(r.k, w)) : num(r.k, w);
    };
    std::vector<Run>& R = runs;
    auto rec = [&](auto&& self, size_t a, size_t b) -> Z3_ast {
      if (b - a == 1)
        return leaf(R[a]);
      size_t mid = (a + b) / 2;
      return Z3_mk_ite(ctx, Z3_mk_bvult(ctx, ix, num(R[mid].lo, iw)),
                       self(self, a, mid), self(self, mid, b));
    };
    Z3_ast r = rec(rec, 0, R.size());
    if (iw < 64 ? ((u128) t.size() < ((u128) 1 << iw)) : true)
      r = Z3_mk_ite(ctx, Z3_mk_bvult(ctx, ix, num(t.size(), iw)), r,
                    num(0, w));
    return r;
  }

  // 1 sat, 0 unsat, -1 unknown; on sat fills wit for vars
  int check(const std::vector<Expr*>& cs, const std::vector<u32>& vars,
            const std::vector<u32>& dom, std::vector<u8>& wit)
  {
    double t0 = nowS();
    Z3_solver_push(ctx, s);
    for (u32 v : vars)
      if (dom[v] != SETS.full)
        Z3_solver_assert(ctx, s, inset(v, dom[v]));
    for (Expr* c : cs)
      Z3_solver_assert(ctx, s, toBool(c));
    Z3_lbool r = Z3_solver_check(ctx, s);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (!DUMP_DIR.empty() && nq % 37 == 0) {
      std::string f = DUMP_DIR + "/q" + std::to_string(getpid()) + "_"
          + std::to_string(nq) + (res == 1 ? "_sat" : res ? "_unk" : "_unsat")
          + ".smt2";
      if (FILE* fp = fopen(f.c_str(), "w")) {
        fputs("(set-logic QF_BV)\n", fp);
        fputs(Z3_solver_to_string(ctx, s), fp);
        fputs("(check-sat)\n", fp);
        fclose(fp);
      }
    }
    ++nq;
    if (res == 1) {
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (u32 v : vars) {
        Z3_ast out;
        if (!Z3_model_eval(ctx, m, var(v), true, &out))
          die("z3 model");
        u64 x = 0;
        Z3_get_numeral_uint64(ctx, out, &x);
        wit[v] = (u8) x;
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, s, 1);
    if (nq % 20000 == 0) {
      Z3_solver_dec_ref(ctx, s);
      mk();
    }
    ST.z3_s += nowS() - t0;
    ST.q_z3++;
    (res == 1 ? ST.q_sat : res == 0 ? ST.q_unsat : ST.q_unknown)++;
    return res;
  }
};
inline Z3S& Z3()
{
  static Z3S z;
  return z;
}

// ---------------------------------------------------------------------------
struct VecHash {
  size_t operator()(const std::vector<u32>& v) const
  {
    u64 h = v.size();
    for (u32 x : v) {
      h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      h *= 0xff51afd7ed558ccdull;
      h ^= h >> 31;
    }
    return h;
  }
};
struct CacheEnt {
  bool sat;
  std::vector<u8> vals;
};
inline std::unordered_map<std::vector<u32>, CacheEnt, VecHash> QCACHE;

inline std::vector<u32> TMPMARK;
inline u32 TMPEP = 0;

// Is pc /\ c satisfiable?  On true `wit` is a satisfying assignment.
// `forceZ3`: always let z3 decide (used for assertions).
inline int satPC(PC& pc, Expr* c, std::vector<u8>& wit, bool forceZ3 = false)
{
  if (c->op == CONST) {
    wit = pc.wit;
    return c->val ? 1 : 0;
  }
  ++EPOCH;
  if (!forceZ3 && evalE(c, pc.wit.data())) {
    wit = pc.wit;
    ST.q_wit++;
    return 1;
  }
  std::vector<Expr*> conj;
  flattenAnd(c, conj);
  bool domOnly = true;
  for (Expr* e : conj)
    if (e->op != INSET || pc.isTouched(e->a->aux)) {
      domOnly = false;
      break;
    }
  if (domOnly && !forceZ3) {
    ST.q_dom++;
    wit = pc.wit;
    std::map<u32, Set256> d;
    for (Expr* e : conj) {
      u32 v = e->a->aux;
      auto it = d.try_emplace(v, SETS[pc.dom[v]]).first;
      it->second = it->second & SETS[e->aux];
      if (it->second.empty())
        return 0;
    }
    for (auto& [v, s] : d)
      if (!s.has(wit[v]))
        wit[v] = (u8) s.first();
    return 1;
  }
  // slice
  ++TMPEP;
  if (TMPMARK.size() < pc.dom.size())
    TMPMARK.resize(pc.dom.size() + 64, 0);
  std::vector<u32> vars;
  auto mark = [&](u32 v) {
    if (TMPMARK[v] != TMPEP) {
      TMPMARK[v] = TMPEP;
      vars.push_back(v);
      return true;
    }
    return false;
  };
  for (u16 v : c->sup->v)
    mark(v);
  std::vector<Expr*> cs;
  if (pc.cons) {
    auto& L = *pc.cons;
    std::vector<char> used(L.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < L.size(); ++i) {
        if (used[i])
          continue;
        bool hit = false;
        for (u16 v : L[i]->sup->v)
          if (TMPMARK[v] == TMPEP) {
            hit = true;
            break;
          }
        if (hit) {
          used[i] = 1;
          cs.push_back(L[i]);
          for (u16 v : L[i]->sup->v)
            if (mark(v))
              ch = true;
        }
      }
    }
  }
  std::sort(vars.begin(), vars.end());
  for (Expr* e : conj)
    cs.push_back(e);
  // quick domain refutation / local search
  if (!forceZ3) {
    std::map<u32, Set256> d;
    for (Expr* e : conj)
      if (e->op == INSET) {
        u32 v = e->a->aux;
        auto it = d.try_emplace(v, SETS[pc.dom[v]]).first;
        it->second = it->second & SETS[e->aux];
        if (it->second.empty()) {
          ST.q_dom++;
          return 0;
        }
      }
    std::vector<u8> w = pc.wit;
    for (auto& [v, s] : d)
      if (!s.has(w[v]))
        w[v] = (u8) s.first();
    auto okAll = [&]() {
      ++EPOCH;
      for (Expr* e : cs)
        if (!evalE(e, w.data()))
          return false;
      return true;
    };
    if (okAll()) {
      ST.q_local++;
      wit = w;
      return 1;
    }
    int tries = 0;
    for (u16 v : c->sup->v) {
      if (++tries > 6)
        break;
      auto it = d.find(v);
      const Set256& s = it != d.end() ? it->second : SETS[pc.dom[v]];
      u8 old = w[v];
      int cnt = s.count(), step = cnt > 40 ? 7 : 1, k = 0;
      for (int x = 0; x < 256; ++x)
        if (s.has(x) && (k++ % step) == 0) {
          w[v] = (u8) x;
          if (okAll()) {
            ST.q_local++;
            wit = w;
            return 1;
          }
        }
      w[v] = old;
    }
  }
  std::vector<u32> key;
  key.reserve(cs.size() + vars.size() * 2 + 1);
  for (Expr* e : cs)
    key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.push_back(~0u);
  for (u32 v : vars) {
    key.push_back(v);
    key.push_back(pc.dom[v]);
  }
  auto it = QCACHE.find(key);
  if (it != QCACHE.end()) {
    ST.q_cache++;
    if (!it->second.sat)
      return 0;
    wit = pc.wit;
    for (size_t i = 0; i < vars.size(); ++i)
      wit[vars[i]] = it->second.vals[i];
    return 1;
  }
  wit = pc.wit;
  int r = Z3().check(cs, vars, pc.dom, wit);
  if (r >= 0) {
    CacheEnt e;
    e.sat = r == 1;
    if (r == 1)
      for (u32 v : vars)
        e.vals.push_back(wit[v]);
    QCACHE.emplace(std::move(key), std::move(e));
  }
  return r;
}

// conjoin c (which must be satisfied by wit) to pc
inline void addPC(PC& pc, Expr* c, const std::vector<u8>& wit)
{
  std::vector<Expr*> conj;
  flattenAnd(c, conj);
  pc.wit = wit;
  for (Expr* e : conj) {
    if (e->op == CONST)
      continue;
    if (e->op == INSET) {
      u32 v = e->a->aux;
      pc.dom[v] = SETS.id(SETS[pc.dom[v]] & SETS[e->aux]);
    } else {
      // drop if already present
      if (pc.cons) {
        bool dup = false;
        for (Expr* x : *pc.cons)
          if (x == e) {
            dup = true;
            break;
          }
        if (dup)
          continue;
      }
      auto n = std::make_shared<std::vector<Expr*>>();
      if (pc.cons) {
        n->reserve(pc.cons->size() + 1);
        *n = *pc.cons;
      }
      n->push_back(e);
      pc.cons = n;
      for (u16 v : e->sup->v)
        pc.touch(v);
    }
  }
}
