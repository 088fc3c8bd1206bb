// Symbolic executor for LLVM IR.
#pragma once
#include "state.hpp"
#include <cmath>
#include <unistd.h>

using namespace llvm;

struct Opnd {
  int slot = -1;
  const Val* cv = nullptr;
};
struct Move {
  u32 dst, n;
  Opnd src;
};
struct Edge {
  u32 bb = 0;
  std::vector<Move> mv;
};
struct Leaf {
  u32 off;
  u16 bits;
  bool fp;
};
struct GepIdx {
  Opnd op;
  u64 scale;
  u16 w;
};
struct DInst {
  unsigned opc = 0;
  unsigned pred = 0;
  u16 w = 0, sw = 0;
  u32 dst = 0, n = 0;
  bool fp = false;
  std::vector<Opnd> op;
  std::vector<u16> ow; // leaf widths for operands (scalar)
  std::vector<u32> on; // leaf count per operand
  std::vector<Edge> succ;
  std::vector<Leaf> leaves;
  std::vector<GepIdx> gi;
  i64 goff = 0;
  std::vector<u64> cases; // switch
  Function* callee = nullptr;
  DFunc* dcallee = nullptr;
  int builtin = -1;
  unsigned iid = 0;
  u64 bytes = 0;
  std::vector<int> mask;
  Instruction* I = nullptr;
};
struct DBlock {
  std::vector<DInst> in;
  BasicBlock* B = nullptr;
  bool visited = false;
};
struct DFunc {
  Function* F = nullptr;
  std::vector<DBlock> bb;
  u32 nslots = 0;
  std::vector<std::pair<u32, u32>> args; // slot, n
  std::vector<u16> retw;
  bool byval = false;
};

struct PathEnd { }; // thrown when the current path stops
struct Unsupported {
  std::string m;
};

struct Violation {
  std::string kind, msg, where, input;
  std::vector<std::string> trace;
};

struct Engine;
typedef void (*BuiltinFn)(Engine&, State&, DInst&, std::vector<Val>&,
                          std::vector<Val>&);

struct Engine {
  LLVMContext& C;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  std::unordered_map<const Function*, DFunc*> funcs;
  std::unordered_map<const GlobalValue*, u64> gaddr;
  std::unordered_map<u64, Function*> faddr;
  std::unordered_map<u64, const GlobalVariable*> addrG;
  std::unordered_map<std::string, std::pair<int, BuiltinFn>> builtins;
  std::vector<BuiltinFn> bfn;
  std::vector<State*> work;
  std::vector<Violation> viol;
  std::map<std::string, int> violSeen;
  std::map<std::string, u64> incomplete;
  std::vector<std::string> covNames;
  std::map<std::string, u32> covId;
  std::vector<u64> covHits;
  std::vector<std::string> witLines, extLines;
  std::map<u64, u32> tiIds;
  u64 nextState = 1;
  // limits
  u64 maxInstr = 20000000, maxPaths = ~0ull, maxViol = 40;
  double tlimit = 1e9, t0 = 0;
  u32 partK = 0, partW = 1, partD = 12;
  u64 param = 0;
  bool tierThorough = false;
  size_t maxWit = 4000;
  u64 witSeen = 0;
  bool stopAll = false;
  bool ctl = false; // a builtin transferred control itself
  State* cur = nullptr;
  DInst* curI = nullptr;
  u64 assertsTotal = 0;
  std::set<std::string> assertMsgs;

  explicit Engine(LLVMContext& c)
      : C(c)
  {
  }

  // ---------------------------------------------------------------- types
  void leavesOf(Type* T, u64 off, std::vector<Leaf>& out)
  {
    if (T->isVoidTy())
      return;
    if (auto* S = dyn_cast<StructType>(T)) {
      auto* L = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); ++i)
        leavesOf(S->getElementType(i), off + L->getElementOffset(i), out);
      return;
    }
    if (auto* A = dyn_cast<ArrayType>(T)) {
      u64 sz = DL->getTypeAllocSize(A->getElementType());
      for (u64 i = 0; i < A->getNumElements(); ++i)
        leavesOf(A->getElementType(), off + i * sz, out);
      return;
    }
    if (auto* Vt = dyn_cast<FixedVectorType>(T)) {
      u64 bits = DL->getTypeSizeInBits(Vt->getElementType());
      for (unsigned i = 0; i < Vt->getNumElements(); ++i)
        out.push_back({(u32) (off + i * ((bits + 7) / 8)), (u16) bits,
                       Vt->getElementType()->isFloatingPointTy()});
      return;
    }
    u64 bits = DL->getTypeSizeInBits(T);
    if (bits > 128)
      throw Unsupported {"type wider than 128 bits"};
    out.push_back({(u32) off, (u16) bits, T->isFloatingPointTy()});
  }
  u32 nleaf(Type* T)
  {
    std::vector<Leaf> l;
    leavesOf(T, 0, l);
    return (u32) l.size();
  }

  // ------------------------------------------------------------ constants
  u64 gvAddr(const GlobalValue* G)
  {
    if (auto* A = dyn_cast<GlobalAlias>(G))
      return constU(const_cast<Constant*>(
          cast<Constant>(A->getAliasee())));
    auto it = gaddr.find(G);
    if (it == gaddr.end())
      throw Unsupported {"no address for " + G->getName().str()};
    return it->second;
  }
  u64 constU(Constant* c)
  {
    std::vector<Val> v;
    constLeaves(c, v);
    if (v.size() != 1 || v[0].e)
      throw Unsupported {"constU"};
    return v[0].c;
  }
  void constLeaves(Constant* c, std::vector<Val>& out)
  {
    Type* T = c->getType();
    if (auto* i = dyn_cast<ConstantInt>(c)) {
      if (i->getBitWidth() <= 64)
        out.push_back(V(i->getZExtValue()));
      else if (i->getBitWidth() <= 128) {
        u128 v = i->getValue().extractBitsAsZExtValue(64, 0);
        v |= (u128) i->getValue().extractBitsAsZExtValue(
                 i->getBitWidth() - 64, 64)
            << 64;
        out.push_back(V(K(v, i->getBitWidth())));
      } else
        throw Unsupported {"wide constant"};
      return;
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
      APInt b = f->getValueAPF().bitcastToAPInt();
      if (b.getBitWidth() <= 64)
        out.push_back(V(b.getZExtValue()));
      else
        out.push_back(V(K((u128) b.extractBitsAsZExtValue(64, 0)
                              | ((u128) b.extractBitsAsZExtValue(
                                     b.getBitWidth() - 64, 64)
                                 << 64),
                          b.getBitWidth())));
      return;
    }
    if (isa<ConstantPointerNull>(c)) {
      out.push_back(V(0));
      return;
    }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)
        || isa<ConstantTokenNone>(c)) {
      std::vector<Leaf> l;
      leavesOf(T, 0, l);
      for (auto& x : l)
        out.push_back(x.bits > 64 ? V(K(0, x.bits)) : V(0));
      return;
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
      for (unsigned i = 0; i < d->getNumElements(); ++i)
        constLeaves(d->getElementAsConstant(i), out);
      return;
    }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) {
      for (auto& o : a->operands())
        constLeaves(cast<Constant>(o.get()), out);
      return;
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) {
      out.push_back(V(gvAddr(g)));
      return;
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
      switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* G = cast<GEPOperator>(e);
        APInt off(64, 0);
        if (!G->accumulateConstantOffset(*DL, off))
          throw Unsupported {"const gep"};
        out.push_back(V(constU(e->getOperand(0)) + off.getZExtValue()));
        return;
      }
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::AddrSpaceCast:
        out.push_back(V(constU(e->getOperand(0))
                        & (u64) maskw(DL->getTypeSizeInBits(T))));
        return;
      case Instruction::Trunc:
        out.push_back(V(constU(e->getOperand(0))
                        & (u64) maskw(DL->getTypeSizeInBits(T))));
        return;
      case Instruction::Sub:
        out.push_back(
            V((constU(e->getOperand(0)) - constU(e->getOperand(1)))
              & (u64) maskw(DL->getTypeSizeInBits(T))));
        return;
      case Instruction::Add:
        out.push_back(
            V((constU(e->getOperand(0)) + constU(e->getOperand(1)))
              & (u64) maskw(DL->getTypeSizeInBits(T))));
        return;
      case Instruction::ICmp: {
        u64 a = constU(e->getOperand(0)), b = constU(e->getOperand(1));
        out.push_back(V(e->getPredicate() == CmpInst::ICMP_EQ ? a == b
                                                              : a != b));
        return;
      }
      default:
        throw Unsupported {std::string("constexpr ")
                           + e->getOpcodeName()};
      }
    }
    if (auto* e = dyn_cast<DSOLocalEquivalent>(c)) {
      out.push_back(V(gvAddr(e->getGlobalValue())));
      return;
    }
    throw Unsupported {"constant kind"};
  }

  // -------------------------------------------------------------- decode
  std::deque<std::vector<Val>> constPool;
  std::unordered_map<const Constant*, const Val*> constMemo;
  Opnd opnd(Value* v, std::unordered_map<const Value*, u32>& sm)
  {
    Opnd o;
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = constMemo.find(c);
      if (it != constMemo.end()) {
        o.cv = it->second;
        return o;
      }
      std::vector<Val> l;
      constLeaves(c, l);
      if (l.empty())
        l.push_back(V(0));
      constPool.push_back(std::move(l));
      o.cv = constPool.back().data();
      constMemo[c] = o.cv;
      return o;
    }
    auto it = sm.find(v);
    if (it == sm.end())
      throw Unsupported {"operand"};
    o.slot = (int) it->second;
    return o;
  }
  u16 widthOf(Type* T)
  {
    if (auto* Vt = dyn_cast<VectorType>(T))
      T = Vt->getElementType();
    if (T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy())
      return (u16) DL->getTypeSizeInBits(T);
    return 0;
  }
  DFunc* decode(Function* F);

  // ---------------------------------------------------------------- runs
  void violation(State& s, const std::string& kind, const std::string& msg,
                 const PC* pc = nullptr);
  std::string inputTokens(const State& s, const std::vector<u8>& wit);
  u64 obsHash(const State& s, const std::vector<u8>& wit);
  std::string whereAmI(State& s, std::vector<std::string>* tr);

  [[noreturn]] void fail(State& s, const std::string& kind,
                         const std::string& msg)
  {
    violation(s, kind, msg);
    ST.errors++;
    throw PathEnd {};
  }

  State* forkWith(State& s, Expr* c, const std::vector<u8>& wit)
  {
    State* n = new State(s);
    n->id = nextState++;
    addPC(n->pc, c, wit);
    ST.forks++;
    return n;
  }
  // partition: called on every fork for both sides with the side taken
  bool partStep(State& s, unsigned side)
  {
    if (partW == 1 || s.depth >= partD)
      return true;
    s.pathHash = (s.pathHash ^ (side + 1)) * 1099511628211ull;
    s.depth++;
    if (s.depth == partD)
      return (s.pathHash >> 17) % partW == partK;
    return true;
  }
  void pushRaw(State* n) { work.push_back(n); }
  void push(State* n, unsigned side)
  {
    if (!partStep(*n, side)) {
      delete n;
      return;
    }
    work.push_back(n);
  }
  void keep(State& s, unsigned side)
  {
    if (!partStep(s, side))
      throw PathEnd {};
  }

  // sat check: -1 -> incomplete
  int sat(State& s, Expr* c, std::vector<u8>& wit, bool z = false)
  {
    int r = satPC(s.pc, c, wit, z);
    if (r < 0) {
      incomplete["solver timeout"]++;
      return -1;
    }
    return r;
  }

  // make v concrete on this path; other values are explored in a fork that
  // re-executes the current instruction
  u64 concretize(State& s, const Val& v, unsigned w)
  {
    if (!v.e)
      return v.c;
    if (v.e->op == CONST)
      return (u64) v.e->val;
    ++EPOCH;
    u64 x = (u64) evalE(v.e, s.pc.wit.data());
    Expr* eq = mkEq(v.e, K(x, w));
    Expr* ne = mkNot(eq);
    std::vector<u8> wit;
    int r = sat(s, ne, wit);
    bool forked = false;
    if (r == 1) {
      pushRaw(forkWith(s, ne, wit));
      forked = true;
    }
    std::vector<u8> w0 = s.pc.wit;
    addPC(s.pc, eq, w0);
    (void) forked;
    keep(s, (unsigned) (x * 2654435761u + 64));
    return x;
  }

  // decide a boolean: forks when both outcomes are feasible.  The fork
  // re-executes the current instruction.
  bool decide(State& s, Expr* c)
  {
    if (c->op == CONST)
      return c->val;
    ++EPOCH;
    bool v = evalE(c, s.pc.wit.data());
    Expr* other = v ? mkNot(c) : c;
    std::vector<u8> wit;
    bool forked = false;
    if (sat(s, other, wit) == 1) {
      push(forkWith(s, other, wit), v ? 0 : 1);
      forked = true;
    }
    std::vector<u8> w0 = s.pc.wit;
    addPC(s.pc, v ? c : mkNot(c), w0);
    if (forked)
      keep(s, v ? 1 : 0);
    return v;
  }

  // ------------------------------------------------------------- memory
  std::string descObj(Obj* o)
  {
    const char* k = o->kind == O_STACK ? "stack"
        : o->kind == O_HEAP            ? "heap"
                                       : "global";
    return std::string(k) + " object of " + std::to_string(o->size)
        + " bytes";
  }
  // resolves [p, p+n); returns object and concrete offset.  When `symOff` is
  // non-null a symbolic offset may be returned through it.
  Obj* resolve(State& s, const Val& p, u64 n, u64& off, Expr** symOff,
               bool write)
  {
    u64 a = p.c;
    if (p.e) {
      ++EPOCH;
      a = (u64) evalE(p.e, s.pc.wit.data());
    }
    bool st;
    Obj* o = s.find(a, st);
    u64 base = o ? State::addrOf(o) : 0;
    bool inb = o && a >= base && n <= o->size && a - base <= o->size - n;
    if (!inb) {
      std::string m = write ? "invalid write of " : "invalid read of ";
      m += std::to_string(n) + " bytes ";
      if (a < 4096)
        m += "through a null pointer";
      else if (!o)
        m += "to freed or unknown memory";
      else
        m += "at offset " + std::to_string((i64) (a - base)) + " of "
            + descObj(o);
      if (n == 0 && !o) {
        off = 0;
        return nullptr;
      }
      if (p.e) {
        // explore the in-bounds addresses too
        std::vector<u8> wit;
        Expr* ne = mkNot(mkEq(p.e, K(a, 64)));
        if (sat(s, ne, wit) == 1)
          pushRaw(forkWith(s, ne, wit));
      }
      fail(s, "memory", m);
    }
    if (write && o->ro)
      fail(s, "memory", "write to constant memory");
    off = a - base;
    if (p.e) {
      Expr* oe = mkBin(SUB, p.e, K(base, 64));
      Expr* in = mkBin(ULE, oe, K(o->size - n, 64));
      std::vector<u8> wit;
      if (in->op != CONST) {
        int r = sat(s, mkNot(in), wit);
        if (r == 1) {
          push(forkWith(s, mkNot(in), wit), 4);
          std::vector<u8> w0 = s.pc.wit;
          addPC(s.pc, in, w0);
          keep(s, 5);
          o = s.find(a, st);
        } else if (r < 0)
          throw Unsupported {"address query timeout"};
      }
      if (symOff)
        *symOff = oe;
      else
        off = concretize(s, V(oe), 64);
    } else if (symOff)
      *symOff = nullptr;
    return o;
  }
  Expr* byteE(State& s, Obj* o, u32 i)
  {
    if (o->st[i] == B_CONC)
      return K(o->d[i], 8);
    if (o->st[i] == B_SYM)
      return o->s[i];
    // uninitialised: an unconstrained byte, remembered so that later reads
    // agree
    u32 uv = s.pc.newVar();
    s.undefVars.push_back(uv);
    Expr* v = mkVar(uv);
    Obj* w = s.writable(o);
    setSym(w, i, v);
    return v;
  }
  Val readLeaf(State& s, Obj*& o, u64 off, unsigned bits)
  {
    unsigned nb = (bits + 7) / 8;
    bool conc = true;
    for (unsigned i = 0; i < nb; ++i)
      if (o->st[off + i] != B_CONC) {
        conc = false;
        break;
      }
    if (conc && nb <= 8) {
      u64 v = 0;
      memcpy(&v, &o->d[off], nb);
      return V(v & (u64) maskw(bits));
    }
    // avoid creating fresh variables for padding read through wide loads:
    // create lazily but deterministically
    Expr* e = nullptr;
    for (unsigned i = 0; i < nb; ++i) {
      bool und = o->st[off + i] == B_UNDEF;
      Expr* b = byteE(s, o, (u32) off + i);
      if (und) { // object may have been copied
        bool t;
        o = s.find(State::addrOf(o), t);
      }
      e = e ? mkConcat(b, e) : b;
    }
    if (bits < nb * 8)
      e = mkExtract(e, 0, bits);
    return V(e);
  }
  void writeLeaf(Obj* o, u64 off, unsigned bits, const Val& v)
  {
    unsigned nb = (bits + 7) / 8;
    if (!v.e) {
      memcpy(&o->d[off], &v.c, std::min(nb, 8u));
      memset(&o->st[off], B_CONC, nb);
      if (nb > 8)
        memset(&o->d[off + 8], 0, nb - 8);
      return;
    }
    Expr* e = v.e;
    if (bits < nb * 8)
      e = mkZext(e, nb * 8);
    for (unsigned i = 0; i < nb; ++i)
      setSym(o, (u32) (off + i), nb == 1 ? e : mkExtract(e, i * 8, 8));
  }
  Val load(State& s, const Val& p, unsigned bits)
  {
    unsigned nb = (bits + 7) / 8;
    u64 off;
    Expr* so = nullptr;
    Obj* o = resolve(s, p, nb, off, &so, false);
    if (so && so->op == CONST) {
      off = (u64) so->val;
      so = nullptr;
    }
    if (!so)
      return readLeaf(s, o, off, bits);
    // symbolic offset
    if (nb <= 8) {
      // table lookup when all reachable elements are concrete
      u128 mo = maybeOnes(so);
      unsigned tz = 0;
      while (tz < 8 && !((mo >> tz) & 1))
        ++tz;
      u64 hi = 0;
      std::vector<u64> cand;
      if (so->sup->v.size() == 1 && narrowAll(so)) {
        u64* t = tblOf(so);
        const Set256& d = SETS[s.pc.dom[so->sup->v[0]]];
        for (int i = 0; i < 256; ++i)
          if (d.has(i)) {
            hi = std::max(hi, t[i]);
            cand.push_back(t[i]);
          }
        std::sort(cand.begin(), cand.end());
        cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
      } else {
        hi = (u64) std::min<u128>(mo, o->size - nb);
        if ((hi >> tz) <= 1024)
          for (u64 x = 0; x <= hi; x += 1ull << tz)
            cand.push_back(x);
      }
      bool ok = !cand.empty() && (hi >> tz) <= 4096;
      bool conc = ok;
      for (u64 x : cand) {
        if (x + nb > o->size) {
          ok = false;
          break;
        }
        for (unsigned i = 0; i < nb; ++i)
          if (o->st[x + i] != B_CONC)
            conc = false;
      }
      if (ok && conc) {
        std::vector<u64> t((hi >> tz) + 1, 0);
        for (u64 x : cand) {
          u64 v = 0;
          memcpy(&v, &o->d[x], nb);
          t[x >> tz] = v & (u64) maskw(bits);
        }
        // fill holes with a neighbour so that the table has few runs
        std::vector<char> has(t.size(), 0);
        for (u64 x : cand)
          has[x >> tz] = 1;
        for (size_t i = 1; i < t.size(); ++i)
          if (!has[i])
            t[i] = t[i - 1];
        Expr* ix = mkBin(LSHR, so, K(tz, 64));
        return V(mkLookup(ix, t, bits));
      }
      if (ok && cand.size() <= 64) {
        Expr* r = nullptr;
        for (auto it = cand.rbegin(); it != cand.rend(); ++it) {
          Expr* v = E(readLeaf(s, o, *it, bits), bits);
          r = r ? mkIte(mkEq(so, K(*it, 64)), v, r) : v;
        }
        return V(r);
      }
    }
    off = concretize(s, V(so), 64);
    bool t;
    o = s.find(State::addrOf(o), t);
    return readLeaf(s, o, off, bits);
  }
  void store(State& s, const Val& p, unsigned bits, const Val& v)
  {
    u64 off;
    Obj* o = resolve(s, p, (bits + 7) / 8, off, nullptr, true);
    o = s.writable(o);
    writeLeaf(o, off, bits, v);
  }
  void copyBytes(State& s, const Val& d, const Val& sp, u64 n)
  {
    if (!n)
      return;
    u64 so, dof;
    Val pd = V(concretize(s, d, 64)), ps = V(concretize(s, sp, 64));
    Obj* src = resolve(s, ps, n, so, nullptr, false);
    Obj* dst = resolve(s, pd, n, dof, nullptr, true);
    dst = s.writable(dst);
    bool t;
    src = s.find(State::addrOf(src), t);
    if (src->s.empty()) {
      memmove(&dst->d[dof], &src->d[so], n);
      memmove(&dst->st[dof], &src->st[so], n);
    } else {
      if (dst->s.empty())
        dst->s.assign(dst->size, nullptr);
      memmove(&dst->d[dof], &src->d[so], n);
      memmove(&dst->st[dof], &src->st[so], n);
      memmove(&dst->s[dof], &src->s[so], n * sizeof(Expr*));
    }
  }
  Val readByteAt(State& s, Obj*& o, u64 off)
  {
    return readLeaf(s, o, off, 8);
  }

  // ------------------------------------------------------------ exceptions
  struct TiBase {
    u64 ti;
    i64 off;
  };
  std::unordered_map<u64, std::vector<TiBase>> tiMemo;
  std::vector<TiBase> tiBases(u64 ti);
  bool tiMatch(u64 thrown, u64 want, i64& off, int depth = 0);
  u32 tiId(u64 ti)
  {
    if (!ti)
      return 0x7fff;
    auto it = tiIds.try_emplace(ti, (u32) tiIds.size() + 1).first;
    return it->second;
  }
  // 0 none, 1 cleanup only, 2 handler
  int lpMatch(State& s, LandingPadInst* L, u64 exc, u32& sel, u64& adj);
  void unwind(State& s, u64 exc, bool popFirst);
  u64 throwNew(State& s, const char* tiName, const char* what);
  void doThrow(State& s, u64 exc)
  {
    s.uncaught++;
    unwind(s, exc, false);
  }

  // ------------------------------------------------------------ calls
  void gotoEdge(State& s, Edge& e)
  {
    Frame& f = s.fr.back();
    if (!e.mv.empty()) {
      // parallel copy
      static std::vector<Val> tmp;
      tmp.clear();
      for (auto& m : e.mv)
        for (u32 i = 0; i < m.n; ++i)
          tmp.push_back(m.src.slot >= 0 ? f.sl[m.src.slot + i]
                                        : m.src.cv[i]);
      size_t k = 0;
      for (auto& m : e.mv)
        for (u32 i = 0; i < m.n; ++i)
          f.sl[m.dst + i] = tmp[k++];
    }
    f.bb = e.bb;
    f.ip = 0;
    f.f->bb[e.bb].visited = true;
  }
  void finishCall(State& s, DInst& d, const std::vector<Val>& ret)
  {
    Frame& f = s.fr.back();
    for (u32 i = 0; i < d.n && i < ret.size(); ++i)
      f.sl[d.dst + i] = ret[i];
    if (d.opc == Instruction::Invoke)
      gotoEdge(s, d.succ[0]);
    else
      f.ip++;
  }
  void enter(State& s, DFunc* f, std::vector<Val>& args)
  {
    if (s.fr.size() > 400)
      fail(s, "stack", "call depth above 400 (unbounded recursion?)");
    s.fr.emplace_back();
    Frame& n = s.fr.back();
    n.f = f;
    n.sl.resize(f->nslots);
    n.stackBase = (u32) s.stack.size();
    size_t k = 0;
    for (auto& [slot, cnt] : f->args)
      for (u32 i = 0; i < cnt; ++i)
        n.sl[slot + i] = args[k++];
    f->bb[0].visited = true;
  }
  void popFrame(State& s)
  {
    s.stack.resize(s.fr.back().stackBase);
    s.fr.pop_back();
  }
  void call(State& s, DInst& d);
  bool intrinsic(State& s, DInst& d, std::vector<Val>& a,
                 std::vector<Val>& r);
  void step(State& s, DInst& d);
  void run(State* s0);
  void endPath(State& s);
  void setup();
  void initGlobals(State& s);
  void registerBuiltins();
  void assertCond(State& s, Expr* c, const std::string& msg);
  std::string cstr(State& s, u64 a);
  Val binop(State& s, DInst& d, const Val& a, const Val& b);
  Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w);
  std::string json(double wall);
};
