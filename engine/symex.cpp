#include "exec.hpp"
#include <sys/resource.h>

// ------------------------------------------------------------------ decode
DFunc* Engine::decode(Function* F)
{
  auto it = funcs.find(F);
  if (it != funcs.end())
    return it->second;
  auto* D = new DFunc;
  D->F = F;
  std::unordered_map<const Value*, u32> sm;
  u32 ns = 0;
  for (auto& A : F->args()) {
    u32 n = nleaf(A.getType());
    sm[&A] = ns;
    D->args.push_back({ns, n});
    ns += n;
    if (A.hasByValAttr())
      D->byval = true;
  }
  std::unordered_map<const BasicBlock*, u32> bm;
  u32 nb = 0;
  for (auto& B : *F) {
    bm[&B] = nb++;
    for (auto& I : B) {
      u32 n = nleaf(I.getType());
      sm[&I] = ns;
      ns += n;
    }
  }
  D->nslots = ns;
  D->bb.resize(nb);
  auto mkEdge = [&](BasicBlock* from, BasicBlock* to) {
    Edge e;
    e.bb = bm[to];
    for (auto& P : to->phis()) {
      Move m;
      m.dst = sm[&P];
      m.n = nleaf(P.getType());
      m.src = opnd(P.getIncomingValueForBlock(from), sm);
      if (m.n)
        e.mv.push_back(m);
    }
    return e;
  };
  for (auto& B : *F) {
    DBlock& db = D->bb[bm[&B]];
    db.B = &B;
    for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I))
        continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_end:
        case Intrinsic::var_annotation:
        case Intrinsic::prefetch:
        case Intrinsic::donothing:
          if (!isa<InvokeInst>(I))
            continue;
        default:
          break;
        }
      }
      DInst d;
      d.I = &I;
      d.opc = I.getOpcode();
      d.dst = sm[&I];
      d.n = nleaf(I.getType());
      d.w = widthOf(I.getType());
      if (auto* T = I.getType();
          T->isFPOrFPVectorTy())
        d.fp = true;
      auto addOp = [&](Value* v) {
        d.op.push_back(opnd(v, sm));
        d.ow.push_back(widthOf(v->getType()));
        d.on.push_back(nleaf(v->getType()));
      };
      switch (I.getOpcode()) {
      case Instruction::Br: {
        auto* b = cast<BranchInst>(&I);
        if (b->isConditional())
          addOp(b->getCondition());
        for (unsigned i = 0; i < b->getNumSuccessors(); ++i)
          d.succ.push_back(mkEdge(&B, b->getSuccessor(i)));
        break;
      }
      case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(&I);
        addOp(sw->getCondition());
        d.sw = d.ow[0];
        d.succ.push_back(mkEdge(&B, sw->getDefaultDest()));
        for (auto& c : sw->cases()) {
          d.cases.push_back(c.getCaseValue()->getZExtValue());
          d.succ.push_back(mkEdge(&B, c.getCaseSuccessor()));
        }
        break;
      }
      case Instruction::Invoke:
      case Instruction::Call: {
        auto* cb = cast<CallBase>(&I);
        for (auto& a : cb->args())
          if (a->getType()->isMetadataTy()) {
            d.op.push_back(Opnd {});
            d.ow.push_back(0);
            d.on.push_back(0);
          } else
            addOp(a);
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
          d.succ.push_back(mkEdge(&B, inv->getNormalDest()));
          d.succ.push_back(mkEdge(&B, inv->getUnwindDest()));
        }
        Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* A = dyn_cast<GlobalAlias>(cv))
          cv = A->getAliasee()->stripPointerCasts();
        if (auto* f = dyn_cast<Function>(cv)) {
          d.callee = f;
          if (f->isIntrinsic())
            d.iid = f->getIntrinsicID();
          else {
            auto bi = builtins.find(f->getName().str());
            if (bi != builtins.end())
              d.builtin = bi->second.first;
          }
        } else if (isa<InlineAsm>(cv)) {
          d.builtin = -2;
        } else
          addOp(cv); // last operand = callee
        for (unsigned i = 0; i < cb->arg_size(); ++i)
          if (cb->isByValArgument(i))
            d.pred = 1; // has byval
        break;
      }
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(&I);
        addOp(g->getPointerOperand());
        for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge;
             ++gt) {
          Value* ix = gt.getOperand();
          if (auto* st = gt.getStructTypeOrNull()) {
            d.goff += DL->getStructLayout(st)->getElementOffset(
                cast<ConstantInt>(ix)->getZExtValue());
            continue;
          }
          u64 sz = gt.getSequentialElementStride(*DL).getFixedValue();
          if (auto* ci = dyn_cast<ConstantInt>(ix)) {
            d.goff += ci->getSExtValue() * (i64) sz;
            continue;
          }
          d.gi.push_back({opnd(ix, sm), sz, widthOf(ix->getType())});
        }
        if (I.getType()->isVectorTy())
          d.opc = 0; // unsupported
        break;
      }
      case Instruction::ExtractValue:
      case Instruction::InsertValue: {
        for (auto& o : I.operands())
          addOp(o.get());
        Type* T = I.getOperand(0)->getType();
        u64 off = 0;
        ArrayRef<unsigned> idx = isa<ExtractValueInst>(I)
            ? cast<ExtractValueInst>(I).getIndices()
            : cast<InsertValueInst>(I).getIndices();
        for (unsigned ix : idx) {
          if (auto* st = dyn_cast<StructType>(T)) {
            for (unsigned k = 0; k < ix; ++k)
              off += nleaf(st->getElementType(k));
            T = st->getElementType(ix);
          } else {
            auto* at = cast<ArrayType>(T);
            off += ix * nleaf(at->getElementType());
            T = at->getElementType();
          }
        }
        d.goff = (i64) off;
        break;
      }
      case Instruction::Load:
        addOp(I.getOperand(0));
        leavesOf(I.getType(), 0, d.leaves);
        break;
      case Instruction::Store:
        addOp(I.getOperand(0));
        addOp(I.getOperand(1));
        leavesOf(I.getOperand(0)->getType(), 0, d.leaves);
        break;
      case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(&I);
        d.bytes = DL->getTypeAllocSize(a->getAllocatedType());
        addOp(a->getArraySize());
        break;
      }
      case Instruction::ShuffleVector: {
        addOp(I.getOperand(0));
        addOp(I.getOperand(1));
        for (int m : cast<ShuffleVectorInst>(I).getShuffleMask())
          d.mask.push_back(m);
        break;
      }
      case Instruction::LandingPad:
        break;
      case Instruction::AtomicRMW:
        d.pred = cast<AtomicRMWInst>(I).getOperation();
        addOp(I.getOperand(0));
        addOp(I.getOperand(1));
        break;
      default:
        for (auto& o : I.operands())
          addOp(o.get());
        if (auto* c = dyn_cast<CmpInst>(&I))
          d.pred = c->getPredicate();
        break;
      }
      if (!d.ow.empty())
        d.sw = d.ow[0];
      db.in.push_back(std::move(d));
    }
  }
  funcs[F] = D;
  return D;
}

// --------------------------------------------------------------- reporting
static std::string demangleS(const std::string& n)
{
  return llvm::demangle(n);
}

std::string Engine::whereAmI(State& s, std::vector<std::string>* tr)
{
  std::string first;
  for (int k = (int) s.fr.size() - 1; k >= 0; --k) {
    Frame& f = s.fr[k];
    if (f.ip >= f.f->bb[f.bb].in.size())
      continue;
    Instruction* I = f.f->bb[f.bb].in[f.ip].I;
    std::string fn = demangleS(f.f->F->getName().str());
    std::string loc;
    if (auto dl = I->getDebugLoc()) {
      for (auto* L = dl.get(); L; L = L->getInlinedAt()) {
        std::string l = L->getFilename().str() + ":"
            + std::to_string(L->getLine());
        if (tr && tr->size() < 24)
          tr->push_back(l);
        if (loc.empty())
          loc = l;
        if (first.empty()
            && L->getFilename().find("fitoria") != StringRef::npos)
          first = l;
      }
    } else if (tr && tr->size() < 24)
      tr->push_back(fn);
  }
  return first;
}

std::string Engine::inputTokens(const State& s, const std::vector<u8>& wit)
{
  std::string r;
  char b[32];
  for (auto& i : s.in) {
    if (!r.empty())
      r += ' ';
    if (i.choice) {
      snprintf(b, 32, "c%llu", (unsigned long long) i.v);
      r += b;
    } else {
      r += 'b';
      for (u32 k = 0; k < i.n; ++k) {
        snprintf(b, 32, "%02x", wit[i.v + k]);
        r += b;
      }
    }
  }
  return r;
}
u64 Engine::obsHash(const State& s, const std::vector<u8>& wit)
{
  ++EPOCH;
  u64 h = 1469598103934665603ull;
  for (auto& o : s.obs) {
    u64 v = o.v.e ? (u64) evalE(o.v.e, wit.data()) : o.v.c;
    for (int i = 0; i < 8; ++i) {
      h ^= (v >> (8 * i)) & 0xff;
      h *= 1099511628211ull;
    }
  }
  return h;
}

void Engine::violation(State& s, const std::string& kind,
                       const std::string& msg, const PC* pc)
{
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.where = whereAmI(s, &v.trace);
  v.input = inputTokens(s, pc ? pc->wit : s.pc.wit);
  std::string key = kind + "|" + msg + "|" + v.where;
  if (violSeen[key]++ < 4)
    viol.push_back(v);
  if (viol.size() >= maxViol)
    stopAll = true;
}

static void jstr(std::string& o, const std::string& s)
{
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  o += '"';
}

std::string Engine::json(double wall)
{
  std::string o = "{";
  auto num = [&](const char* k, double v) {
    char b[64];
    if (v == std::floor(v) && std::fabs(v) < 1e15)
      snprintf(b, 64, "\"%s\":%lld,", k, (long long) v);
    else
      snprintf(b, 64, "\"%s\":%.3f,", k, v);
    o += b;
  };
  num("paths", ST.done);
  num("killed", ST.killed);
  num("errors", ST.errors);
  num("instrs", ST.instrs);
  num("forks", ST.forks);
  num("branches", ST.branches);
  num("q_dom", ST.q_dom);
  num("q_wit", ST.q_wit);
  num("q_local", ST.q_local);
  num("q_cache", ST.q_cache);
  num("q_z3", ST.q_z3);
  num("q_sat", ST.q_sat);
  num("q_unsat", ST.q_unsat);
  num("q_unknown", ST.q_unknown);
  num("asserts_sym", ST.asserts_sym);
  num("asserts_conc", ST.asserts_conc);
  num("asserts_z3", ST.asserts_z3);
  num("solver_s", ST.z3_s);
  num("wall_s", wall);
  num("exprs", ARENA.size());
  o += "\"incomplete\":{";
  bool f = true;
  for (auto& [k, v] : incomplete) {
    if (!f)
      o += ',';
    f = false;
    jstr(o, k);
    o += ":" + std::to_string(v);
  }
  o += "},\"covers\":{";
  f = true;
  for (size_t i = 0; i < covNames.size(); ++i) {
    if (!f)
      o += ',';
    f = false;
    jstr(o, covNames[i]);
    o += ":" + std::to_string(covHits[i]);
  }
  o += "},\"asserts\":[";
  f = true;
  for (auto& a : assertMsgs) {
    if (!f)
      o += ',';
    f = false;
    jstr(o, a);
  }
  o += "],\"violations\":[";
  f = true;
  for (auto& v : viol) {
    if (!f)
      o += ',';
    f = false;
    o += "{\"kind\":";
    jstr(o, v.kind);
    o += ",\"msg\":";
    jstr(o, v.msg);
    o += ",\"where\":";
    jstr(o, v.where);
    o += ",\"input\":";
    jstr(o, v.input);
    o += ",\"trace\":[";
    bool g = true;
    for (auto& t : v.trace) {
      if (!g)
        o += ',';
      g = false;
      jstr(o, t);
    }
    o += "]}";
  }
  // functions of the code under test that were executed
  std::map<std::string, std::set<unsigned>> fl;
  for (auto& [F, D] : funcs)
    for (auto& b : D->bb)
      if (b.visited)
        for (auto& I : *b.B)
          if (auto dl = I.getDebugLoc())
            for (auto* L = dl.get(); L; L = L->getInlinedAt()) {
              StringRef fn = L->getFilename();
              auto p = fn.find("include/fitoria/");
              if (p == StringRef::npos)
                continue;
              auto* sp = L->getScope()->getSubprogram();
              if (!sp)
                continue;
              std::string nm = fn.substr(p + 16).str() + "::"
                  + sp->getName().str();
              fl[nm].insert(L->getLine());
            }
  o += "],\"functions\":{";
  f = true;
  for (auto& [k, v] : fl) {
    if (!f)
      o += ',';
    f = false;
    jstr(o, k);
    o += ":" + std::to_string(v.size());
  }
  o += "}}";
  return o;
}

// --------------------------------------------------------------- exceptions
static const std::map<std::string, std::string>& stdTi()
{
  static std::map<std::string, std::string> m = {
    {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt10bad_typeid", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
    {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
    {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"},
    {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
    {"_ZTISt13bad_exception", "_ZTISt9exception"},
    {"_ZTINSt3_V214error_categoryE", ""},
  };
  return m;
}

std::vector<Engine::TiBase> Engine::tiBases(u64 ti)
{
  auto it = tiMemo.find(ti);
  if (it != tiMemo.end())
    return it->second;
  std::vector<TiBase> r;
  auto g = addrG.find(ti);
  if (g != addrG.end()) {
    const GlobalVariable* G = g->second;
    if (G->hasInitializer()) {
      auto* cs = dyn_cast<ConstantStruct>(G->getInitializer());
      if (cs) {
        std::string vt;
        Value* v = cs->getOperand(0)->stripInBoundsConstantOffsets();
        if (auto* gv = dyn_cast<GlobalValue>(v))
          vt = gv->getName().str();
        else if (auto* ce = dyn_cast<ConstantExpr>(cs->getOperand(0)))
          if (auto* gv2 = dyn_cast<GlobalValue>(ce->getOperand(0)))
            vt = gv2->getName().str();
        if (vt.find("__si_class_type_info") != std::string::npos)
          r.push_back({constU(cast<Constant>(cs->getOperand(2))), 0});
        else if (vt.find("__vmi_class_type_info") != std::string::npos) {
          for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
            i64 fl = (i64) constU(cast<Constant>(cs->getOperand(i + 1)));
            if (fl & 1)
              continue; // virtual base: not modelled
            r.push_back(
                {constU(cast<Constant>(cs->getOperand(i))), fl >> 8});
          }
        }
      }
    } else {
      auto s = stdTi().find(G->getName().str());
      if (s != stdTi().end())
        if (auto* B = M->getNamedGlobal(s->second))
          r.push_back({gvAddr(B), 0});
    }
  }
  tiMemo[ti] = r;
  return r;
}
bool Engine::tiMatch(u64 thrown, u64 want, i64& off, int depth)
{
  if (thrown == want)
    return true;
  if (depth > 12)
    return false;
  // an external std type whose direct base is not declared in this module
  auto g = addrG.find(thrown), h = addrG.find(want);
  if (g != addrG.end() && h != addrG.end()) {
    std::string n = g->second->getName().str(), w = h->second->getName().str();
    for (int i = 0; i < 6; ++i) {
      if (n == w)
        return true;
      auto s = stdTi().find(n);
      if (s == stdTi().end())
        break;
      n = s->second;
    }
  }
  for (auto& b : tiBases(thrown)) {
    i64 o2 = off + b.off;
    if (tiMatch(b.ti, want, o2, depth + 1)) {
      off = o2;
      return true;
    }
  }
  return false;
}

int Engine::lpMatch(State& s, LandingPadInst* L, u64 exc, u32& sel, u64& adj)
{
  ExcInfo& x = s.exc[exc];
  for (unsigned i = 0; i < L->getNumClauses(); ++i) {
    if (L->isCatch(i)) {
      Constant* c = L->getClause(i);
      u64 ti = isa<ConstantPointerNull>(c) ? 0 : constU(c);
      i64 off = 0;
      if (!ti || tiMatch(x.ti, ti, off)) {
        sel = tiId(ti);
        adj = exc + off;
        return 2;
      }
    } else {
      // filter: treated as "no exception allowed" when empty
      sel = (u32) -1;
      adj = exc;
      return 2;
    }
  }
  if (L->isCleanup()) {
    sel = 0;
    adj = exc;
    return 1;
  }
  return 0;
}

void Engine::unwind(State& s, u64 exc, bool popFirst)
{
  auto lpOf = [&](Frame& f) -> LandingPadInst* {
    DInst& d = f.f->bb[f.bb].in[f.ip];
    if (d.opc != Instruction::Invoke)
      return nullptr;
    return cast<InvokeInst>(d.I)->getLandingPadInst();
  };
  size_t top = s.fr.size();
  size_t startF = popFirst ? top - 1 : top;
  bool found = false;
  for (size_t k = startF; k-- > 0;) {
    if (auto* L = lpOf(s.fr[k])) {
      u32 sel;
      u64 adj;
      if (lpMatch(s, L, exc, sel, adj) == 2) {
        found = true;
        break;
      }
    }
  }
  if (!found) {
    std::string n = "?";
    auto g = addrG.find(s.exc[exc].ti);
    if (g != addrG.end())
      n = demangleS(g->second->getName().str());
    fail(s, "uncaught", "uncaught exception: " + n);
  }
  if (popFirst)
    popFrame(s);
  while (true) {
    Frame& f = s.fr.back();
    if (auto* L = lpOf(f)) {
      u32 sel = 0;
      u64 adj = exc;
      int r = lpMatch(s, L, exc, sel, adj);
      if (r) {
        s.pendExc = exc;
        s.pendSel = sel;
        s.exc[exc].adj = adj;
        DInst& d = f.f->bb[f.bb].in[f.ip];
        gotoEdge(s, d.succ[1]);
        return;
      }
    }
    popFrame(s);
  }
}

// ------------------------------------------------------------------ values
Val Engine::icmp(unsigned p, const Val& a, const Val& b, unsigned w)
{
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c;
    i64 sx_ = (i64) sx(x, w), sy = (i64) sx(y, w);
    switch (p) {
    case CmpInst::ICMP_EQ:
      return V(x == y);
    case CmpInst::ICMP_NE:
      return V(x != y);
    case CmpInst::ICMP_UGT:
      return V(x > y);
    case CmpInst::ICMP_UGE:
      return V(x >= y);
    case CmpInst::ICMP_ULT:
      return V(x < y);
    case CmpInst::ICMP_ULE:
      return V(x <= y);
    case CmpInst::ICMP_SGT:
      return V(sx_ > sy);
    case CmpInst::ICMP_SGE:
      return V(sx_ >= sy);
    case CmpInst::ICMP_SLT:
      return V(sx_ < sy);
    case CmpInst::ICMP_SLE:
      return V(sx_ <= sy);
    }
  }
  Expr *x = E(a, w), *y = E(b, w);
  switch (p) {
  case CmpInst::ICMP_EQ:
    return V(mkEq(x, y));
  case CmpInst::ICMP_NE:
    return V(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_UGT:
    return V(mkBin(ULT, y, x));
  case CmpInst::ICMP_UGE:
    return V(mkBin(ULE, y, x));
  case CmpInst::ICMP_ULT:
    return V(mkBin(ULT, x, y));
  case CmpInst::ICMP_ULE:
    return V(mkBin(ULE, x, y));
  case CmpInst::ICMP_SGT:
    return V(mkBin(SLT, y, x));
  case CmpInst::ICMP_SGE:
    return V(mkBin(SLE, y, x));
  case CmpInst::ICMP_SLT:
    return V(mkBin(SLT, x, y));
  case CmpInst::ICMP_SLE:
    return V(mkBin(SLE, x, y));
  }
  throw Unsupported {"icmp"};
}

static double asD(u64 c, unsigned w)
{
  if (w == 32) {
    float f;
    u32 x = (u32) c;
    memcpy(&f, &x, 4);
    return f;
  }
  double d;
  memcpy(&d, &c, 8);
  return d;
}
static u64 fromD(double d, unsigned w)
{
  if (w == 32) {
    float f = (float) d;
    u32 x;
    memcpy(&x, &f, 4);
    return x;
  }
  u64 c;
  memcpy(&c, &d, 8);
  return c;
}

Val Engine::binop(State& s, DInst& d, const Val& a, const Val& b)
{
  unsigned w = d.w;
  Op op;
  switch (d.opc) {
  case Instruction::Add:
    op = ADD;
    break;
  case Instruction::Sub:
    op = SUB;
    break;
  case Instruction::Mul:
    op = MUL;
    break;
  case Instruction::UDiv:
    op = UDIV;
    break;
  case Instruction::SDiv:
    op = SDIV;
    break;
  case Instruction::URem:
    op = UREM;
    break;
  case Instruction::SRem:
    op = SREM;
    break;
  case Instruction::And:
    op = AND;
    break;
  case Instruction::Or:
    op = OR;
    break;
  case Instruction::Xor:
    op = XOR;
    break;
  case Instruction::Shl:
    op = SHL;
    break;
  case Instruction::LShr:
    op = LSHR;
    break;
  case Instruction::AShr:
    op = ASHR;
    break;
  case Instruction::FAdd:
  case Instruction::FSub:
  case Instruction::FMul:
  case Instruction::FDiv: {
    if (a.e || b.e || w > 64)
      throw Unsupported {"symbolic floating point"};
    double x = asD(a.c, w), y = asD(b.c, w), r = 0;
    r = d.opc == Instruction::FAdd ? x + y
        : d.opc == Instruction::FSub ? x - y
        : d.opc == Instruction::FMul ? x * y
                                     : x / y;
    return V(fromD(r, w));
  }
  default:
    throw Unsupported {"binop"};
  }
  if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
    if (b.e) {
      if (decide(s, mkEq(b.e, K(0, w))))
        fail(s, "ub", "division by zero");
    } else if (!b.c)
      fail(s, "ub", "division by zero");
  }
  if (!a.e && !b.e && w <= 64)
    return V((u64) foldBin(op, a.c, b.c, w));
  return V(mkBin(op, E(a, w), E(b, w)));
}

// ------------------------------------------------------------- intrinsics
static Expr* ctlzE(Expr* x, bool trailing)
{
  unsigned w = x->w;
  Expr* r = K(w, w);
  if (trailing) {
    for (unsigned i = w; i-- > 0;)
      r = mkIte(mkExtract(x, i, 1), K(i, w), r);
  } else {
    for (unsigned i = 0; i < w; ++i)
      r = mkIte(mkExtract(x, i, 1), K(w - 1 - i, w), r);
  }
  return r;
}

bool Engine::intrinsic(State& s, DInst& d, std::vector<Val>& a,
                       std::vector<Val>& r)
{
  unsigned w = d.sw;
  auto two = [&](auto f) {
    // elementwise for vectors: args laid out n + n
    u32 n = d.on[0];
    for (u32 i = 0; i < n; ++i)
      r.push_back(f(a[i], a[n + i]));
  };
  switch (d.iid) {
  case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end:
  case Intrinsic::assume:
  case Intrinsic::donothing:
  case Intrinsic::stackrestore:
  case Intrinsic::invariant_end:
    return true;
  case Intrinsic::stacksave:
  case Intrinsic::invariant_start:
    r.push_back(V(0));
    return true;
  case Intrinsic::memcpy:
  case Intrinsic::memmove:
  case Intrinsic::memcpy_inline: {
    u64 n = concretize(s, a[2], 64);
    copyBytes(s, a[0], a[1], n);
    return true;
  }
  case Intrinsic::memset: {
    u64 n = concretize(s, a[2], 64);
    if (!n)
      return true;
    u64 off;
    Obj* o = resolve(s, a[0], n, off, nullptr, true);
    o = s.writable(o);
    for (u64 i = 0; i < n; ++i)
      if (a[1].e)
        setSym(o, (u32) (off + i), a[1].e);
      else
        setByte(o, (u32) (off + i), (u8) a[1].c);
    return true;
  }
  case Intrinsic::expect:
  case Intrinsic::expect_with_probability:
  case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address:
  case Intrinsic::ptr_annotation:
  case Intrinsic::annotation:
  case Intrinsic::ssa_copy:
    r.push_back(a[0]);
    return true;
  case Intrinsic::is_constant:
    r.push_back(V(0));
    return true;
  case Intrinsic::objectsize:
    r.push_back(V((a[1].c & 1) ? 0 : (u64) maskw(d.w)));
    return true;
  case Intrinsic::eh_typeid_for:
    r.push_back(V(tiId(a[0].c)));
    return true;
  case Intrinsic::bswap: {
    for (u32 i = 0; i < d.n; ++i) {
      Expr* x = E(a[i], w);
      Expr* q = mkExtract(x, 0, 8);
      for (unsigned k = 1; k < w / 8; ++k)
        q = mkConcat(q, mkExtract(x, 8 * k, 8));
      r.push_back(V(q));
    }
    return true;
  }
  case Intrinsic::ctlz:
  case Intrinsic::cttz: {
    for (u32 i = 0; i < d.n; ++i) {
      Expr* x = E(a[i], w);
      r.push_back(V(ctlzE(x, d.iid == Intrinsic::cttz)));
    }
    return true;
  }
  case Intrinsic::ctpop: {
    for (u32 i = 0; i < d.n; ++i) {
      Expr* x = E(a[i], w);
      Expr* q = K(0, w);
      for (unsigned k = 0; k < w; ++k)
        q = mkBin(ADD, q, mkZext(mkExtract(x, k, 1), w));
      r.push_back(V(q));
    }
    return true;
  }
  case Intrinsic::fshl:
  case Intrinsic::fshr: {
    Expr *x = E(a[0], w), *y = E(a[1], w);
    if (a[2].e)
      throw Unsupported {"fsh symbolic"};
    unsigned k = (unsigned) (a[2].c % w);
    if (d.iid == Intrinsic::fshr)
      k = (w - k) % w;
    // fshl: high w bits of (x:y) << k ; fshr by k == fshl by w-k (k!=0)
    if (k == 0)
      r.push_back(d.iid == Intrinsic::fshl ? a[0] : a[1]);
    else
      r.push_back(V(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k))));
    return true;
  }
  case Intrinsic::umin:
    two([&](Val x, Val y) {
      if (!x.e && !y.e)
        return V(std::min(x.c, y.c));
      return V(mkIte(mkBin(ULT, E(x, w), E(y, w)), E(x, w), E(y, w)));
    });
    return true;
  case Intrinsic::umax:
    two([&](Val x, Val y) {
      if (!x.e && !y.e)
        return V(std::max(x.c, y.c));
      return V(mkIte(mkBin(ULT, E(x, w), E(y, w)), E(y, w), E(x, w)));
    });
    return true;
  case Intrinsic::smin:
    two([&](Val x, Val y) {
      return V(mkIte(mkBin(SLT, E(x, w), E(y, w)), E(x, w), E(y, w)));
    });
    return true;
  case Intrinsic::smax:
    two([&](Val x, Val y) {
      return V(mkIte(mkBin(SLT, E(x, w), E(y, w)), E(y, w), E(x, w)));
    });
    return true;
  case Intrinsic::abs: {
    for (u32 i = 0; i < d.n; ++i) {
      Expr* x = E(a[i], w);
      r.push_back(V(
          mkIte(mkBin(SLT, x, K(0, w)), mkBin(SUB, K(0, w), x), x)));
    }
    return true;
  }
  case Intrinsic::uadd_sat:
    two([&](Val x, Val y) {
      Expr* q = mkBin(ADD, E(x, w), E(y, w));
      return V(mkIte(mkBin(ULT, q, E(x, w)), K(~(u128) 0, w), q));
    });
    return true;
  case Intrinsic::usub_sat:
    two([&](Val x, Val y) {
      return V(mkIte(mkBin(ULT, E(x, w), E(y, w)), K(0, w),
                     mkBin(SUB, E(x, w), E(y, w))));
    });
    return true;
  case Intrinsic::uadd_with_overflow:
  case Intrinsic::usub_with_overflow:
  case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::ssub_with_overflow:
  case Intrinsic::smul_with_overflow: {
    Expr *x = E(a[0], w), *y = E(a[1], w);
    Expr *q, *o;
    bool sg = d.iid == Intrinsic::sadd_with_overflow
        || d.iid == Intrinsic::ssub_with_overflow
        || d.iid == Intrinsic::smul_with_overflow;
    Op op = (d.iid == Intrinsic::uadd_with_overflow
             || d.iid == Intrinsic::sadd_with_overflow)
        ? ADD
        : (d.iid == Intrinsic::usub_with_overflow
           || d.iid == Intrinsic::ssub_with_overflow)
        ? SUB
        : MUL;
    q = mkBin(op, x, y);
    if (!sg && op == ADD)
      o = mkBin(ULT, q, x);
    else if (!sg && op == SUB)
      o = mkBin(ULT, x, y);
    else if (!sg && op == MUL && (x->op == CONST || y->op == CONST)) {
      Expr* kx = x->op == CONST ? x : y;
      Expr* vx = x->op == CONST ? y : x;
      if (kx->val == 0)
        o = FALSE_();
      else
        o = mkBin(ULT, K(maskw(w) / kx->val, w), vx);
    } else {
      unsigned ww = op == MUL ? 2 * w : w + 1;
      if (ww > 128)
        throw Unsupported {"wide overflow op"};
      Expr* X = sg ? mkSext(x, ww) : mkZext(x, ww);
      Expr* Y = sg ? mkSext(y, ww) : mkZext(y, ww);
      Expr* Q = mkBin(op, X, Y);
      o = mkNot(mkEq(Q, sg ? mkSext(q, ww) : mkZext(q, ww)));
    }
    r.push_back(V(q));
    r.push_back(V(o));
    return true;
  }
  case Intrinsic::trap:
  case Intrinsic::debugtrap:
    fail(s, "abort", "trap executed");
  case Intrinsic::ubsantrap:
    fail(s, "ub",
         "undefined behaviour (sanitizer check "
             + std::to_string(a[0].c) + ")");
  case Intrinsic::load_relative: {
    Val p = a[0];
    Expr* ad = mkBin(ADD, E(p, 64), E(a[1], 64));
    Val off = load(s, V(ad), 32);
    r.push_back(V(mkBin(ADD, E(p, 64), mkSext(E(off, 32), 64))));
    return true;
  }
  case Intrinsic::vector_reduce_or:
  case Intrinsic::vector_reduce_and:
  case Intrinsic::vector_reduce_add:
  case Intrinsic::vector_reduce_xor: {
    Op op = d.iid == Intrinsic::vector_reduce_or ? OR
        : d.iid == Intrinsic::vector_reduce_and  ? AND
        : d.iid == Intrinsic::vector_reduce_add  ? ADD
                                                 : XOR;
    Expr* q = E(a[0], w);
    for (size_t i = 1; i < a.size(); ++i)
      q = mkBin(op, q, E(a[i], w));
    r.push_back(V(q));
    return true;
  }
  case Intrinsic::fabs:
    if (a[0].e)
      throw Unsupported {"symbolic floating point"};
    r.push_back(V(fromD(std::fabs(asD(a[0].c, w)), w)));
    return true;
  default:
    return false;
  }
}

// ------------------------------------------------------------------- call
void Engine::call(State& s, DInst& d)
{
  std::vector<Val> a, r;
  Frame& f = s.fr.back();
  size_t nargs = cast<CallBase>(d.I)->arg_size();
  for (size_t i = 0; i < nargs; ++i)
    for (u32 k = 0; k < d.on[i]; ++k)
      a.push_back(d.op[i].slot >= 0 ? f.sl[d.op[i].slot + k]
                                    : d.op[i].cv[k]);
  if (d.iid) {
    if (!intrinsic(s, d, a, r))
      throw Unsupported {"intrinsic " + d.callee->getName().str()};
    finishCall(s, d, r);
    return;
  }
  if (d.builtin == -2) {
    // inline asm: only the empty barrier form
    auto* ia = cast<InlineAsm>(
        cast<CallBase>(d.I)->getCalledOperand()->stripPointerCasts());
    if (!ia->getAsmString().empty())
      throw Unsupported {"inline asm " + ia->getAsmString()};
    finishCall(s, d, r);
    return;
  }
  Function* F = d.callee;
  if (d.builtin >= 0) {
    bfn[d.builtin](*this, s, d, a, r);
    if (ctl) {
      ctl = false;
      return;
    }
    finishCall(s, d, r);
    return;
  }
  if (!F) {
    Opnd& o = d.op.back();
    Val cv = o.slot >= 0 ? f.sl[o.slot] : o.cv[0];
    u64 ad = concretize(s, cv, 64);
    auto it = faddr.find(ad);
    if (it == faddr.end())
      fail(s, "memory", "call through an invalid function pointer");
    F = it->second;
    auto bi = builtins.find(F->getName().str());
    if (bi != builtins.end()) {
      bfn[bi->second.first](*this, s, d, a, r);
      if (ctl) {
        ctl = false;
        return;
      }
      finishCall(s, d, r);
      return;
    }
  }
  if (F->isDeclaration())
    throw Unsupported {"external function " + F->getName().str()};
  if (!d.dcallee || d.dcallee->F != F)
    d.dcallee = decode(F);
  if (F->isVarArg() && a.size() > F->arg_size())
    a.resize(F->arg_size());
  if (d.pred == 1) {
    auto* cb = cast<CallBase>(d.I);
    size_t k = 0;
    for (size_t i = 0; i < nargs; ++i) {
      if (cb->isByValArgument(i)) {
        u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i));
        Obj* o = s.alloc(sz, O_STACK);
        Val p = V(State::addrOf(o));
        copyBytes(s, p, a[k], sz);
        a[k] = p;
      }
      k += d.on[i];
    }
    enter(s, d.dcallee, a);
    return;
  }
  enter(s, d.dcallee, a);
}

// ------------------------------------------------------------------- step
void Engine::step(State& s, DInst& d)
{
  Frame& f = s.fr.back();
  auto get = [&](unsigned i, u32 k = 0) -> const Val& {
    const Opnd& o = d.op[i];
    return o.slot >= 0 ? f.sl[o.slot + k] : o.cv[k];
  };
  switch (d.opc) {
  case Instruction::Br: {
    if (d.op.empty()) {
      gotoEdge(s, d.succ[0]);
      return;
    }
    const Val& c = get(0);
    if (!c.e) {
      gotoEdge(s, d.succ[(c.c & 1) ? 0 : 1]);
      return;
    }
    ST.branches++;
    Expr* ce = c.e;
    if (ce->op == CONST) {
      gotoEdge(s, d.succ[ce->val ? 0 : 1]);
      return;
    }
    bool v = decide(s, ce);
    gotoEdge(s, d.succ[v ? 0 : 1]);
    return;
  }
  case Instruction::Switch: {
    const Val& c = get(0);
    if (!c.e) {
      size_t k = 0;
      for (size_t i = 0; i < d.cases.size(); ++i)
        if (d.cases[i] == c.c) {
          k = i + 1;
          break;
        }
      gotoEdge(s, d.succ[k]);
      return;
    }
    ST.branches++;
    // group by target
    ++EPOCH;
    u64 v = (u64) evalE(c.e, s.pc.wit.data());
    size_t k = 0;
    for (size_t i = 0; i < d.cases.size(); ++i)
      if (d.cases[i] == v) {
        k = i + 1;
        break;
      }
    u32 tgt = d.succ[k].bb;
    bool simple = true; // edges to the same block may carry different phis
    for (auto& e : d.succ)
      if (e.bb == tgt && !e.mv.empty() && &e != &d.succ[k])
        simple = false;
    Expr* cond = nullptr;
    for (size_t i = 0; i < d.cases.size(); ++i) {
      bool in = simple ? d.succ[i + 1].bb == tgt : i + 1 == k;
      if (!in)
        continue;
      Expr* q = mkEq(c.e, K(d.cases[i], d.sw));
      cond = cond ? mkBin(OR, cond, q) : q;
    }
    bool defIn = simple ? d.succ[0].bb == tgt : k == 0;
    if (defIn) {
      Expr* other = FALSE_();
      for (size_t i = 0; i < d.cases.size(); ++i) {
        bool in = simple ? d.succ[i + 1].bb == tgt : i + 1 == k;
        if (!in)
          other = mkBin(OR, other, mkEq(c.e, K(d.cases[i], d.sw)));
      }
      cond = mkNot(other);
    }
    std::vector<u8> wit;
    Expr* nc = mkNot(cond);
    bool forked = false;
    if (nc->op != CONST || nc->val)
      if (sat(s, nc, wit) == 1) {
        pushRaw(forkWith(s, nc, wit));
        forked = true;
      }
    std::vector<u8> w0 = s.pc.wit;
    addPC(s.pc, cond, w0);
    (void) forked;
    keep(s, 7 + (unsigned) (simple ? tgt * 31 : k * 17));
    gotoEdge(s, d.succ[k]);
    return;
  }
  case Instruction::Call:
  case Instruction::Invoke:
    call(s, d);
    return;
  case Instruction::Ret: {
    std::vector<Val> r;
    if (!d.op.empty())
      for (u32 k = 0; k < d.on[0]; ++k)
        r.push_back(get(0, k));
    popFrame(s);
    if (s.fr.empty())
      return;
    Frame& c = s.fr.back();
    DInst& ci = c.f->bb[c.bb].in[c.ip];
    finishCall(s, ci, r);
    return;
  }
  case Instruction::Unreachable:
    fail(s, "ub", "unreachable code executed");
  case Instruction::Alloca: {
    u64 n = d.bytes;
    const Val& cnt = get(0);
    n *= concretize(s, cnt, 64);
    Obj* o = s.alloc(n, O_STACK);
    if (!o)
      fail(s, "stack", "stack allocation too large");
    f.sl[d.dst] = V(State::addrOf(o));
    break;
  }
  case Instruction::Load: {
    const Val p = get(0);
    if (d.leaves.size() == 1 && d.leaves[0].off == 0) {
      Val v = load(s, p, d.leaves[0].bits);
      s.fr.back().sl[d.dst] = v;
    } else {
      Val pp = V(concretize(s, p, 64));
      for (size_t i = 0; i < d.leaves.size(); ++i)
        f.sl[d.dst + i]
            = load(s, V(pp.c + d.leaves[i].off), d.leaves[i].bits);
    }
    break;
  }
  case Instruction::Store: {
    const Val p = get(1);
    if (d.leaves.size() == 1 && d.leaves[0].off == 0)
      store(s, p, d.leaves[0].bits, get(0));
    else {
      Val pp = V(concretize(s, p, 64));
      for (size_t i = 0; i < d.leaves.size(); ++i)
        store(s, V(pp.c + d.leaves[i].off), d.leaves[i].bits, get(0, i));
    }
    break;
  }
  case Instruction::GetElementPtr: {
    const Val& b = get(0);
    u64 off = (u64) d.goff;
    Expr* se = nullptr;
    for (auto& g : d.gi) {
      const Val& x
          = g.op.slot >= 0 ? f.sl[g.op.slot] : g.op.cv[0];
      if (!x.e)
        off += (u64) ((i64) sx(x.c, g.w) * (i64) g.scale);
      else {
        Expr* q = mkBin(MUL, mkSext(x.e, 64), K(g.scale, 64));
        se = se ? mkBin(ADD, se, q) : q;
      }
    }
    if (!se && !b.e)
      f.sl[d.dst] = V(b.c + off);
    else {
      Expr* q = mkBin(ADD, E(b, 64), K(off, 64));
      if (se)
        q = mkBin(ADD, q, se);
      f.sl[d.dst] = V(q);
    }
    break;
  }
  case Instruction::ICmp:
    for (u32 i = 0; i < d.n; ++i)
      f.sl[d.dst + i] = icmp(d.pred, get(0, i), get(1, i), d.sw);
    break;
  case Instruction::FCmp: {
    const Val &a = get(0), &b = get(1);
    if (a.e || b.e || d.sw > 64 || d.n > 1)
      throw Unsupported {"symbolic floating point"};
    double x = asD(a.c, d.sw), y = asD(b.c, d.sw);
    bool un = x != x || y != y, r = false;
    unsigned p = d.pred;
    bool lt = !un && x < y, gt = !un && x > y, eq = !un && x == y;
    r = ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt)
        || ((p & 8) && un);
    f.sl[d.dst] = V(r);
    break;
  }
  case Instruction::Select: {
    u32 cn = d.on[0];
    for (u32 i = 0; i < d.n; ++i) {
      const Val& c = get(0, cn > 1 ? i : 0);
      const Val &a = get(1, i), &b = get(2, i);
      if (!c.e)
        f.sl[d.dst + i] = (c.c & 1) ? a : b;
      else {
        unsigned w = d.w;
        if (!w) {
          std::vector<Leaf> l;
          leavesOf(d.I->getType(), 0, l);
          w = l[i].bits;
        }
        f.sl[d.dst + i] = V(mkIte(c.e, E(a, w), E(b, w)));
      }
    }
    break;
  }
  case Instruction::Trunc:
    for (u32 i = 0; i < d.n; ++i) {
      const Val& a = get(0, i);
      f.sl[d.dst + i]
          = a.e ? V(mkExtract(a.e, 0, d.w)) : V(a.c & (u64) maskw(d.w));
    }
    break;
  case Instruction::ZExt:
    for (u32 i = 0; i < d.n; ++i) {
      const Val& a = get(0, i);
      f.sl[d.dst + i] = (a.e || d.w > 64) ? V(mkZext(E(a, d.sw), d.w)) : a;
    }
    break;
  case Instruction::SExt:
    for (u32 i = 0; i < d.n; ++i) {
      const Val& a = get(0, i);
      f.sl[d.dst + i] = (a.e || d.w > 64)
          ? V(mkSext(E(a, d.sw), d.w))
          : V((u64) sx(a.c, d.sw) & (u64) maskw(d.w));
    }
    break;
  case Instruction::PtrToInt:
  case Instruction::IntToPtr:
  case Instruction::AddrSpaceCast: {
    const Val& a = get(0);
    if (d.w == d.sw)
      f.sl[d.dst] = a;
    else if (d.w < d.sw)
      f.sl[d.dst] = V(mkExtract(E(a, d.sw), 0, d.w));
    else
      f.sl[d.dst] = V(mkZext(E(a, d.sw), d.w));
    break;
  }
  case Instruction::BitCast: {
    if (d.on[0] == d.n) {
      for (u32 i = 0; i < d.n; ++i)
        f.sl[d.dst + i] = get(0, i);
    } else if (d.n == 1) { // vector -> scalar
      Expr* q = E(get(0, 0), d.sw);
      for (u32 i = 1; i < d.on[0]; ++i)
        q = mkConcat(E(get(0, i), d.sw), q);
      f.sl[d.dst] = V(q);
    } else if (d.on[0] == 1) {
      Expr* q = E(get(0), d.sw);
      for (u32 i = 0; i < d.n; ++i)
        f.sl[d.dst + i] = V(mkExtract(q, i * d.w, d.w));
    } else {
      Expr* q = E(get(0, 0), d.sw);
      for (u32 i = 1; i < d.on[0]; ++i)
        q = mkConcat(E(get(0, i), d.sw), q);
      for (u32 i = 0; i < d.n; ++i)
        f.sl[d.dst + i] = V(mkExtract(q, i * d.w, d.w));
    }
    break;
  }
  case Instruction::Freeze:
    for (u32 i = 0; i < d.n; ++i)
      f.sl[d.dst + i] = get(0, i);
    break;
  case Instruction::ExtractValue:
    for (u32 i = 0; i < d.n; ++i)
      f.sl[d.dst + i] = get(0, (u32) d.goff + i);
    break;
  case Instruction::InsertValue:
    for (u32 i = 0; i < d.n; ++i)
      f.sl[d.dst + i] = (i >= (u64) d.goff && i < (u64) d.goff + d.on[1])
          ? get(1, i - (u32) d.goff)
          : get(0, i);
    break;
  case Instruction::ExtractElement: {
    u64 ix = concretize(s, get(1), 64);
    if (ix >= d.on[0])
      fail(s, "ub", "extractelement out of range");
    f.sl[d.dst] = get(0, (u32) ix);
    break;
  }
  case Instruction::InsertElement: {
    u64 ix = concretize(s, get(2), 64);
    for (u32 i = 0; i < d.n; ++i)
      f.sl[d.dst + i] = i == ix ? get(1) : get(0, i);
    break;
  }
  case Instruction::ShuffleVector:
    for (u32 i = 0; i < d.n; ++i) {
      int m = d.mask[i];
      f.sl[d.dst + i] = m < 0 ? (d.w > 64 ? V(K(0, d.w)) : V(0))
          : (u32) m < d.on[0] ? get(0, m)
                              : get(1, m - d.on[0]);
    }
    break;
  case Instruction::LandingPad:
    f.sl[d.dst] = V(s.pendExc);
    f.sl[d.dst + 1] = V((u64) s.pendSel);
    break;
  case Instruction::Resume: {
    u64 exc = concretize(s, get(0, 0), 64);
    unwind(s, exc, true);
    return;
  }
  case Instruction::Fence:
    break;
  case Instruction::AtomicRMW: {
    Val p = V(concretize(s, get(0), 64));
    Val old = load(s, p, d.w);
    Expr *x = E(old, d.w), *y = E(get(1), d.w), *q = nullptr;
    switch (d.pred) {
    case AtomicRMWInst::Xchg:
      q = y;
      break;
    case AtomicRMWInst::Add:
      q = mkBin(ADD, x, y);
      break;
    case AtomicRMWInst::Sub:
      q = mkBin(SUB, x, y);
      break;
    case AtomicRMWInst::And:
      q = mkBin(AND, x, y);
      break;
    case AtomicRMWInst::Or:
      q = mkBin(OR, x, y);
      break;
    case AtomicRMWInst::Xor:
      q = mkBin(XOR, x, y);
      break;
    default:
      throw Unsupported {"atomicrmw"};
    }
    store(s, p, d.w, V(q));
    f.sl[d.dst] = old;
    break;
  }
  case Instruction::AtomicCmpXchg: {
    unsigned w = d.ow[1];
    Val p = V(concretize(s, get(0), 64));
    Val old = load(s, p, w);
    bool eq = decide(s, E(icmp(CmpInst::ICMP_EQ, old, get(1), w), 1));
    if (eq)
      store(s, p, w, get(2));
    f.sl[d.dst] = old;
    f.sl[d.dst + 1] = V(eq);
    break;
  }
  case Instruction::FNeg: {
    const Val& a = get(0);
    if (a.e)
      throw Unsupported {"symbolic floating point"};
    f.sl[d.dst] = V(fromD(-asD(a.c, d.w), d.w));
    break;
  }
  case Instruction::SIToFP:
  case Instruction::UIToFP: {
    const Val& a = get(0);
    if (a.e || d.w > 64)
      throw Unsupported {"symbolic floating point"};
    double x = d.opc == Instruction::SIToFP ? (double) (i64) sx(a.c, d.sw)
                                            : (double) a.c;
    f.sl[d.dst] = V(fromD(x, d.w));
    break;
  }
  case Instruction::FPToSI:
  case Instruction::FPToUI: {
    const Val& a = get(0);
    if (a.e)
      throw Unsupported {"symbolic floating point"};
    double x = asD(a.c, d.sw);
    u64 r = d.opc == Instruction::FPToSI ? (u64) (i64) x : (u64) x;
    f.sl[d.dst] = V(r & (u64) maskw(d.w));
    break;
  }
  case Instruction::FPExt:
  case Instruction::FPTrunc: {
    const Val& a = get(0);
    if (a.e || d.w > 64 || d.sw > 64)
      throw Unsupported {"symbolic floating point"};
    f.sl[d.dst] = V(fromD(asD(a.c, d.sw), d.w));
    break;
  }
  case Instruction::Add:
  case Instruction::Sub:
  case Instruction::Mul:
  case Instruction::UDiv:
  case Instruction::SDiv:
  case Instruction::URem:
  case Instruction::SRem:
  case Instruction::And:
  case Instruction::Or:
  case Instruction::Xor:
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr:
  case Instruction::FAdd:
  case Instruction::FSub:
  case Instruction::FMul:
  case Instruction::FDiv:
    for (u32 i = 0; i < d.n; ++i) {
      Val r = binop(s, d, get(0, i), get(1, i));
      s.fr.back().sl[d.dst + i] = r;
    }
    break;
  default:
    throw Unsupported {std::string("instruction ")
                       + (d.I ? d.I->getOpcodeName() : "?")};
  }
  s.fr.back().ip++;
}

// -------------------------------------------------------------------- run
void Engine::endPath(State& s)
{
  if (partW > 1 && s.depth < partD && (s.pathHash >> 17) % partW != partK)
    return; // belongs to another partition
  ST.done++;
  for (u32 c : s.covers)
    covHits[c]++;
  ++witSeen;
  // a witness is replayed only when uninitialised bytes (copied around inside
  // disengaged storage, say) influence neither the path nor the observations
  bool clean = true;
  for (u32 v : s.undefVars)
    if (s.pc.isTouched(v) || s.pc.dom[v] != SETS.full)
      clean = false;
  if (clean && !s.undefVars.empty()) {
    auto w = s.pc.wit;
    u64 h0 = obsHash(s, w);
    for (u32 v : s.undefVars)
      w[v] ^= 0xa5;
    clean = h0 == obsHash(s, w);
  }
  if (clean) {
    std::string line = inputTokens(s, s.pc.wit) + "|";
    char b[32];
    snprintf(b, 32, "%016llx",
             (unsigned long long) obsHash(s, s.pc.wit));
    line += b;
    if (witLines.size() < maxWit)
      witLines.push_back(line);
    else {
      // deterministic reservoir
      u64 h = (witSeen * 6364136223846793005ull + 1442695040888963407ull)
          >> 20;
      u64 k = h % witSeen;
      if (k < maxWit)
        witLines[k] = line;
    }
  }
}

void Engine::run(State* s0)
{
  work.push_back(s0);
  while (!work.empty()) {
    if (stopAll) {
      break;
    }
    State* s = work.back();
    work.pop_back();
    cur = s;
    ST.paths++;
    try {
      u64 tick = 0;
      while (!s->fr.empty()) {
        Frame& f = s->fr.back();
        DInst& d = f.f->bb[f.bb].in[f.ip];
        curI = &d;
        ++ST.instrs;
        if (++s->instrs > maxInstr)
          fail(*s, "limit",
               "no termination within " + std::to_string(maxInstr)
                   + " instructions");
        if (((++tick) & 0xffff) == 0 && nowS() - t0 > tlimit) {
          incomplete["time limit"]++;
          stopAll = true;
          throw PathEnd {};
        }
        step(*s, d);
      }
      endPath(*s);
    } catch (PathEnd&) {
      ST.killed++;
    } catch (Unsupported& u) {
      std::vector<std::string> tr;
      std::string w = whereAmI(*s, &tr);
      std::string m = "unsupported: " + u.m + " at " + w;
      if (!incomplete.count(m) && getenv("SYMEX_TRACE"))
        for (auto& t : tr)
          fprintf(stderr, "   %s\n", t.c_str());
      incomplete[m]++;
      // the replayer completes such a path with concrete inputs
      if (extLines.size() < 40)
        extLines.push_back(inputTokens(*s, s->pc.wit));
    }
    delete s;
    if (nowS() - t0 > tlimit) {
      if (!work.empty())
        incomplete["time limit"]++;
      break;
    }
    if (ST.done >= maxPaths) {
      if (!work.empty())
        incomplete["path limit"]++;
      break;
    }
  }
}

std::string Engine::cstr(State& s, u64 a)
{
  std::string r;
  for (int i = 0; i < 200; ++i) {
    Val v = load(s, V(a + i), 8);
    if (v.e)
      break;
    if (!v.c)
      break;
    r += (char) v.c;
  }
  return r;
}

void Engine::assertCond(State& s, Expr* c, const std::string& msg)
{
  assertMsgs.insert(msg);
  if (c->op == CONST) {
    ST.asserts_conc++;
    if (!c->val)
      fail(s, "assert", msg);
    return;
  }
  ST.asserts_sym++;
  std::vector<Expr*> conj;
  flattenAnd(c, conj);
  Expr* rest = nullptr;
  std::vector<u8> wit;
  Expr* bad = nullptr;
  for (Expr* e : conj) {
    if (e->op == CONST && e->val)
      continue;
    if (e->op == INSET && !s.pc.isTouched(e->a->aux)) {
      Set256 q = SETS[s.pc.dom[e->a->aux]] & ~SETS[e->aux];
      ST.q_dom++;
      if (q.empty())
        continue;
      bad = mkNot(e);
      break;
    }
    rest = rest ? mkBin(AND, rest, e) : e;
  }
  if (!bad && rest) {
    ST.asserts_z3++;
    int r = satPC(s.pc, mkNot(rest), wit, true);
    if (r < 0) {
      incomplete["solver timeout on assertion: " + msg]++;
      return;
    }
    if (r == 1)
      bad = mkNot(rest);
  }
  if (bad) {
    if (satPC(s.pc, bad, wit) == 1) {
      PC p = s.pc;
      p.wit = wit;
      violation(s, "assert", msg, &p);
      ST.errors++;
    }
    // continue where it holds
    std::vector<u8> w2;
    if (satPC(s.pc, c, w2) != 1)
      throw PathEnd {};
    addPC(s.pc, c, w2);
  }
}

#include "builtins.hpp"

void Engine::setup()
{
  DL = &M->getDataLayout();
  u64 fi = 1;
  for (auto& F : *M) {
    u64 a = FUNC_BASE + 16 * fi++;
    gaddr[&F] = a;
    faddr[a] = &F;
  }
  registerBuiltins();
}

void Engine::initGlobals(State& s)
{
  std::vector<std::pair<GlobalVariable*, Obj*>> gs;
  for (auto& G : M->globals()) {
    u64 sz = G.getValueType()->isSized()
        ? DL->getTypeAllocSize(G.getValueType()).getFixedValue()
        : 8;
    if (!G.hasInitializer())
      sz = std::max<u64>(sz, 256);
    Obj* o = s.alloc(std::max<u64>(sz, 1), O_GLOBAL);
    if (!o)
      die("global too large: " + G.getName().str());
    gaddr[&G] = State::addrOf(o);
    addrG[State::addrOf(o)] = &G;
    gs.push_back({&G, o});
  }
  for (auto& [G, o] : gs) {
    std::fill(o->st.begin(), o->st.end(), (u8) B_CONC);
    if (!G->hasInitializer()) {
      if (G->getName() == "__libc_single_threaded")
        o->d[0] = 1;
      continue;
    }
    try {
      std::vector<Leaf> l;
      Constant* c = G->getInitializer();
      if (isa<ConstantAggregateZero>(c))
        continue;
      leavesOf(G->getValueType(), 0, l);
      std::vector<Val> v;
      constLeaves(c, v);
      if (v.size() != l.size())
        throw Unsupported {"initializer shape"};
      for (size_t i = 0; i < l.size(); ++i)
        writeLeaf(o, l[i].off, l[i].bits, v[i]);
    } catch (Unsupported& u) {
      fprintf(stderr, "symex: global %s: %s\n", G->getName().str().c_str(),
              u.m.c_str());
    }
  }
  for (auto& [G, o] : gs)
    if (G->isConstant())
      o->ro = true;
}

int main(int argc, char** argv)
{
  std::string entry, outJson, outWit;
  std::vector<std::string> mods;
  LLVMContext C;
  Engine E0(C);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string {
      if (i + 1 >= argc)
        die("missing value for " + a);
      return argv[++i];
    };
    if (a == "--entry")
      entry = next();
    else if (a == "--json")
      outJson = next();
    else if (a == "--wit")
      outWit = next();
    else if (a == "--param")
      E0.param = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--part") {
      std::string p = next();
      E0.partK = atoi(p.c_str());
      E0.partW = atoi(p.c_str() + p.find('/') + 1);
    } else if (a == "--part-depth")
      E0.partD = atoi(next().c_str());
    else if (a == "--max-instr")
      E0.maxInstr = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--max-paths")
      E0.maxPaths = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--max-wit")
      E0.maxWit = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--time")
      E0.tlimit = atof(next().c_str());
    else if (a == "--z3-timeout")
      Z3_TIMEOUT_MS = atoi(next().c_str());
    else if (a == "--thorough")
      E0.tierThorough = true;
    else if (a == "--dump-queries")
      DUMP_DIR = next();
    else
      mods.push_back(a);
  }
  E0.t0 = nowS();
  for (auto& f : mods) {
    SMDiagnostic err;
    auto m = parseIRFile(f, err, C);
    if (!m) {
      err.print("symex", errs());
      return 3;
    }
    if (!E0.M)
      E0.M = std::move(m);
    else if (Linker::linkModules(*E0.M, std::move(m)))
      die("link failed");
  }
  if (!E0.M)
    die("no module");
  E0.setup();
  auto* S = new State;
  S->id = 0;
  E0.initGlobals(*S);
  Function* F = E0.M->getFunction(entry);
  if (!F || F->isDeclaration())
    die("no entry " + entry);
  // static constructors run (LIFO frame stack: push in reverse order)
  std::vector<std::pair<u64, Function*>> ctors;
  if (auto* G = E0.M->getNamedGlobal("llvm.global_ctors"))
    if (auto* ca = dyn_cast<ConstantArray>(G->getInitializer()))
      for (auto& o : ca->operands()) {
        auto* cs = cast<ConstantStruct>(o.get());
        if (auto* f = dyn_cast<Function>(cs->getOperand(1)))
          ctors.push_back(
              {cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
  std::stable_sort(ctors.begin(), ctors.end(),
                   [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<Val> noargs;
  int rc = 0;
  // run the constructors one after another on the same state
  for (auto& [p, f] : ctors) {
    (void) p;
    try {
      E0.enter(*S, E0.decode(f), noargs);
      while (!S->fr.empty()) {
        Frame& fr = S->fr.back();
        E0.curI = &fr.f->bb[fr.bb].in[fr.ip];
        E0.step(*S, *E0.curI);
      }
    } catch (Unsupported& u) {
      die("static constructor: " + u.m);
    } catch (PathEnd&) {
      die("static constructor failed");
    }
  }
  S->liveHeap = 0;
  // constant globals initialised at run time stay writable only until here
  try {
    E0.enter(*S, E0.decode(F), noargs);
    E0.run(S);
  } catch (Unsupported& u) {
    die("decode: " + u.m);
  }
  double wall = nowS() - E0.t0;
  std::string js = E0.json(wall);
  if (outJson.empty())
    printf("%s\n", js.c_str());
  else if (FILE* fp = fopen(outJson.c_str(), "w")) {
    fputs(js.c_str(), fp);
    fputc('\n', fp);
    fclose(fp);
  }
  if (!outWit.empty())
    if (FILE* fp = fopen(outWit.c_str(), "w")) {
      for (auto& l : E0.witLines)
        fprintf(fp, "%s\n", l.c_str());
      fclose(fp);
    }
  if (!outWit.empty() && !E0.extLines.empty())
    if (FILE* fp = fopen((outWit + ".ext").c_str(), "w")) {
      for (auto& l : E0.extLines)
        fprintf(fp, "%s\n", l.c_str());
      fclose(fp);
    }
  fflush(nullptr);
  if (!E0.viol.empty())
    rc = 1;
  else if (!E0.incomplete.empty())
    rc = 2;
  _exit(rc);
}
