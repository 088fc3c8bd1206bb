// Functions implemented by the engine instead of being interpreted.
#pragma once

typedef std::vector<Val> VV;

static u64 cargs(Engine& e, State& s, const Val& v, unsigned w = 64)
{
  return e.concretize(s, v, w);
}

static void doAlloc(Engine& e, State& s, DInst&, VV& a, VV& r, int fam)
{
  u64 n = cargs(e, s, a[0]);
  Obj* o = s.alloc(n, O_HEAP);
  if (!o) {
    if (n > (1ull << 46)) {
      if (fam == 4) {
        r.push_back(V(0));
        return;
      }
      u64 x = e.throwNew(s, "_ZTISt9bad_alloc", "bad_alloc");
      e.doThrow(s, x);
      e.ctl = true;
      return;
    }
    throw Unsupported {"allocation of " + std::to_string(n) + " bytes"};
  }
  o->allocId = fam;
  r.push_back(V(State::addrOf(o)));
}
static void doFree(Engine& e, State& s, DInst&, VV& a, VV&, int fam)
{
  u64 p = cargs(e, s, a[0]);
  if (!p)
    return;
  bool st;
  Obj* o = s.find(p, st);
  if (!o || o->kind != O_HEAP || p != State::addrOf(o))
    e.fail(s, "memory",
           o ? "deallocation of a pointer that was not allocated"
             : "double free or free of an invalid pointer");
  if ((int) o->allocId != fam)
    e.fail(s, "memory", "mismatched allocation and deallocation");
  s.heapRef(o->slot) = ObjP();
  --s.liveHeap;
}

u64 Engine::throwNew(State& s, const char* ti, const char* what)
{
  Obj* o = s.alloc(64, O_HEAP);
  --s.liveHeap;
  o->allocId = 3;
  for (u32 i = 0; i < 64; ++i)
    setByte(o, i, 0);
  u64 a = State::addrOf(o);
  if (auto* g = M->getNamedGlobal("symex_exc_vtable"))
    writeLeaf(o, 0, 64, V(gvAddr(g)));
  (void) what;
  ExcInfo x;
  x.ti = gvAddr(M->getNamedGlobal(ti));
  s.exc[a] = x;
  s.exc[a].inflight = true;
  return a;
}

static void releaseExc(Engine& e, State& s, u64 exc)
{
  ExcInfo& x = s.exc[exc];
  if (x.handlers > 0 || x.refs > 0 || x.inflight)
    return;
  u64 dt = x.dtor;
  x.dtor = 0;
  if (dt) {
    auto it = e.faddr.find(dt);
    if (it != e.faddr.end() && !it->second->isDeclaration()) {
      VV args {V(exc)};
      e.enter(s, e.decode(it->second), args);
      e.ctl = true;
    }
  }
}

static Expr* eqBytes(Engine& e, State& s, const Val& p, const Val& q, u64 n,
                     bool order, Expr** out)
{
  // branch-free comparison
  Val pp = V(cargs(e, s, p)), qq = V(cargs(e, s, q));
  u64 po, qo;
  e.resolve(s, pp, n, po, nullptr, false);
  e.resolve(s, qq, n, qo, nullptr, false);
  std::vector<Expr*> x(n), y(n);
  for (u64 i = 0; i < n; ++i) {
    x[i] = E(e.load(s, V(pp.c + i), 8), 8);
    y[i] = E(e.load(s, V(qq.c + i), 8), 8);
  }
  if (!order) {
    Expr* r = TRUE_();
    for (u64 i = n; i-- > 0;)
      r = mkBin(AND, mkEq(x[i], y[i]), r);
    *out = r;
    return r;
  }
  Expr* r = K(0, 32);
  for (u64 i = n; i-- > 0;) {
    Expr* lt = mkIte(mkBin(ULT, x[i], y[i]), K(~0u, 32), K(1, 32));
    r = mkIte(mkEq(x[i], y[i]), r, lt);
  }
  *out = r;
  return r;
}

void Engine::registerBuiltins()
{
  for (auto& [n, b] : stdTi())
    for (auto& q : {n, b})
      if (!q.empty() && !M->getNamedValue(q))
        M->getOrInsertGlobal(q, PointerType::get(C, 0));
  auto reg = [&](std::initializer_list<const char*> names, BuiltinFn f) {
    bfn.push_back(f);
    for (auto n : names)
      builtins[n] = {(int) bfn.size() - 1, f};
  };
#define BI [](Engine & e, State & s, DInst & d, VV & a, VV & r)
#define UNUSED (void) e, (void) s, (void) d, (void) a, (void) r
  reg({"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"},
      BI { doAlloc(e, s, d, a, r, 1); });
  reg({"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"},
      BI { doAlloc(e, s, d, a, r, 2); });
  reg({"malloc"}, BI { doAlloc(e, s, d, a, r, 4); });
  reg({"aligned_alloc"}, BI {
    VV b {a[1]};
    doAlloc(e, s, d, b, r, 4);
  });
  reg({"calloc"}, BI {
    u64 n = cargs(e, s, a[0]) * cargs(e, s, a[1]);
    VV b {V(n)};
    doAlloc(e, s, d, b, r, 4);
    bool t;
    Obj* o = s.find(r[0].c, t);
    for (u32 i = 0; i < n; ++i)
      setByte(o, i, 0);
  });
  reg({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t",
       "_ZdlPvmSt11align_val_t"},
      BI { doFree(e, s, d, a, r, 1); });
  reg({"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t",
       "_ZdaPvmSt11align_val_t"},
      BI { doFree(e, s, d, a, r, 2); });
  reg({"free"}, BI { doFree(e, s, d, a, r, 4); });
  reg({"realloc"}, BI {
    u64 old = cargs(e, s, a[0]);
    u64 n = cargs(e, s, a[1]);
    VV b {V(n)};
    doAlloc(e, s, d, b, r, 4);
    if (old) {
      bool t;
      Obj* o = s.find(old, t);
      if (!o)
        e.fail(s, "memory", "realloc of invalid pointer");
      e.copyBytes(s, r[0], V(old), std::min<u64>(n, o->size));
      VV c {V(old)}, q;
      doFree(e, s, d, c, q, 4);
    }
  });
  reg({"memcpy", "memmove"}, BI {
    u64 n = cargs(e, s, a[2]);
    e.copyBytes(s, a[0], a[1], n);
    r.push_back(a[0]);
  });
  reg({"memset"}, BI {
    u64 n = cargs(e, s, a[2]);
    r.push_back(a[0]);
    if (!n)
      return;
    u64 off;
    Obj* o = e.resolve(s, a[0], n, off, nullptr, true);
    o = s.writable(o);
    for (u64 i = 0; i < n; ++i)
      if (a[1].e)
        setSym(o, (u32) (off + i), mkExtract(a[1].e, 0, 8));
      else
        setByte(o, (u32) (off + i), (u8) a[1].c);
  });
  reg({"bcmp"}, BI {
    u64 n = cargs(e, s, a[2]);
    Expr* q = TRUE_();
    if (n)
      eqBytes(e, s, a[0], a[1], n, false, &q);
    r.push_back(V(mkZext(mkNot(q), 32)));
  });
  reg({"memcmp"}, BI {
    u64 n = cargs(e, s, a[2]);
    Expr* q = K(0, 32);
    if (n)
      eqBytes(e, s, a[0], a[1], n, true, &q);
    r.push_back(V(q));
  });
  // ---- harness interface
  reg({"sym_bytes"}, BI {
    UNUSED;
    u64 n = cargs(e, s, a[1]);
    InItem it {};
    it.choice = false;
    it.n = (u32) n;
    it.v = s.pc.dom.size();
    u64 off;
    Obj* o = nullptr;
    if (n) {
      o = e.resolve(s, a[0], n, off, nullptr, true);
      o = s.writable(o);
    }
    for (u64 i = 0; i < n; ++i)
      setSym(o, (u32) (off + i), mkVar(s.pc.newVar()));
    s.in.push_back(it);
  });
  reg({"sym_choice"}, BI {
    UNUSED;
    u64 n = cargs(e, s, a[0]);
    if (!n)
      e.fail(s, "assert", "sym_choice(0)");
    VV v(1);
    for (u64 i = n; i-- > 1;) {
      State* q = new State(s);
      q->id = e.nextState++;
      q->in.push_back({true, i, 0, nullptr});
      v[0] = V(i);
      e.finishCall(*q, d, v);
      ST.forks++;
      e.push(q, 16 + (unsigned) i);
    }
    s.in.push_back({true, 0, 0, nullptr});
    if (n > 1)
      e.keep(s, 16);
    r.push_back(V(0));
  });
  reg({"sym_assume"}, BI {
    UNUSED;
    Expr* c = E(a[0], 1);
    if (c->op == CONST) {
      if (!c->val)
        throw PathEnd {};
      return;
    }
    std::vector<u8> w;
    int k = e.sat(s, c, w);
    if (k != 1)
      throw PathEnd {};
    addPC(s.pc, c, w);
  });
  reg({"sym_assert"}, BI {
    UNUSED;
    std::string m = e.cstr(s, a[1].c);
    e.assertCond(s, E(a[0], 1), m);
  });
  reg({"sym_fail"}, BI {
    UNUSED;
    e.fail(s, "assert", e.cstr(s, a[0].c));
  });
  reg({"sym_observe"}, BI {
    UNUSED;
    s.obs.push_back({a[0], 64});
  });
  reg({"sym_observe_bytes"}, BI {
    UNUSED;
    u64 n = cargs(e, s, a[1]);
    for (u64 i = 0; i < n; ++i) {
      Val v = e.load(s, V(cargs(e, s, a[0]) + i), 8);
      s.obs.push_back({v, 8});
    }
  });
  reg({"sym_cover"}, BI {
    UNUSED;
    std::string m = e.cstr(s, a[0].c);
    auto [it, ins] = e.covId.try_emplace(m, (u32) e.covNames.size());
    if (ins) {
      e.covNames.push_back(m);
      e.covHits.push_back(0);
    }
    s.covers.push_back(it->second);
  });
  reg({"sym_live_heap"}, BI {
    UNUSED;
    r.push_back(V((u64) s.liveHeap));
  });
  reg({"sym_param"}, BI {
    UNUSED;
    r.push_back(V(e.param));
  });
  reg({"sym_thorough"}, BI {
    UNUSED;
    r.push_back(V(e.tierThorough));
  });
  reg({"sym_is_symbolic"}, BI {
    UNUSED;
    r.push_back(V(1));
  });
  reg({"sym_concretize"}, BI {
    UNUSED;
    r.push_back(V(cargs(e, s, a[0])));
  });
  reg({"sym_dbg"}, BI {
    UNUSED;
    fprintf(stderr, "dbg: %s\n",
            a[0].e ? showE(a[0].e).c_str()
                   : std::to_string(a[0].c).c_str());
  });
  reg({"sym_trace"}, BI {
    UNUSED;
    std::vector<std::string> tr;
    e.whereAmI(s, &tr);
    for (auto& t : tr)
      fprintf(stderr, "  %s\n", t.c_str());
  });
  // ---- termination
  reg({"abort", "_ZSt9terminatev", "__assert_fail",
       "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__cxa_pure_virtual", "exit",
       "_exit", "__stack_chk_fail", "_ZSt10unexpectedv",
       "__cxa_call_terminate", "__cxa_bad_cast"},
      BI {
        UNUSED;
        std::string m = d.callee ? d.callee->getName().str() : "abort";
        if (m == "_ZSt9terminatev" || m == "__cxa_call_terminate")
          m = "std::terminate";
        else if (m.find("assert_fail") != std::string::npos)
          m = "library assertion failed";
        else
          m = "abort";
        e.fail(s, "abort", m + " called");
      });
  // ---- exceptions
  reg({"__cxa_allocate_exception"}, BI {
    UNUSED;
    Obj* o = s.alloc(cargs(e, s, a[0]), O_HEAP);
    --s.liveHeap;
    o->allocId = 3;
    r.push_back(V(State::addrOf(o)));
  });
  reg({"__cxa_free_exception"}, BI { UNUSED; });
  reg({"__cxa_init_primary_exception"}, BI {
    UNUSED;
    ExcInfo x;
    x.ti = cargs(e, s, a[1]);
    x.dtor = cargs(e, s, a[2]);
    s.exc[a[0].c] = x;
    r.push_back(a[0]);
  });
  reg({"__cxa_throw"}, BI {
    UNUSED;
    ExcInfo x;
    x.ti = cargs(e, s, a[1]);
    x.dtor = cargs(e, s, a[2]);
    x.inflight = true;
    s.exc[a[0].c] = x;
    e.doThrow(s, a[0].c);
    e.ctl = true;
  });
  reg({"__cxa_begin_catch"}, BI {
    UNUSED;
    u64 p = cargs(e, s, a[0]);
    ExcInfo& x = s.exc[p];
    x.handlers++;
    x.inflight = false;
    s.caught.push_back(p);
    s.uncaught--;
    r.push_back(V(x.adj ? x.adj : p));
  });
  reg({"__cxa_get_exception_ptr"}, BI {
    UNUSED;
    u64 p = cargs(e, s, a[0]);
    r.push_back(V(s.exc[p].adj ? s.exc[p].adj : p));
  });
  reg({"__cxa_end_catch"}, BI {
    UNUSED;
    if (s.caught.empty())
      e.fail(s, "abort", "end_catch without catch");
    u64 p = s.caught.back();
    s.caught.pop_back();
    s.exc[p].handlers--;
    releaseExc(e, s, p);
  });
  reg({"__cxa_rethrow"}, BI {
    UNUSED;
    if (s.caught.empty())
      e.fail(s, "abort", "std::terminate (rethrow without exception)");
    u64 p = s.caught.back();
    s.exc[p].inflight = true;
    e.doThrow(s, p);
    e.ctl = true;
  });
  reg({"_ZSt17current_exceptionv"}, BI {
    UNUSED;
    u64 p = s.caught.empty() ? 0 : s.caught.back();
    if (p)
      s.exc[p].refs++;
    e.store(s, a[0], 64, V(p));
  });
  reg({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}, BI {
    UNUSED;
    u64 p = cargs(e, s, e.load(s, a[0], 64));
    if (!p)
      e.fail(s, "abort", "rethrow of a null exception_ptr");
    s.exc[p].inflight = true;
    e.doThrow(s, p);
    e.ctl = true;
  });
  reg({"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"}, BI {
    UNUSED;
    u64 p = cargs(e, s, e.load(s, a[0], 64));
    if (p)
      s.exc[p].refs++;
  });
  reg({"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}, BI {
    UNUSED;
    u64 p = cargs(e, s, e.load(s, a[0], 64));
    if (p) {
      s.exc[p].refs--;
      e.store(s, a[0], 64, V(0));
      releaseExc(e, s, p);
    }
  });
  reg({"_ZNSt15__exception_ptr13exception_ptrC1EPv",
       "_ZNSt15__exception_ptr13exception_ptrC2EPv"},
      BI {
        UNUSED;
        u64 p = cargs(e, s, a[1]);
        e.store(s, a[0], 64, V(p));
        if (p)
          s.exc[p].refs++;
      });
  reg({"_ZSt19uncaught_exceptionsv"}, BI {
    UNUSED;
    r.push_back(V((u64) (u32) s.uncaught));
  });
#define THROWER(fn, ti)                                                       \
  reg({fn}, BI {                                                              \
    UNUSED;                                                                   \
    u64 x = e.throwNew(s, ti, "");                                            \
    e.doThrow(s, x);                                                          \
    e.ctl = true;                                                             \
  });
  THROWER("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range")
  THROWER("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range")
  THROWER("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error")
  THROWER("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error")
  THROWER("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument")
  THROWER("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error")
  THROWER("_ZSt19__throw_range_errorPKc", "_ZTISt11range_error")
  THROWER("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc")
  THROWER("_ZSt28__throw_bad_array_new_lengthv",
          "_ZTISt20bad_array_new_length")
  THROWER("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast")
  THROWER("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call")
  THROWER("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length")
  reg({"_ZSt20__throw_system_errori"}, BI {
    UNUSED;
    u64 x = e.throwNew(s, "_ZTISt12system_error", "");
    e.doThrow(s, x);
    e.ctl = true;
  });
  // ---- misc runtime
  reg({"__cxa_guard_acquire"}, BI {
    UNUSED;
    Val v = e.load(s, a[0], 8);
    r.push_back(V((cargs(e, s, v, 8) & 1) ? 0 : 1));
  });
  reg({"__cxa_guard_release"}, BI {
    UNUSED;
    e.store(s, a[0], 8, V(1));
  });
  reg({"__cxa_guard_abort"}, BI { UNUSED; });
  reg({"__cxa_atexit", "__cxa_thread_atexit", "pthread_mutex_lock",
       "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy",
       "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal",
       "pthread_cond_broadcast", "pthread_mutexattr_init",
       "pthread_mutexattr_settype", "pthread_mutexattr_destroy",
       "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
       "pthread_rwlock_unlock"},
      BI {
        UNUSED;
        r.push_back(V(0));
      });
  reg({"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"},
      BI { UNUSED; });
  reg({"__dynamic_cast"}, BI {
    UNUSED;
    u64 p = cargs(e, s, a[0]);
    if (!p) {
      r.push_back(V(0));
      return;
    }
    u64 vt = cargs(e, s, e.load(s, V(p), 64));
    u64 ti = cargs(e, s, e.load(s, V(vt - 8), 64));
    i64 top = (i64) cargs(e, s, e.load(s, V(vt - 16), 64));
    i64 off = 0;
    if (e.tiMatch(ti, a[2].c, off))
      r.push_back(V(p + top + off));
    else
      r.push_back(V(0));
  });
#undef BI
}
