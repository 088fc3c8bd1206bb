// Symbolic machine state: values, memory objects, frames.
#pragma once
#include "solver.hpp"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <set>

struct Val {
  u64 c = 0;
  Expr* e = nullptr;
};
inline Val V(unsigned long long c) { return Val {(u64) c, nullptr}; }
inline Val V(int c) { return Val {(u64) (u32) c, nullptr}; }
inline Val V(u32 c) { return Val {c, nullptr}; }
inline Val V(bool c) { return Val {c, nullptr}; }
inline Val V(u64 c)
{
  return Val {c, nullptr};
}
inline Val V(Expr* e)
{
  if (e->op == CONST && e->w <= 64)
    return Val {(u64) e->val, nullptr};
  return Val {0, e};
}
inline Expr* E(const Val& v, unsigned w)
{
  return v.e ? v.e : K(v.c, w);
}

enum { B_CONC = 0, B_SYM = 1, B_UNDEF = 2 };
enum { O_GLOBAL, O_HEAP, O_STACK };

struct Obj {
  int rc = 0;
  u32 size = 0;
  u8 kind = 0;
  bool ro = false;
  u32 slot = 0;
  u64 allocId = 0; // which allocator function family
  std::vector<u8> d, st;
  std::vector<Expr*> s;
};
struct ObjP {
  Obj* o = nullptr;
  ObjP() { }
  ObjP(Obj* p)
      : o(p)
  {
    if (o)
      ++o->rc;
  }
  ObjP(const ObjP& x)
      : o(x.o)
  {
    if (o)
      ++o->rc;
  }
  ObjP(ObjP&& x) noexcept
      : o(x.o)
  {
    x.o = nullptr;
  }
  ObjP& operator=(ObjP x)
  {
    std::swap(o, x.o);
    return *this;
  }
  ~ObjP()
  {
    if (o && --o->rc == 0)
      delete o;
  }
};

constexpr unsigned CHB = 6;
struct Chunk {
  ObjP o[1 << CHB];
};

constexpr u64 STRIDE_BITS = 20;
constexpr u64 HEAP_BASE = 1ull << 40;
constexpr u64 STACK_BASE = 1ull << 45;
constexpr u64 FUNC_BASE = 1ull << 39;
constexpr u64 OBJ_OFF = 4096;

struct DFunc;
struct DInst;

struct Frame {
  DFunc* f = nullptr;
  u32 bb = 0, ip = 0;
  std::vector<Val> sl;
  u32 stackBase = 0;
  std::vector<Val> va; // variadic arguments (unused)
};

struct ExcInfo {
  u64 ti = 0, dtor = 0;
  int refs = 0;
  u64 adj = 0;
  int handlers = 0;
  bool inflight = false;
};

struct InItem {
  bool choice;
  u64 v; // choice value or first variable
  u32 n;
  const char* name;
};

struct ObsItem {
  Val v;
  u16 w;
};

struct State {
  u64 id;
  PC pc;
  std::vector<Frame> fr;
  std::vector<std::shared_ptr<Chunk>> heap;
  u32 nheap = 0;
  std::vector<ObjP> stack;
  u32 nstack = 0;
  u64 instrs = 0;
  std::map<u64, ExcInfo> exc;
  std::vector<u64> caught;
  u64 pendExc = 0;
  u32 pendSel = 0;
  int uncaught = 0;
  i64 liveHeap = 0;
  std::vector<InItem> in;
  std::vector<ObsItem> obs;
  u64 pathHash = 1469598103934665603ull;
  u32 depth = 0;
  std::vector<u32> covers;
  std::vector<u32> undefVars; // stand for uninitialised bytes that were read

  Obj* heapGet(u32 slot)
  {
    u32 c = slot >> CHB;
    if (c >= heap.size() || !heap[c])
      return nullptr;
    return heap[c]->o[slot & ((1 << CHB) - 1)].o;
  }
  ObjP& heapRef(u32 slot)
  {
    u32 c = slot >> CHB;
    if (c >= heap.size())
      heap.resize(c + 1);
    if (!heap[c])
      heap[c] = std::make_shared<Chunk>();
    else if (heap[c].use_count() > 1)
      heap[c] = std::make_shared<Chunk>(*heap[c]);
    return heap[c]->o[slot & ((1 << CHB) - 1)];
  }
  int stackFind(u32 slot)
  {
    int lo = 0, hi = (int) stack.size() - 1;
    while (lo <= hi) {
      int m = (lo + hi) / 2;
      u32 s = stack[m].o->slot;
      if (s == slot)
        return m;
      if (s < slot)
        lo = m + 1;
      else
        hi = m - 1;
    }
    return -1;
  }
  // object containing (or nearest to) the address; null if none
  Obj* find(u64 addr, bool& isStack)
  {
    if (addr >= STACK_BASE) {
      isStack = true;
      u64 s = (addr - STACK_BASE) >> STRIDE_BITS;
      int i = s >> 32 ? -1 : stackFind((u32) s);
      return i < 0 ? nullptr : stack[i].o;
    }
    isStack = false;
    if (addr < HEAP_BASE)
      return nullptr;
    u64 s = (addr - HEAP_BASE) >> STRIDE_BITS;
    return s >> 32 ? nullptr : heapGet((u32) s);
  }
  Obj* writable(Obj* o)
  {
    if (o->kind == O_STACK) {
      int i = stackFind(o->slot);
      if (stack[i].o->rc > 1) {
        Obj* n = new Obj(*o);
        n->rc = 0;
        stack[i] = ObjP(n);
      }
      return stack[i].o;
    }
    ObjP& r = heapRef(o->slot);
    if (r.o->rc > 1) {
      Obj* n = new Obj(*r.o);
      n->rc = 0;
      r = ObjP(n);
    }
    return r.o;
  }
  static u64 addrOf(const Obj* o)
  {
    return (o->kind == O_STACK ? STACK_BASE : HEAP_BASE)
        + ((u64) o->slot << STRIDE_BITS) + OBJ_OFF;
  }
  Obj* alloc(u64 size, u8 kind)
  {
    if (size > (1 << STRIDE_BITS) - 2 * OBJ_OFF)
      return nullptr;
    Obj* o = new Obj;
    o->size = (u32) size;
    o->kind = kind;
    o->d.assign(size, 0);
    o->st.assign(size, B_UNDEF);
    if (kind == O_STACK) {
      o->slot = nstack++;
      stack.push_back(ObjP(o));
    } else {
      o->slot = nheap++;
      heapRef(o->slot) = ObjP(o);
      if (kind == O_HEAP)
        ++liveHeap;
    }
    return o;
  }
};

// byte-level access (object must be writable for set*)
inline void setByte(Obj* o, u32 i, u8 v)
{
  o->d[i] = v;
  o->st[i] = B_CONC;
}
inline void setSym(Obj* o, u32 i, Expr* e)
{
  if (e->op == CONST) {
    setByte(o, i, (u8) e->val);
    return;
  }
  if (o->s.empty())
    o->s.assign(o->size, nullptr);
  o->s[i] = e;
  o->st[i] = B_SYM;
}
