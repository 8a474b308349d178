// absint: an abstract interpreter for LLVM IR, specialised to the C++ that clang
// emits for stdexec.  See /verif/DESIGN.md section "Engine" for the domain.
//
// usage: absint FILE.bc [--list] [--scenario NAME]... [--json OUT] [--max-states N]
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

static const int MAXT = 8;      // threads tracked by the happens-before domain

static u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}

// ---------------------------------------------------------------- values ----
struct Val {
  enum K : u8 { Undef, Int, Ptr, Fn, Sym, Agg, Cat };
  u8 k = Undef;
  u16 bits = 0;       // scalar width in bits
  u64 a = 0;          // Int: value; Ptr: object; Fn: Function*; Sym: expr id; Agg/Cat: table id
  i64 b = 0;          // Ptr: offset
  bool operator==(const Val& o) const { return k == o.k && a == o.a && b == o.b && (k == Agg || k == Ptr || k == Fn || bits == o.bits); }
  bool operator!=(const Val& o) const { return !(*this == o); }
  u64 hash() const { return mix(mix(mix(k, a), (u64)b), k == Ptr || k == Fn ? 0 : bits); }
};
static u64 maskOf(unsigned bits) { return bits >= 64 ? ~0ULL : ((1ULL << bits) - 1); }
static Val mkInt(u64 v, unsigned bits) { Val r; r.k = Val::Int; r.bits = bits; r.a = v & maskOf(bits); return r; }
static Val mkPtr(u64 o, i64 off) { Val r; r.k = Val::Ptr; r.bits = 64; r.a = o; r.b = off; return r; }
static Val mkFn(const Function* f) { Val r; r.k = Val::Fn; r.bits = 64; r.a = (u64)f; return r; }
static Val mkUndef(unsigned bits) { Val r; r.bits = bits; return r; }
static i64 sx(const Val& v) { if (v.bits >= 64) return (i64)v.a; u64 s = 1ULL << (v.bits - 1); return (i64)((v.a ^ s) - s); }

// aggregates (struct SSA values, vectors) are hash-consed
static std::vector<std::vector<Val>> aggTab;
static std::unordered_map<u64, std::vector<u32>> aggIdx;
static u32 internVec(const std::vector<Val>& v) {
  u64 h = v.size();
  for (auto& x : v) h = mix(h, x.hash());
  for (u32 i : aggIdx[h]) if (aggTab[i] == v) return i;
  aggTab.push_back(v);
  aggIdx[h].push_back(aggTab.size() - 1);
  return aggTab.size() - 1;
}
static Val mkAgg(const std::vector<Val>& v) { Val r; r.k = Val::Agg; r.a = internVec(v); return r; }

// symbolic scalars: hash-consed expression nodes; leaves are opaque inputs
struct Expr { u16 op; u16 bits; u32 tag; u32 depth; Val l, r; };
static std::vector<Expr> exprs;
static std::unordered_map<u64, std::vector<u32>> exprIdx;
enum { OpLeaf = 1000, OpTrunc, OpZext, OpSext, OpICmp, OpNot, OpOther };
static Val mkExpr(u16 op, u16 bits, u32 tag, Val l, Val r) {
  u32 d = 0;
  for (const Val* p : {&l, &r}) if (p->k == Val::Sym) d = std::max(d, exprs[p->a].depth);
  d++;
  if (d > 24) { op = OpOther; l = Val(); r = Val(); d = 1; }     // widening of scalar expressions
  u64 h = mix(mix(mix(mix(op, bits), tag), l.hash()), r.hash());
  for (u32 i : exprIdx[h]) { Expr& e = exprs[i]; if (e.op == op && e.bits == bits && e.tag == tag && e.l == l && e.r == r) { Val v; v.k = Val::Sym; v.bits = bits; v.a = i; return v; } }
  exprs.push_back({op, bits, tag, d, l, r});
  exprIdx[h].push_back(exprs.size() - 1);
  Val v; v.k = Val::Sym; v.bits = bits; v.a = exprs.size() - 1;
  return v;
}

// --------------------------------------------------------------- objects ----
struct HB { u16 wt = 0xffff, wc = 0; u16 r[MAXT] = {0}; u16 aw[MAXT] = {0}; u16 ar[MAXT] = {0}; const Instruction* wi = nullptr; const Instruction* ai = nullptr; const Instruction* ri = nullptr; };
struct Cell { i64 off; u32 size; Val v; };
typedef std::array<u16, MAXT> VC;
struct Range { i64 lo, hi; const Instruction* where; };
struct Object {
  enum Kind : u8 { Global, Stack, Heap, Exn, Const } kind;
  bool alive = true; bool zero = false; bool scoped = true;
  u16 owner = 0;
  u64 size = 0; u32 align = 16; u32 base = 0; bool over = false;   // over: allocated by an aligned operator new
  std::vector<Cell> cells;                       // sorted by offset, non overlapping
  std::vector<Range> dead;                       // destroyed sub-ranges
  std::vector<std::pair<i64, u64>> born;         // tracked objects constructed in here and not destroyed yet (offset, name)
  std::map<i64, HB> hb;                          // per 8-byte granule (keyed by offset)
  std::map<i64, VC> rel;                         // release clocks of atomic locations
  const Value* what = nullptr;                   // alloca / global / allocating call
  const Instruction* freedAt = nullptr;
  mutable u64 h = 0;
  u64 hash(bool withHB) const {
    if (h) return h;
    u64 x = mix(mix(kind, alive), scoped);
    x = mix(mix(x, size), base * 4096ULL + align);
    for (auto& c : cells) { if (c.v.k == Val::Undef) continue; x = mix(mix(mix(x, c.off), c.size), c.v.hash()); }
    for (auto& d : dead) x = mix(mix(x, d.lo), d.hi);
    for (auto& b : born) x = mix(mix(x, b.first), b.second);
    if (withHB) {
      for (auto& p : hb) { x = mix(x, p.first); x = mix(x, p.second.wt * 65536 + p.second.wc); for (int i = 0; i < MAXT; i++) x = mix(x, p.second.r[i] + 65536ULL * p.second.aw[i] + (65536ULL * 65536) * p.second.ar[i]); }
      for (auto& p : rel) { x = mix(x, p.first); for (auto c : p.second) x = mix(x, c); }
    }
    return h = x ? x : 1;
  }
};

struct FnInfo { DenseMap<const Value*, u32> idx; u32 n = 0; };
static DenseMap<const Function*, FnInfo*> fnInfos;
static FnInfo& infoOf(const Function* f) {
  FnInfo*& p = fnInfos[f];
  if (p) return *p;
  p = new FnInfo;
  for (auto& a : f->args()) p->idx[&a] = p->n++;
  for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
  return *p;
}

struct Frame {
  const Function* f; FnInfo* info;
  const BasicBlock* bb = nullptr; const BasicBlock* prev = nullptr;
  const Instruction* pc = nullptr;
  std::vector<Val> slots;
  std::vector<u32> stackObjs;
  u32 freeOnReturn = 0;        // exception object to release when its destructor returns
  bool stopUnwind = false;     // entry of a thread
  u32 deleteOnReturn = 0;
  u8 rv = 0;                   // retry phase of a blocking model
  u64 hash() const {
    u64 x = mix((u64)f, (u64)pc);
    x = mix(x, (u64)prev); x = mix(x, rv);
    for (auto& v : slots) x = mix(x, v.hash());
    return x;
  }
};
typedef std::shared_ptr<Frame> FrameP;

struct Thread {
  enum St : u8 { Ready, BlkMutex, BlkCV, BlkAddr, BlkJoin, BlkAll, Yield, Done } st = Ready;
  std::vector<FrameP> stack;
  std::vector<u32> caught;       // exceptions being handled (object ids)
  Val waitOn;                    // address or thread
  u32 cvMutexObj = 0; i64 cvMutexOff = 0;
  bool notified = false, timed = false;
  u32 spin = 0; u64 spinKey = 0; u32 lonely = 0;
  const char* name = "main";
  VC vc{};
  VC acqPending{};               // clocks read by relaxed loads, claimed by acquire fences
  VC relFence{};                 // clock at the last release fence
  bool hasRelFence = false;
  std::map<const GlobalVariable*, u32> tls;
};

struct ExnInfo { int refs; int handlers; Val ti; Val dtor; bool rethrown; };

struct TraceNode { std::shared_ptr<TraceNode> up; std::string s; ~TraceNode() { auto p = std::move(up); while (p && p.use_count() == 1) { auto q = std::move(p->up); p = std::move(q); } } };

struct MutexSt { int owner = -1; int depth = 0; VC rel{}; };

struct State {
  std::vector<std::shared_ptr<Object>> objs;     // index = id
  std::vector<Thread> th;
  int cur = 0;
  int preempt = 0; int termOk = 0;
  std::map<std::pair<u64, i64>, MutexSt> mtx;
  std::map<u32, ExnInfo> exn;
  std::map<u32, u64> facts;                      // expr -> value known on this path
  std::set<std::pair<u32, u64>> nfacts;          // expr != value
  std::shared_ptr<TraceNode> trace;
  u32 symCount = 0;
  u32 noPreempt = 0; const Instruction* loopPc = nullptr; u64 loopHash = 0; u32 loopDepth = 0, loopTries = 0;
  u32 quietSpins = 0;
  u64 steps = 0;
  u32 spurious = 0; bool forceFail = false; u64 clock = 1000000000ULL; u32 timeouts = 0; u32 ooms = 0, oomNow = 0;
  std::map<u64, Val> ghost;                      // named ghost counters of a scenario
  void note(const std::string& s) { auto n = std::make_shared<TraceNode>(); n->up = trace; n->s = s; trace = n; }
};

// ----------------------------------------------------------------- engine ---
struct Stop { std::string what; };            // path ends (violation reported or pruned)
struct Incomplete { std::string what; };

static std::string demang(const std::string& s) { return llvm::demangle(s); }
static std::string shortFn(const Function* f) {
  if (DISubprogram* sp = f->getSubprogram()) {
    std::string n = sp->getName().str();
    if (auto* sc = sp->getScope()) { std::string s = sc->getName().str(); if (!s.empty()) n = s + "::" + n; }
    return n;
  }
  std::string d = demang(f->getName().str());
  return d.size() > 120 ? d.substr(0, 117) + "..." : d;
}
static std::string locOf(const Instruction* i) {
  if (!i) return "?";
  if (const DILocation* d = i->getDebugLoc()) {
    std::string f = d->getFilename().str();
    size_t p = f.find("/include/");
    if (f.find("stdexec") != std::string::npos || f.find("exec/") != std::string::npos) { if (p != std::string::npos) f = f.substr(p + 1); }
    if (f.rfind("/repo/", 0) == 0) f = f.substr(6);
    return f + ":" + std::to_string(d->getLine());
  }
  return "?";
}
static bool inRepo(const Instruction* i) {
  if (const DILocation* d = i->getDebugLoc()) {
    StringRef f = d->getFilename(), dir = d->getDirectory();
    return f.contains("/repo/") || dir.startswith("/repo") || f.contains("stdexec/__detail/") || f.contains("include/exec/");
  }
  return false;
}

struct Stats {
  u64 paths = 0, states = 0, pruned = 0, instrs = 0, forks = 0, checks = 0, syncs = 0, completed = 0, accesses = 0;
  std::set<std::string> functions; std::set<std::pair<const Function*, unsigned>> repoLines;
  std::set<const DISubprogram*> repoFns; DenseSet<const BasicBlock*> seenBB;
  std::map<std::string, u64> checkSites;
};

struct Violation { std::string kind, msg, where; std::vector<std::string> stack, trace; };

class Engine;
struct Model { void (*fn)(Engine&, const CallBase*, std::vector<Val>&); };

class Engine {
public:
  Module& M; const DataLayout& DL; LLVMContext& C;
  DenseMap<const Constant*, Val> constCache;
  DenseMap<const GlobalVariable*, u32> globalIds;
  State base;
  Stats st;
  std::vector<Violation> viols; std::set<std::string> violKeys;
  std::vector<std::string> incomplete;
  std::vector<State> work;
  std::unordered_set<u64> visited;
  State S;
  u64 maxSteps = 400ULL * 1000 * 1000, maxStates = 3000000;
  int maxViol = 3;
  bool cfgBorn = true, cfgLeak = true, cfgRace = true, cfgDedupe = true, cfgThrowOOM = false, cfgHBHash = true, cfgAssertUnknown = true;
  int cfgPreempt = 0; bool cfgSpurious = false, cfgThrowThread = false; u64 cfgStackSpan = 0; int cfgHw = 2, extraPreempt = 0; u32 cfgDepth = 900;
  std::string scenario;
  std::chrono::steady_clock::time_point t0; double maxSeconds = 600;

  Engine(Module& m) : M(m), DL(m.getDataLayout()), C(m.getContext()) {}

  // --- reporting
  std::vector<std::string> stackOf(const State& s, int t) {
    std::vector<std::string> r;
    auto& st = s.th[t].stack;
    for (int i = (int)st.size() - 1; i >= 0; i--) {
      r.push_back(shortFn(st[i]->f) + " at " + locOf(st[i]->pc));
      if (r.size() > 24) { r.push_back("..."); break; }
    }
    return r;
  }
  void violate(const std::string& kind, const std::string& msg) {
    Violation v; v.kind = kind; v.msg = msg;
    if (S.cur < (int)S.th.size() && !S.th[S.cur].stack.empty()) {
      v.stack = stackOf(S, S.cur);
      v.where = "";
      for (int i = (int)S.th[S.cur].stack.size() - 1; i >= 0; i--) { auto* pc = S.th[S.cur].stack[i]->pc; if (inRepo(pc)) { v.where = locOf(pc) + " in " + shortFn(S.th[S.cur].stack[i]->f); break; } }
    }
    for (auto n = S.trace; n; n = n->up) v.trace.push_back(n->s);
    std::reverse(v.trace.begin(), v.trace.end());
    if (violKeys.insert(kind + "|" + msg + "|" + v.where).second) viols.push_back(v);
    throw Stop{kind};
  }

  // --- constants and globals
  Val evalConst(const Constant* c) {
    auto it = constCache.find(c);
    if (it != constCache.end()) return it->second;
    Val v = evalConst0(c);
    constCache[c] = v;
    return v;
  }
  unsigned bitsOf(Type* t) { if (t->isPointerTy()) return 64; if (t->isSized() && !t->isAggregateType() && !t->isVectorTy()) return DL.getTypeSizeInBits(t).getFixedValue(); return 0; }
  Val evalConst0(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) { std::vector<Val> v; return mkInt(ci->getValue().extractBitsAsZExtValue(64, 0), ci->getBitWidth()); }
      return mkInt(ci->getZExtValue(), ci->getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return mkInt(0, 64);
    if (isa<UndefValue>(c)) { if (t->isAggregateType() || t->isVectorTy()) return zeroOf(t, true); return mkUndef(bitsOf(t)); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); return mkInt(b.extractBitsAsZExtValue(std::min(64u, b.getBitWidth()), 0), std::min(64u, b.getBitWidth())); }
    if (auto* f = dyn_cast<Function>(c)) return mkFn(f);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return mkPtr(globalIds.lookup(g), 0);
    if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t, false);
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (auto& o : ca->operands()) v.push_back(evalConst(cast<Constant>(o))); return mkAgg(v); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i))); return mkAgg(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (auto* gep = dyn_cast<GEPOperator>(ce)) {
        APInt off(64, 0);
        Val b = evalConst(cast<Constant>(gep->getPointerOperand()));
        if (gep->accumulateConstantOffset(DL, off)) {
          if (b.k == Val::Ptr) return mkPtr(b.a, b.b + off.getSExtValue());
          if (b.k == Val::Int) return mkInt(b.a + off.getSExtValue(), 64);
        }
        throw Incomplete{"constant gep"};
      }
      if (ce->isCast()) { Val v = evalConst(ce->getOperand(0)); unsigned nb = bitsOf(t); if (v.k == Val::Int) return mkInt(v.a, nb); return v; }
      if (ce->getOpcode() == Instruction::Sub) { Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); if (a.k == Val::Ptr && b.k == Val::Ptr && a.a == b.a) return mkInt(a.b - b.b, 64); if (a.k == Val::Int && b.k == Val::Int) return mkInt(a.a - b.a, a.bits); }
      if (ce->getOpcode() == Instruction::Add) { Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); if (a.k == Val::Int && b.k == Val::Int) return mkInt(a.a + b.a, a.bits); if (a.k == Val::Ptr && b.k == Val::Int) return mkPtr(a.a, a.b + (i64)b.a); }
      if (ce->getOpcode() == Instruction::ICmp) { Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); auto pr = (CmpInst::Predicate)ce->getPredicate(); bool eq = a == b; if (pr == CmpInst::ICMP_EQ) return mkInt(eq, 1); if (pr == CmpInst::ICMP_NE) return mkInt(!eq, 1); }
      throw Incomplete{"constant expression " + std::string(ce->getOpcodeName())};
    }
    throw Incomplete{"constant kind"};
  }
  Val zeroOf(Type* t, bool undef) {
    if (auto* s = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e : s->elements()) v.push_back(zeroOf(e, undef)); return mkAgg(v); }
    if (auto* s = dyn_cast<ArrayType>(t)) { std::vector<Val> v(s->getNumElements(), zeroOf(s->getElementType(), undef)); return mkAgg(v); }
    if (auto* s = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v(s->getNumElements(), zeroOf(s->getElementType(), undef)); return mkAgg(v); }
    return undef ? mkUndef(bitsOf(t)) : mkInt(0, bitsOf(t));
  }
  void initStore(Object& o, i64 off, Type* t, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || c->isNullValue()) return;
    if (isa<UndefValue>(c)) return;
    if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initStore(o, off + sl->getElementOffset(i), s->getElementType(i), c->getAggregateElement(i)); return; }
    if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); u64 es = DL.getTypeAllocSize(et); for (unsigned i = 0; i < n; i++) initStore(o, off + es * i, et, c->getAggregateElement(i)); return; }
    Cell ce; ce.off = off; ce.size = DL.getTypeStoreSize(t); ce.v = evalConst(c);
    o.cells.push_back(ce);
  }
  void initGlobals() {
    base.objs.push_back(nullptr);
    for (auto& g : M.globals()) {
      auto o = std::make_shared<Object>();
      o->kind = g.isConstant() ? Object::Const : Object::Global;
      o->size = g.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(g.getValueType()) : 1024;
      o->zero = true; o->what = &g; o->align = std::max<u64>(DL.getPreferredAlign(&g).value(), 1);
      globalIds[&g] = base.objs.size();
      base.objs.push_back(o);
    }
    for (auto& g : M.globals()) if (g.hasInitializer() && !g.getName().startswith("llvm.")) {
      auto& o = *base.objs[globalIds[&g]];
      try { initStore(o, 0, g.getValueType(), g.getInitializer()); } catch (Incomplete& e) { }
      std::sort(o.cells.begin(), o.cells.end(), [](auto& a, auto& b) { return a.off < b.off; });
    }
  }

  // --- state helpers
  Thread& T() { return S.th[S.cur]; }
  Frame& F() { FrameP& p = T().stack.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
  const Frame& FR() { return *T().stack.back(); }
  void badObj(u64 id) { if (id >= S.objs.size() || !S.objs[id]) violate("wild-pointer", "access through a value that is no pointer"); if (id >= S.objs.size() || !S.objs[id]) throw Incomplete{"access through a value that is no pointer"}; }
  Object& objW(u64 id) { badObj(id); auto& p = S.objs[id]; if (p.use_count() > 1) p = std::make_shared<Object>(*p); p->h = 0; return *p; }
  const Object& objR(u64 id) { badObj(id); return *S.objs[id]; }
  u32 newObj(Object::Kind k, u64 size, const Value* what) {
    auto o = std::make_shared<Object>(); o->kind = k; o->size = size; o->what = what; o->owner = S.cur;
    S.objs.push_back(o); return S.objs.size() - 1;
  }
  std::string describe(u64 id) {
    const Object& o = objR(id); std::string s;
    switch (o.kind) { case Object::Global: case Object::Const: s = "global"; break; case Object::Stack: s = "local"; break; case Object::Heap: s = "heap object"; break; case Object::Exn: s = "exception object"; }
    if (o.what) { if (auto* i = dyn_cast<Instruction>(o.what)) s += " from " + locOf(i) + " (" + shortFn(i->getFunction()) + ")"; else if (o.what->hasName()) s += " " + demang(o.what->getName().str()).substr(0, 100); }
    return s;
  }
  Val get(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) {
      if (auto* g = dyn_cast<GlobalVariable>(c)) if (g->isThreadLocal()) return tlsAddr(g);
      return evalConst(c);
    }
    const Frame& f = FR();
    auto it = f.info->idx.find(v);
    if (it == f.info->idx.end()) { if (isa<MetadataAsValue>(v)) return Val(); throw Incomplete{"no slot"}; }
    return norm(f.slots[it->second]);
  }
  Val norm(Val v) { if (v.k == Val::Sym) { auto it = S.facts.find(v.a); if (it != S.facts.end()) return mkInt(it->second, v.bits); } return v; }
  void set(const Instruction* i, Val v) { if (i->getType()->isVoidTy()) return; F().slots[FR().info->idx.find(i)->second] = v; }
  Val tlsAddr(const GlobalVariable* g) {
    auto& t = T(); auto it = t.tls.find(g);
    if (it != t.tls.end()) return mkPtr(it->second, 0);
    auto o = std::make_shared<Object>(*base.objs[globalIds[g]]);
    S.objs.push_back(o); u32 id = S.objs.size() - 1; t.tls[g] = id; return mkPtr(id, 0);
  }

  // --- happens-before
  bool mt() { return S.th.size() > 1 && cfgRace; }
  bool hbLe(u16 t, u16 c) { return c == 0 || t == S.cur || T().vc[t] >= c; }
  void raceReport(const char* what, u64 id, i64 off, const Instruction* other) {
    violate("data-race", std::string(what) + " on " + describe(id) + " +" + std::to_string(off) + " not ordered after conflicting access at " + locOf(other) + (other ? " (" + shortFn(other->getFunction()) + ")" : ""));
  }
  // kind: 0 plain read, 1 plain write, 2 atomic load, 3 atomic write/rmw
  void hbAccess(u64 id, i64 off, u64 size, int kind) {
    if (!mt()) { return; }
    const Object& ro = objR(id);
    if (ro.kind == Object::Const) return;
    const Instruction* pc = FR().pc;
    for (i64 g = off & ~3LL; g < off + (i64)size; g += 4) {
      // exact cell granularity of 4 bytes with sub-granule accesses separated by byte offset
      i64 key = (size < 4) ? off : g;
      auto it = ro.hb.find(key);
      int me = S.cur; u16 clk = T().vc[me];
      if (it != ro.hb.end()) {
        const HB& h = it->second;
        if (h.wt != 0xffff && !hbLe(h.wt, h.wc)) raceReport(kind == 0 ? "read" : kind == 1 ? "write" : "atomic access", id, off, h.wi);
        if (kind <= 1) for (int t = 0; t < MAXT; t++) if (!hbLe(t, h.aw[t])) raceReport(kind == 0 ? "plain read" : "plain write", id, off, h.ai);
        if (kind == 1) for (int t = 0; t < MAXT; t++) if (!hbLe(t, h.ar[t])) raceReport("plain write", id, off, h.ai);
        if (kind == 1 || kind == 3) for (int t = 0; t < MAXT; t++) if (!hbLe(t, h.r[t])) raceReport(kind == 1 ? "write" : "atomic write", id, off, h.ri);
        // already recorded?
        if (kind == 0 && h.r[me] == clk) goto next;
        if (kind == 1 && h.wt == me && h.wc == clk) goto next;
        if (kind == 2 && h.ar[me] == clk) goto next;
        if (kind == 3 && h.aw[me] == clk) goto next;
      }
      {
        HB& h = objW(id).hb[key];
        if (kind == 0) { h.r[me] = clk; h.ri = pc; }
        else if (kind == 1) { h.wt = me; h.wc = clk; h.wi = pc; memset(h.r, 0, sizeof h.r); memset(h.aw, 0, sizeof h.aw); memset(h.ar, 0, sizeof h.ar); }
        else if (kind == 2) { h.ar[me] = clk; h.ai = pc; }
        else { h.aw[me] = clk; h.ai = pc; }
      }
    next:
      if (size < 4) break;
    }
  }
  void hbFree(u64 id, i64 lo, i64 hi, const char* what) {
    if (!objR(id).born.empty()) {
      std::vector<std::pair<i64, u64>> keep; bool leak = false; u64 nm = 0; i64 at = 0;
      for (auto& b : objR(id).born) if (b.first >= lo && b.first < hi) { leak = true; nm = b.second; at = b.first; } else keep.push_back(b);
      if (leak && cfgBorn && lostMatters(id)) { violate("never-destroyed", readCStr(mkPtr(nm, 0)) + " is never destroyed: " + what + " of " + describe(id) + " +" + std::to_string(at)); }
      if (leak) objW(id).born = keep;
    }
    if (!mt()) return;
    const Object& o = objR(id);
    for (auto& p : o.hb) {
      if (p.first < lo || p.first >= hi) continue;
      const HB& h = p.second;
      if (h.wt != 0xffff && !hbLe(h.wt, h.wc)) raceReport(what, id, p.first, h.wi);
      for (int t = 0; t < MAXT; t++) { if (!hbLe(t, h.r[t])) raceReport(what, id, p.first, h.ri); if (!hbLe(t, h.aw[t]) || !hbLe(t, h.ar[t])) raceReport(what, id, p.first, h.ai); }
    }
  }
  bool lostMatters(u64 id) { return true; }
  static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
  void tick() { T().vc[S.cur]++; }
  static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
  static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
  // libstdc++'s std::atomic<std::shared_ptr> releases its spin bit with a relaxed decrement after a load. The
  // standard library is trusted: inside it, the unlocking operation counts as a release.
  DenseMap<const Function*, bool> spAtomic;
  AtomicOrdering rmwOrdering(AtomicOrdering o) {
    if (isRel(o)) return o;
    auto& st = T().stack;
    size_t k = 0; for (size_t i = st.size(); i > 0 && k < 4; i--, k++) {
      auto* f = st[i - 1]->f; auto it = spAtomic.find(f);
      if (it == spAtomic.end()) it = spAtomic.insert(std::make_pair(f, f->getName().contains("_Sp_atomic") && f->getName().contains("4load"))).first;
      if (it->second) return AtomicOrdering::AcquireRelease;
    }
    return o;
  }
  void hbAtomicLoad(u64 id, i64 off, AtomicOrdering o) {
    if (!mt()) return;
    auto it = objR(id).rel.find(off);
    if (it == objR(id).rel.end()) return;
    if (isAcq(o)) join(T().vc, it->second); else join(T().acqPending, it->second);
  }
  void hbAtomicStore(u64 id, i64 off, AtomicOrdering o, bool rmw) {
    if (!mt()) return;
    VC nv{};
    if (isRel(o)) nv = T().vc; else if (T().hasRelFence) nv = T().relFence;
    auto& rel = objW(id).rel;
    if (rmw) { auto& x = rel[off]; join(x, nv); } else rel[off] = nv;
    if (isRel(o)) tick();
  }

  // --- memory
  // An address is asked for its residue beyond the known alignment of its object: go on with every residue the object may have.
  void addrFork(unsigned op, Val a, Val b) {
    if (op != Instruction::And && op != Instruction::URem) return;
    if (a.k == Val::Int) std::swap(a, b);
    if (a.k != Val::Ptr || b.k != Val::Int) return;
    u64 n = b.a, m = op == Instruction::URem ? n : n < 4096 ? n + 1 : ~n < 4096 ? ~n + 1 : 0;
    const Object& o = objR(a.a); u64 al = o.align;
    if (m < 2 || m > 64 || (m & (m - 1)) || al >= m || o.over || o.kind == Object::Global || o.kind == Object::Const) return;
    u64 base = o.base;
    for (u64 r = base + al; r < m; r += al) { State n2 = S; std::swap(S, n2); Object& w = objW(a.a); w.align = m; w.base = r; std::swap(S, n2); work.push_back(std::move(n2)); st.forks++; }
    Object& w = objW(a.a); w.align = m; w.base = base;
  }
  void checkAlign(Val p, u64 al, const char* what) {
    if (al < 2 || p.k != Val::Ptr) return;
    const Object& o = objR(p.a);
    if (o.align % al || ((u64)p.b + o.base) % al) violate("misaligned", std::string(what) + " needs " + std::to_string(al) + "-byte alignment, but " + describe(p.a) + " +" + std::to_string(p.b) + " is only guaranteed " + std::to_string(p.b ? std::min<u64>(o.align, (u64)p.b & -(u64)p.b) : o.align));
  }
  void checkAccess(Val p, u64 size, bool write, const char* what, u64 al = 0) {
    if (p.k == Val::Int) { violate("null-deref", std::string(what) + " through " + (p.a == 0 ? "null" : "near-null") + " pointer"); }
    if (p.k == Val::Undef) violate("uninit", std::string(what) + " through an uninitialised pointer");
    if (p.k == Val::Fn) violate("bad-access", std::string(what) + " to function memory");
    if (p.k != Val::Ptr) throw Incomplete{std::string(what) + " through symbolic pointer at " + locOf(FR().pc)};
    const Object& o = objR(p.a);
    if (!o.alive) violate("use-after-free", std::string(what) + " to " + describe(p.a) + " +" + std::to_string(p.b) + " after it was " + (o.kind == Object::Stack ? "popped" : "freed") + (o.freedAt ? " at " + locOf(o.freedAt) : ""));
    if (!o.scoped) violate("use-after-scope", std::string(what) + " to " + describe(p.a) + " outside its lifetime");
    if (p.b < 0 || (u64)p.b + size > o.size) violate("out-of-bounds", std::string(what) + " of " + std::to_string(size) + " bytes at offset " + std::to_string(p.b) + " of " + describe(p.a) + " (size " + std::to_string(o.size) + ")");
    if (write && o.kind == Object::Const) violate("bad-access", std::string(what) + " to constant " + describe(p.a));
    for (auto& d : o.dead) if (p.b < d.hi && (i64)(p.b + size) > d.lo) violate("use-after-destroy", std::string(what) + " to " + describe(p.a) + " +" + std::to_string(p.b) + " after that storage was destroyed at " + locOf(d.where));
    st.accesses++; checkAlign(p, al, what);
  }
  static size_t lowerCell(const std::vector<Cell>& c, i64 off) { return std::lower_bound(c.begin(), c.end(), off, [](const Cell& a, i64 o) { return a.off + (i64)a.size <= o; }) - c.begin(); }
  Val sliceVal(Val v, u32 vsize, i64 off, u32 size) {      // bytes [off,off+size) of v
    if (off == 0 && size == vsize) return v;
    if (v.k == Val::Int && v.bits <= 64) { unsigned sh = off * 8; return mkInt(sh >= 64 ? 0 : v.a >> sh, size * 8); }
    if (v.k == Val::Cat) {
      std::vector<Val> out; auto& t = aggTab[v.a]; i64 pos = 0;
      for (auto& e : t) { i64 n = (e.bits + 7) / 8; if (pos < off + size && pos + n > off) { i64 lo = std::max(pos, off), hi = std::min(pos + n, off + (i64)size); out.push_back(sliceVal(e, n, lo - pos, hi - lo)); } pos += n; }
      return catVals(out, size);
    }
    if (v.k == Val::Undef) return mkUndef(size * 8);
    if (v.k == Val::Sym) { Expr e = exprs[v.a]; if (e.op == OpOther && e.tag >= 7777 && e.tag < 7777 + 8) return sliceVal(e.l, e.l.k == Val::Sym ? (e.l.bits + 7) / 8 : 8, off + e.tag - 7777, size); }
    if (v.k == Val::Sym && off == 0 && (u32)(v.bits + 7) / 8 >= size) return mkTrunc(v, size * 8);
    if (v.k == Val::Ptr || v.k == Val::Fn || v.k == Val::Sym) return mkExpr(OpOther, size * 8, 7777 + off, v, Val());
    return mkUndef(size * 8);
  }
  Val catVals(const std::vector<Val>& in, u32 size) {
    std::vector<Val> p;
    for (auto& v : in) { if (v.k == Val::Cat) { auto t = aggTab[v.a]; p.insert(p.end(), t.begin(), t.end()); } else p.push_back(v); }
    if (p.size() == 1) return p[0];
    {                                             // adjacent slices of one pointer or term make it whole again
      std::vector<Val> q; size_t i = 0;
      auto slice = [&](const Val& v, Val& src, i64& off) { if (v.k != Val::Sym) return false; Expr& e = exprs[v.a]; if (e.op == OpOther && e.tag >= 7777 && e.tag < 7777 + 8) { src = e.l; off = e.tag - 7777; return true; } if (e.op == OpTrunc) { src = e.l; off = 0; return true; } return false; };
      while (i < p.size()) {
        Val src, s2; i64 off, o2; size_t j = i; i64 n = 0;
        if (slice(p[i], src, off) && off == 0) {
          n = (p[i].bits + 7) / 8; j = i + 1;
          while (j < p.size() && slice(p[j], s2, o2) && s2 == src && o2 == n) { n += (p[j].bits + 7) / 8; j++; }
          if (n == (src.k == Val::Sym ? (src.bits + 7) / 8 : 8)) { q.push_back(src); i = j; continue; }
        }
        q.push_back(p[i++]);
      }
      p.swap(q); if (p.size() == 1) return p[0];
    }
    bool allInt = true, allUndef = true; for (auto& v : p) { if (v.k != Val::Int) allInt = false; if (v.k != Val::Undef) allUndef = false; }
    if (allUndef) return mkUndef(size * 8);
    if (allInt && size <= 8) { u64 r = 0; unsigned sh = 0; for (auto& v : p) { unsigned n = (v.bits + 7) / 8 * 8; r |= v.a << sh; sh += n; } return mkInt(r, size * 8); }
    Val r; r.k = Val::Cat; r.bits = size * 8; r.a = internVec(p); return r;
  }
  Val mkTrunc(Val v, unsigned bits) {
    if (v.k == Val::Sym) { Expr& e = exprs[v.a]; if ((e.op == OpZext || e.op == OpSext)) { if (e.l.bits == bits) return norm(e.l); if (e.l.bits > bits) return mkTrunc(e.l, bits); } if (e.bits == bits) return v; }
    return mkExpr(OpTrunc, bits, 0, v, Val());
  }
  Val rawLoad(const Object& o, i64 off, u32 size) {
    size_t i = lowerCell(o.cells, off);
    if (i < o.cells.size() && o.cells[i].off == off && o.cells[i].size == size) return o.cells[i].v;
    std::vector<Val> parts; i64 pos = off; i64 end = off + size;
    while (pos < end) {
      if (i < o.cells.size() && o.cells[i].off <= pos) {
        const Cell& c = o.cells[i]; i64 e = std::min(end, c.off + (i64)c.size);
        parts.push_back(sliceVal(c.v, c.size, pos - c.off, e - pos)); pos = e; i++;
      } else {
        i64 e = i < o.cells.size() ? std::min(end, o.cells[i].off) : end;
        parts.push_back(o.zero ? mkInt(0, (e - pos) * 8) : mkUndef((e - pos) * 8)); 
        if (o.zero && e - pos > 8) parts.back() = mkInt(0, 64), parts.back().bits = (e - pos) * 8;
        pos = e;
      }
    }
    return catVals(parts, size);
  }
  void rawErase(Object& o, i64 off, i64 size) {
    size_t i = lowerCell(o.cells, off);
    std::vector<Cell> add; size_t j = i;
    while (j < o.cells.size() && o.cells[j].off < off + size) {
      Cell c = o.cells[j];
      if (c.off < off) add.push_back({c.off, (u32)(off - c.off), sliceVal(c.v, c.size, 0, off - c.off)});
      i64 ce = c.off + c.size;
      if (ce > off + size) add.push_back({off + size, (u32)(ce - off - size), sliceVal(c.v, c.size, off + size - c.off, ce - off - size)});
      j++;
    }
    o.cells.erase(o.cells.begin() + i, o.cells.begin() + j);
    o.cells.insert(o.cells.begin() + i, add.begin(), add.end());
  }
  void rawStore(Object& o, i64 off, u32 size, Val v) {
    if (v.k == Val::Cat) { auto t = aggTab[v.a]; i64 p = off; for (auto& e : t) { u32 n = (e.bits + 7) / 8; rawStore(o, p, n, e); p += n; } return; }
    size_t i = lowerCell(o.cells, off);
    if (i < o.cells.size() && o.cells[i].off == off && o.cells[i].size == size) { o.cells[i].v = v; return; }
    rawErase(o, off, size);
    i = lowerCell(o.cells, off);
    o.cells.insert(o.cells.begin() + i, Cell{off, size, v});
  }
  Val loadTy(u64 id, i64 off, Type* t) {
    const Object& o = objR(id);
    if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); std::vector<Val> v; for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(loadTy(id, off + sl->getElementOffset(i), s->getElementType(i))); return mkAgg(v); }
    if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); u64 es = DL.getTypeAllocSize(et); std::vector<Val> v; for (unsigned i = 0; i < n; i++) v.push_back(loadTy(id, off + es * i, et)); return mkAgg(v); }
    Val v = norm(rawLoad(o, off, DL.getTypeStoreSize(t)));
    unsigned b = bitsOf(t);
    if (v.k == Val::Int) { return mkInt(v.a, b); }
    if (v.k == Val::Sym && v.bits > b) return mkTrunc(v, b);
    if (v.k == Val::Undef) v.bits = b;
    return v;
  }
  void storeTy(u64 id, i64 off, Type* t, Val v) {
    if (v.k == Val::Agg) {
      auto tab = aggTab[v.a];
      if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) storeTy(id, off + sl->getElementOffset(i), s->getElementType(i), tab[i]); return; }
      Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); u64 es = DL.getTypeAllocSize(et);
      for (unsigned i = 0; i < tab.size(); i++) storeTy(id, off + es * i, et, tab[i]);
      return;
    }
    u32 sz = DL.getTypeStoreSize(t);
    if (v.k == Val::Sym && v.bits < sz * 8) v = mkZext(v, sz * 8);
    if (v.k == Val::Int) v.bits = sz * 8;
    rawStore(objW(id), off, sz, v);
  }
  Val mkZext(Val v, unsigned bits) { if (v.k == Val::Int) return mkInt(v.a, bits); if (v.bits == bits) return v; return mkExpr(OpZext, bits, 0, v, Val()); }
  void memCopy(Val d, Val s, u64 n) {
    if (n == 0) return;
    checkAccess(s, n, false, "copy from"); checkAccess(d, n, true, "copy to");
    hbCopy(s, n, 0); hbCopy(d, n, 1);
    const Object& so = objR(s.a); std::vector<Cell> cs; i64 pos = s.b, end = s.b + (i64)n; size_t i = lowerCell(so.cells, pos);
    while (i < so.cells.size() && so.cells[i].off < end) {
      const Cell& c = so.cells[i]; i64 lo = std::max(c.off, pos), hi = std::min(c.off + (i64)c.size, end);
      cs.push_back({lo - s.b, (u32)(hi - lo), sliceVal(c.v, c.size, lo - c.off, hi - lo)}); i++;
    }
    bool z = so.zero;
    Object& o = objW(d.a); rawErase(o, d.b, n);
    if (z && !o.zero) { // fill gaps with explicit zero bytes
      std::vector<Cell> full; i64 p = 0; for (auto& c : cs) { if (c.off > p) fillZero(full, p, c.off); full.push_back(c); p = c.off + c.size; } if (p < (i64)n) fillZero(full, p, n); cs = full;
    } else if (!z && o.zero) {
      std::vector<Cell> full; i64 p = 0; auto gap = [&](i64 a, i64 b) { full.push_back({a, (u32)(b - a), mkUndef(std::min<i64>((b - a) * 8, 65528))}); }; for (auto& c : cs) { if (c.off > p) gap(p, c.off); full.push_back(c); p = c.off + c.size; } if (p < (i64)n) gap(p, n); cs = full;
    }
    size_t k = lowerCell(o.cells, d.b);
    for (auto& c : cs) { c.off += d.b; }
    o.cells.insert(o.cells.begin() + k, cs.begin(), cs.end());
  }
  static void fillZero(std::vector<Cell>& v, i64 a, i64 b) { while (a < b) { u32 n = std::min<i64>(8 - (a & 7), b - a); v.push_back({a, n, mkInt(0, n * 8)}); a += n; } }
  void hbCopy(Val p, u64 n, int kind) { if (mt()) { if (n < 4 || (p.b & 3) || (n & 3)) { for (u64 i = 0; i < n; ) { u64 c = ((p.b + i) & 3) == 0 && n - i >= 4 ? 4 : 1; hbAccess(p.a, p.b + i, c, kind); i += c; } } else hbAccess(p.a, p.b, n, kind); } }
  void memSet(Val d, Val v, u64 n) {
    if (n == 0) return;
    checkAccess(d, n, true, "memset"); hbCopy(d, n, 1);
    Object& o = objW(d.a); rawErase(o, d.b, n);
    std::vector<Cell> cs;
    if (v.k == Val::Int) { u64 b = v.a & 0xff; u64 w = b * 0x0101010101010101ULL; i64 a = d.b, e = d.b + n; if (n <= 4096) { while (a < e) { u32 k = std::min<i64>(8 - (a & 7), e - a); cs.push_back({a, k, mkInt(w, k * 8)}); a += k; } } else { if (b == 0 && d.b == 0 && n == o.size) o.zero = true; else throw Incomplete{"large memset"}; } }
    size_t k = lowerCell(o.cells, d.b); o.cells.insert(o.cells.begin() + k, cs.begin(), cs.end());
  }
  void doFree(Val p, const char* what) {
    if (p.k == Val::Int && p.a == 0) return;
    if (p.k != Val::Ptr) violate("bad-free", std::string(what) + " of a non-heap value");
    const Object& o = objR(p.a);
    if (o.kind != Object::Heap) violate("bad-free", std::string(what) + " of " + describe(p.a));
    if (!o.alive) violate("double-free", std::string(what) + " of " + describe(p.a) + " already freed" + (o.freedAt ? " at " + locOf(o.freedAt) : ""));
    if (p.b != 0) violate("bad-free", std::string(what) + " of interior pointer into " + describe(p.a));
    hbFree(p.a, INT64_MIN, INT64_MAX, "free");
    Object& w = objW(p.a); w.alive = false; w.freedAt = FR().pc; w.cells.clear(); w.hb.clear(); w.rel.clear(); w.dead.clear();
  }
  std::string readCStr(Val p) {
    std::string s; if (p.k != Val::Ptr) return s;
    const Object& o = objR(p.a);
    for (i64 i = p.b; i < (i64)o.size && s.size() < 400; i++) { Val v = rawLoad(o, i, 1); if (v.k != Val::Int || v.a == 0) break; s += (char)v.a; }
    return s;
  }

  // --- scheduling
  u64 hashState() {
    u64 h = S.cur; h = mix(h, S.clock); h = mix(h, S.timeouts); h = mix(h, S.preempt); h = mix(h, S.noPreempt);
    for (auto& o : S.objs) { if (!o) continue; if (!o->alive) { h = mix(h, 77); continue; } h = mix(h, o->hash(cfgHBHash && cfgRace)); }
    for (auto& t : S.th) { h = mix(h, t.st); h = mix(h, t.notified); h = mix(h, t.waitOn.hash()); for (auto& f : t.stack) h = mix(h, f->hash()); for (auto c : t.caught) h = mix(h, c); if (cfgHBHash && S.th.size() > 1) for (auto c : t.vc) h = mix(h, c); h = mix(h, t.spin + t.spinKey); }
    for (auto& m : S.mtx) if (m.second.owner >= 0 || m.second.depth) { h = mix(mix(mix(mix(h, m.first.first), m.first.second), m.second.owner), m.second.depth); }
    for (auto& e : S.exn) { h = mix(mix(h, e.first), e.second.refs * 16 + e.second.handlers); }
    for (auto& f : S.facts) h = mix(mix(h, f.first), f.second);
    for (auto& f : S.nfacts) h = mix(mix(h, f.first), f.second);
    for (auto& g : S.ghost) h = mix(mix(h, g.first), g.second.hash());
    return h;
  }
  bool seen(u64 salt) {
    st.states++;
    if (st.states > maxStates) throw Incomplete{"state budget exceeded"};
    if (!cfgDedupe) return false;
    return !visited.insert(mix(hashState(), salt)).second;
  }
  bool runnable(int t) { return S.th[t].st == Thread::Ready; }
  // current thread cannot go on: pick others. Throws Stop when the path forks/ends.
  void schedule() {
    std::vector<int> r;
    for (int i = 0; i < (int)S.th.size(); i++) if (runnable(i)) r.push_back(i);
    bool recycled = false;
    if (r.empty()) {
      // let yielding threads run again
      bool any = false;
      for (auto& t : S.th) if (t.st == Thread::Yield) { any = true; }
      if (any) {
        S.quietSpins++;
        if (S.quietSpins > 20) for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st == Thread::BlkCV && S.th[i].timed) { S.th[i].notified = false; S.th[i].st = Thread::Ready; r.push_back(i); S.quietSpins = 0; break; }
        if (S.quietSpins > 120) {
          std::string m; for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st != Thread::Done && !S.th[i].stack.empty()) { m += std::string(m.empty() ? "" : "; ") + S.th[i].name + " at " + whereOf(i); }
          S.cur = pickStuck(); violate("stuck", "no thread can make progress (spinning): " + m);
        }
        for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st == Thread::Yield) { S.th[i].st = Thread::Ready; if (r.empty()) r.push_back(i); recycled = true; }
      }
    }
    if (r.empty()) {
      // timed waits may time out
      if (S.timeouts > 12) {
        std::string m; for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st != Thread::Done && !S.th[i].stack.empty()) m += std::string(m.empty() ? "" : "; ") + S.th[i].name + " at " + whereOf(i);
        for (auto& t : S.th) if (t.st == Thread::BlkCV && t.timed) { S.cur = pickStuck(); violate("stuck", "nothing but time-outs happens any more: " + m); }
      }
      for (int i = 0; i < (int)S.th.size(); i++) if ((S.th[i].st == Thread::BlkCV) && S.th[i].timed) { S.th[i].notified = false; S.th[i].st = Thread::Ready; r.push_back(i); }
      if (!r.empty()) S.timeouts++;
    }
    if (r.empty()) {
      for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st == Thread::BlkAll) { S.th[i].st = Thread::Ready; r.push_back(i); break; }
    }
    if (r.empty()) {
      bool all = true; for (auto& t : S.th) if (t.st != Thread::Done) all = false;
      if (all) { finish(); throw Stop{"end"}; }
      std::string m; for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st != Thread::Done && !S.th[i].stack.empty()) m += std::string(m.empty() ? "" : "; ") + S.th[i].name + " blocked at " + whereOf(i);
      S.cur = pickStuck();
      violate("stuck", "no thread can make progress: " + m);
    }
    // fork over the alternatives
    if (r.size() > 1 && !S.quietSpins) {
      st.forks++;
      for (size_t i = 1; i < r.size(); i++) { State n = S; n.cur = r[i]; n.note(std::string("switch to thread ") + n.th[r[i]].name + " #" + std::to_string(r[i])); work.push_back(std::move(n)); }
    }
    if (S.cur != r[0]) S.note(std::string("switch to thread ") + S.th[r[0]].name + " #" + std::to_string(r[0]));
    S.cur = r[0];
    if (!recycled && seen(1)) { st.pruned++; throw Stop{"seen"}; }
  }
  int pickStuck() { for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st != Thread::Done && !S.th[i].stack.empty()) return i; return 0; }
  std::string whereOf(int t) { auto& st = S.th[t].stack; for (int i = (int)st.size() - 1; i >= 0; i--) if (inRepo(st[i]->pc)) return locOf(st[i]->pc) + " (" + shortFn(st[i]->f) + ")"; return st.empty() ? "end" : locOf(st.back()->pc); }
  // preemption point before a synchronising access
  bool preemptedHere = false;
  void syncPoint() {
    st.syncs++;
    if (preemptedHere) { preemptedHere = false; return; }
    if (S.preempt <= 0 || S.noPreempt || S.th.size() < 2) return;
    std::vector<int> r;
    for (int i = 0; i < (int)S.th.size(); i++) if (i != S.cur && (runnable(i) || S.th[i].st == Thread::Yield)) r.push_back(i);
    if (r.empty()) return;
    if (seen(2)) { st.pruned++; throw Stop{"seen"}; }
    st.forks++;
    for (int i : r) {
      State n = S; n.preempt--;
      n.note("preempt " + std::string(S.th[S.cur].name) + " #" + std::to_string(S.cur) + " at " + whereOf(S.cur) + "; run " + n.th[i].name + " #" + std::to_string(i));
      if (n.th[i].st == Thread::Yield) n.th[i].st = Thread::Ready;
      n.cur = i;
      work.push_back(std::move(n));
    }
  }
  void finish() {
    st.completed++;
    if (cfgLeak) {
      for (u32 i = base.objs.size(); i < S.objs.size(); i++) { auto& o = *S.objs[i]; if (o.alive && (o.kind == Object::Heap || o.kind == Object::Exn)) { violateEnd("leak", describe(i) + " is never released"); return; } }
    }
  }
  void violateEnd(const std::string& k, const std::string& m) { violate(k, m); }

  // --- calls
  bool pushCall(const Function* f, const std::vector<Val>& args, const CallBase* cb) {
    auto fr = std::make_shared<Frame>();
    fr->f = f; fr->info = &infoOf(f); fr->slots.resize(fr->info->n);
    fr->bb = &f->getEntryBlock(); fr->pc = &*fr->bb->begin(); noteBB(fr->bb);
    unsigned i = 0;
    if (T().stack.size() > cfgDepth) violate("recursion", "unbounded recursion: the call stack grows past the analysed depth");
    std::vector<u32> owned;
    for (auto& a : f->args()) {
      Val v = i < args.size() ? args[i] : mkUndef(64);
      if (!a.hasByValAttr()) if (auto al = a.getParamAlign()) checkAlign(v, al->value(), "argument");
      if (a.hasByValAttr() && cb) {
        Type* bt = a.getParamByValType(); u64 n = DL.getTypeAllocSize(bt);
        u32 o = newObj(Object::Stack, n, cb); if (auto al = a.getParamAlign()) objW(o).align = std::max<u64>(16, al->value()); memCopy(mkPtr(o, 0), v, n); owned.push_back(o); v = mkPtr(o, 0);
      }
      fr->slots[i++] = v;
    }
    fr->stackObjs = owned;
    T().stack.push_back(fr);
    if (f->getSubprogram() && f->begin() != f->end()) noteFn(f);
    return true;
  }
  void noteSp(const DISubprogram* sp) {
    static DenseMap<const DISubprogram*, bool> repo; auto it = repo.find(sp); bool r;
    if (it == repo.end()) { StringRef fn = sp->getFilename(), d = sp->getDirectory(); r = fn.contains("/repo/") || d.startswith("/repo") || fn.contains("stdexec/__detail/") || fn.contains("include/exec/"); repo[sp] = r; } else r = it->second;
    if (r) st.repoFns.insert(sp);
  }
  void noteFn(const Function* f) { noteSp(f->getSubprogram()); }
  void noteBB(const BasicBlock* bb) {    // functions inlined into this block
    if (!st.seenBB.insert(bb).second) return;
    for (auto& i : *bb) for (const DILocation* d = i.getDebugLoc(); d; d = d->getInlinedAt()) if (auto* sp = d->getScope()->getSubprogram()) noteSp(sp);
  }
  void advance() { Frame& f = F(); f.pc = f.pc->getNextNode(); }
  void jump(const BasicBlock* to) {
    Frame& f = F(); const BasicBlock* from = f.bb;
    std::vector<std::pair<u32, Val>> ph;
    const Instruction* i = &*to->begin();
    for (; auto* p = dyn_cast<PHINode>(i); i = i->getNextNode()) ph.push_back({f.info->idx.find(p)->second, get(p->getIncomingValueForBlock(from))});
    Frame& g = F();
    for (auto& x : ph) g.slots[x.first] = x.second;
    g.prev = from; g.bb = to; g.pc = i; noteBB(to);
  }
  void popFrame() {
    Frame& f = F();
    auto objs = f.stackObjs;
    for (u32 o : objs) { if (!objR(o).alive) continue; hbFreeStack(o); Object& w = objW(o); w.alive = false; w.freedAt = nullptr; w.cells.clear(); w.hb.clear(); w.rel.clear(); w.dead.clear(); }
    u32 fr = f.freeOnReturn, dr = f.deleteOnReturn;
    T().stack.pop_back();
    if (fr) { Object& w = objW(fr); w.alive = false; w.cells.clear(); w.hb.clear(); S.exn.erase(fr); }
    (void)dr;
  }
  void hbFreeStack(u32 o) { hbFree(o, INT64_MIN, INT64_MAX, "end of scope of a local"); }
  void afterCall(Val rv, bool has) {     // the call instruction at the caller's pc finished normally
    if (T().stack.empty()) return;
    const Instruction* pc = FR().pc;
    if (has) set(pc, rv);
    if (auto* inv = dyn_cast<InvokeInst>(pc)) jump(inv->getNormalDest()); else advance();
  }
  void doReturn(Val rv, bool has) {
    
    bool entry = FR().stopUnwind; bool model = FR().rv == 99; bool mdl98 = FR().rv == 98 || FR().rv == 97 || FR().freeOnReturn;
    u32 fo = FR().freeOnReturn; (void)fo;
    popFrame();
    if (mdl98) return;
    if (entry) { threadExit(); return; }
    if (model) { afterModelCall(); return; }
    afterCall(rv, has);
  }
  void afterModelCall() { /* frame pushed by a model: resume the instruction that issued it */
    afterCall(Val(), false);
  }
  void threadExit() {
    Thread& t = T(); t.st = Thread::Done;
    for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st == Thread::BlkJoin && S.th[i].waitOn.a == (u64)S.cur) S.th[i].st = Thread::Ready;
    S.quietSpins = 0;
    int me = S.cur;
    if (mt()) for (int i = 0; i < (int)S.th.size(); i++) if (i != me && S.th[i].st == Thread::BlkAll) { }
    schedule();
  }
  int spawnThread(const Function* f, const std::vector<Val>& args, const char* name) {
    if ((int)S.th.size() >= MAXT) throw Incomplete{"too many threads"};
    int me = S.cur; int id = S.th.size();
    Thread t; t.name = name; t.vc = S.th[me].vc; t.vc[id] = 1; 
    S.th.push_back(t);
    S.th[me].vc[me]++;
    S.cur = id; pushCall(f, args, nullptr); F().stopUnwind = true; S.cur = me;
    return id;
  }

  // --- exceptions
  bool derives(const GlobalVariable* a, const GlobalVariable* b) {   // type_info a derives from b
    if (a == b || a->getName() == b->getName()) return true;
    if (!a->hasInitializer()) { // externally defined standard exceptions
      static const std::map<std::string, std::string> sup = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
      auto it = sup.find(a->getName().str()); if (it == sup.end()) return false;
      if (it->second == b->getName()) return true; if (auto* g = M.getNamedGlobal(it->second)) return derives(g, b); 
      return it->second == "_ZTISt13runtime_error" && b->getName() == "_ZTISt9exception";
    }
    auto* cs = dyn_cast<ConstantStruct>(a->getInitializer()); if (!cs) return false;
    for (unsigned i = 2; i < cs->getNumOperands(); i++) { if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (g != a && derives(g, b)) return true; }
    return false;
  }
  int typeId(const Value* ti) { static std::map<const Value*, int> ids; auto it = ids.find(ti); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[ti] = n; return n; }
  // 0 none, >0 selector, -1 cleanup only
  int matchPad(const LandingPadInst* lp, const GlobalVariable* ti) {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) { auto* c = lp->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(c)) return typeId(c); auto* g = dyn_cast<GlobalVariable>(c); if (g && ti && derives(ti, g)) return typeId(c); }
      else return typeId(lp);   // filter: treated as catching everything (exception specification)
    }
    return lp->isCleanup() ? -1 : 0;
  }
  const GlobalVariable* tiOf(u32 ex) { Val v = S.exn[ex].ti; if (v.k == Val::Ptr) return dyn_cast_or_null<GlobalVariable>(objR(v.a).what); return nullptr; }
  void raise(u32 ex) {
    const GlobalVariable* ti = tiOf(ex);
    std::string tn = ti ? demang(ti->getName().str()) : "?";
    // phase 1: is there a handler?
    bool handler = false; Thread& t = T();
    for (int i = (int)t.stack.size() - 1; i >= 0 && !handler; i--) { auto* inv = dyn_cast<InvokeInst>(t.stack[i]->pc); if (inv && inv != nullptr) { int m = matchPad(inv->getLandingPadInst(), ti); if (m > 0) handler = true; } if (!inv && i < (int)t.stack.size()) { auto* cb = dyn_cast<CallBase>(t.stack[i]->pc); if (cb && i < (int)t.stack.size() - 0 && t.stack[i]->f->doesNotThrow()) { break; } } }
    if (!handler) violate("terminate", "exception " + tn + " is not caught: std::terminate");
    while (true) {
      auto* inv = dyn_cast<InvokeInst>(FR().pc);
      if (inv) {
        int m = matchPad(inv->getLandingPadInst(), ti);
        if (m != 0) {
          const LandingPadInst* lp = inv->getLandingPadInst();
          jump(inv->getUnwindDest());
          set(lp, mkAgg({mkPtr(ex, 0), mkInt(m > 0 ? m : 0, 32)}));
          F().pc = lp->getNextNode();
          return;
        }
      }
      if (FR().stopUnwind || T().stack.size() == 1) violate("terminate", "exception " + tn + " leaves a thread");
      popFrame();
    }
  }
  bool releaseExn(u32 ex) {   // true if a destructor frame was pushed
    auto it = S.exn.find(ex); if (it == S.exn.end()) violate("exception-refcount", "release of a dead exception object");
    if (--it->second.refs > 0) return false;
    Val d = it->second.dtor;
    if (d.k == Val::Fn && ((const Function*)d.a)->size()) {
      pushCall((const Function*)d.a, {mkPtr(ex, 0)}, nullptr); F().freeOnReturn = ex; return true;
    }
    Object& w = objW(ex); w.alive = false; w.cells.clear(); w.hb.clear(); S.exn.erase(ex); return false;
  }

#include "models.inc"
#include "step.inc"
  // explore the abstract state space to a fixpoint
  void loopFrom() {
    while (!work.empty()) {
      if ((int)viols.size() >= maxViol) return;
      S = std::move(work.back()); work.pop_back(); st.paths++;
      try { while (true) step(); }
      catch (Stop&) {}
      catch (Incomplete& e) { std::string m = e.what; if (S.cur < (int)S.th.size() && !S.th[S.cur].stack.empty()) { m += " [" + whereOf(S.cur) + "]"; } if (incomplete.size() < 5 && std::find(incomplete.begin(), incomplete.end(), m) == incomplete.end()) incomplete.push_back(m);
        if (e.what.find("budget") != std::string::npos) { work.clear(); return; } }
    }
  }
  void analyse(const Function* f) {
    t0 = std::chrono::steady_clock::now();
    S = base; S.th.emplace_back(); S.th[0].vc[0] = 1; S.cur = 0;
    // dynamic initialisers of globals
    if (auto* g = M.getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& o : ca->operands()) {
        auto* fn = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts()); if (!fn || fn->isDeclaration()) continue;
        try { pushCall(fn, {}, nullptr); F().rv = 97; while (true) { if (T().stack.empty()) break; step(); } } catch (Stop&) { } catch (Incomplete& e) { incomplete.push_back("initialiser: " + e.what); return; }
        T().stack.clear();
      }
    work.clear();
    base.objs = S.objs;
    S.note("analysis of " + scenario);
    pushCall(f, {}, nullptr); F().stopUnwind = true;
    work.push_back(S);
    loopFrom();
  }
};

#include "main.inc"
