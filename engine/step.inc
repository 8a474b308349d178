// ---- scalar semantics --------------------------------------------------
static double asD(const Val& v) { if (v.bits == 32) { float f; u32 x = v.a; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.a, 8); return d; }
static Val fromD(double d, unsigned bits) { if (bits == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return mkInt(x, 32); } u64 x; memcpy(&x, &d, 8); return mkInt(x, 64); }
static u64 pseudo(const Val& v) { if (v.k == Val::Ptr) return 0x100000000000ULL + v.a * 0x1000000ULL + (u64)v.b; if (v.k == Val::Fn) return v.a; return v.a; }
Val notV(Val v) {
  if (v.k == Val::Int) return mkInt(!v.a, 1);
  if (v.k == Val::Undef) return v;
  if (v.k == Val::Sym) { Expr& e = exprs[v.a]; if (e.op == OpNot) return norm(e.l); }
  return norm(mkExpr(OpNot, 1, 0, v, Val()));
}
bool isFlt(Type* t) { return t->isFloatingPointTy(); }
// values assembled from pieces (SROA turns copies of small structs into shifts and masks):
// whole-byte and/or/shift/zext/trunc of a composite or partly uninitialised value
bool zextOf(const Val& v) { return v.k == Val::Sym && exprs[v.a].op == OpZext && exprs[v.a].l.bits % 8 == 0 && exprs[v.a].l.bits < v.bits; }
Val zeros(unsigned bits) { return mkInt(0, bits); }
Val toCat(Val v) { if (zextOf(v)) { Val l = exprs[v.a].l; return catVals({l, zeros(v.bits - l.bits)}, v.bits / 8); } return v; }
Val fromCat(Val v) {             // {sym, 0...} is a zero extension
  if (v.k != Val::Cat) return v;
  auto t = aggTab[v.a]; if (t[0].k != Val::Sym) return v;
  for (size_t i = 1; i < t.size(); i++) if (t[i].k != Val::Int || t[i].a) return v;
  return mkZext(t[0], v.bits);
}
bool bytewise(unsigned op, Val a, Val b, unsigned w, Val& out) {
  if (w % 8 || w > 64) return false;
  unsigned n = w / 8;
  auto comp = [&](const Val& v) { return v.k == Val::Undef || v.k == Val::Cat || zextOf(v); };
  auto fix = [&](Val v) { if (v.k == Val::Undef) v.bits = w; return toCat(v); };
  if (op == Instruction::Shl || op == Instruction::LShr) {
    if (!comp(a) || b.k != Val::Int || b.a % 8 || b.a >= w) return false;
    if (b.a == 0) { out = a; return true; }
    a = fix(a); unsigned k = b.a / 8;
    std::vector<Val> p;
    if (op == Instruction::Shl) p = {zeros(k * 8), sliceVal(a, n, 0, n - k)}; else p = {sliceVal(a, n, k, n - k), zeros(k * 8)};
    out = fromCat(catVals(p, n)); return true;
  }
  if (op == Instruction::And) {
    if (a.k == Val::Int) std::swap(a, b);
    if (b.k != Val::Int || !comp(a)) return false;
    a = fix(a); std::vector<Val> p;
    for (unsigned i = 0; i < n;) {
      u64 m = (b.a >> (8 * i)) & 0xff; if (m != 0 && m != 0xff) return false;
      unsigned j = i; while (j < n && ((b.a >> (8 * j)) & 0xff) == m) j++;
      p.push_back(m ? sliceVal(a, n, i, j - i) : zeros((j - i) * 8)); i = j;
    }
    out = fromCat(catVals(p, n)); return true;
  }
  if (op == Instruction::Or) {
    if (!comp(a) && !comp(b)) return false;
    if (a.k == Val::Sym && b.k == Val::Sym && !(zextOf(a) && zextOf(b))) return false;
    a = fix(a); b = fix(b);
    auto zero = [&](Val v, unsigned i) { Val x = sliceVal(v, n, i, 1); return x.k == Val::Int && (x.a & 0xff) == 0; };
    std::vector<Val> p; std::vector<int> src(n);
    for (unsigned i = 0; i < n; i++) src[i] = zero(b, i) ? 0 : zero(a, i) ? 1 : 2;
    for (unsigned i = 0; i < n;) { if (src[i] == 2) return false; unsigned j = i; while (j < n && src[j] == src[i]) j++; p.push_back(sliceVal(src[i] ? b : a, n, i, j - i)); i = j; }
    out = fromCat(catVals(p, n)); return true;
  }
  return false;
}
Val binop(unsigned op, Val a, Val b, Type* ty) {
  unsigned w = bitsOf(ty);
  { Val r; if ((op == Instruction::Shl || op == Instruction::LShr || op == Instruction::And || op == Instruction::Or) && bytewise(op, a, b, w, r)) return r; }
  if (a.k == Val::Undef || b.k == Val::Undef) {
    if (op == Instruction::And && ((a.k == Val::Int && a.a == 0) || (b.k == Val::Int && b.a == 0))) return mkInt(0, w);
    if (op == Instruction::Or && w == 1 && ((a.k == Val::Int && a.a == 1) || (b.k == Val::Int && b.a == 1))) return mkInt(1, 1);
    return mkUndef(w);
  }
  if (a.k == Val::Cat || b.k == Val::Cat) {
    return mkExpr(OpOther, w, op, a, b);
  }
  if (isFlt(ty)) {
    if (a.k == Val::Int && b.k == Val::Int && (w == 32 || w == 64)) {
      double x = asD(a), y = asD(b), r = 0;
      switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: return mkExpr(OpOther, w, op, a, b); }
      return fromD(r, w);
    }
    return mkExpr(op, w, 0, a, b);
  }
  if (a.k == Val::Int && b.k == Val::Int) {
    u64 x = a.a, y = b.a; i64 sxa = sx(a), sxb = sx(b);
    switch (op) {
      case Instruction::Add: return mkInt(x + y, w);
      case Instruction::Sub: return mkInt(x - y, w);
      case Instruction::Mul: return mkInt(x * y, w);
      case Instruction::UDiv: if (!y) violate("division-by-zero", "unsigned division by zero"); return mkInt(x / y, w);
      case Instruction::SDiv: if (!y) violate("division-by-zero", "signed division by zero"); if (sxb == -1) return mkInt(-sxa, w); return mkInt(sxa / sxb, w);
      case Instruction::URem: if (!y) violate("division-by-zero", "unsigned remainder by zero"); return mkInt(x % y, w);
      case Instruction::SRem: if (!y) violate("division-by-zero", "signed remainder by zero"); if (sxb == -1) return mkInt(0, w); return mkInt(sxa % sxb, w);
      case Instruction::Shl: return y >= w ? mkUndef(w) : mkInt(x << y, w);
      case Instruction::LShr: return y >= w ? mkUndef(w) : mkInt(x >> y, w);
      case Instruction::AShr: return y >= w ? mkUndef(w) : mkInt((u64)(sxa >> y), w);
      case Instruction::And: return mkInt(x & y, w);
      case Instruction::Or: return mkInt(x | y, w);
      case Instruction::Xor: return mkInt(x ^ y, w);
    }
    throw Incomplete{"binop"};
  }
  bool pa = a.k == Val::Ptr, pb = b.k == Val::Ptr;
  if (pa && pb && a.a == b.a) {
    if (op == Instruction::Sub) return mkInt(a.b - b.b, w);
    if (op == Instruction::Xor && a.b == b.b) return mkInt(0, w);
  }
  if (pa && pb && cfgStackSpan && op == Instruction::Sub && objR(a.a).kind == Object::Stack && objR(b.a).kind == Object::Stack) return mkInt(cfgStackSpan, w);   // frames of one stack are this far apart
  if ((pa && b.k == Val::Int) || (pb && a.k == Val::Int)) {
    Val p = pa ? a : b; u64 n = pa ? b.a : a.a;
    switch (op) {
      case Instruction::Add: return mkPtr(p.a, p.b + (i64)n);
      case Instruction::Sub: if (pa) return mkPtr(p.a, p.b - (i64)n); break;
      // addresses modulo a page: the object starts at `base` (see addrFork)
      case Instruction::And: { u64 b0 = objR(p.a).base, x = (u64)p.b + b0; if (n < 4096) return mkInt(x & n, w); if (~n < 4096) return mkPtr(p.a, (i64)((x & n) - b0)); break; }
      case Instruction::Or: { u64 b0 = objR(p.a).base, x = (u64)p.b + b0; if (n < 4096 && (x & n) == 0) return mkPtr(p.a, (i64)((x | n) - b0)); break; }
      case Instruction::Xor: { u64 b0 = objR(p.a).base, x = (u64)p.b + b0; if (n < 4096) return mkPtr(p.a, (i64)((x ^ n) - b0)); break; }
      case Instruction::URem: { u64 x = (u64)p.b + objR(p.a).base; if (pa && n && 4096 % n == 0) return mkInt(x % n, w); break; }
      case Instruction::LShr: case Instruction::Shl: break;
    }
    if (n == 0 && (op == Instruction::LShr || op == Instruction::Shl || op == Instruction::Or || op == Instruction::Xor)) return p;
  }
  if ((pa || a.k == Val::Fn || a.k == Val::Int) && (pb || b.k == Val::Fn || b.k == Val::Int)) {
    return binop(op, mkInt(pseudo(a), 64), mkInt(pseudo(b), 64), ty);   // address arithmetic (hashing): a fixed layout
  }
  // symbolic
  if (w == 1) {
    if (op == Instruction::Xor) { if (b.k == Val::Int) return b.a ? notV(a) : a; if (a.k == Val::Int) return a.a ? notV(b) : b; if (a == b) return mkInt(0, 1); }
    if (op == Instruction::And) { if (b.k == Val::Int) return b.a ? a : b; if (a.k == Val::Int) return a.a ? b : a; if (a == b) return a; }
    if (op == Instruction::Or) { if (b.k == Val::Int) return b.a ? b : a; if (a.k == Val::Int) return a.a ? a : b; if (a == b) return a; }
  }
  if (b.k == Val::Int && b.a == 0) { if (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) return a; if (op == Instruction::And || op == Instruction::Mul) return b; }
  if (a.k == Val::Int && a.a == 0) { if (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor) return b; if (op == Instruction::And || op == Instruction::Mul) return a; }
  if (op == Instruction::Mul && b.k == Val::Int && b.a == 1) return a;
  if (op == Instruction::And && b.k == Val::Int && a.k == Val::Sym) { Expr& e = exprs[a.a]; if (e.op == OpZext && (maskOf(e.l.bits) & ~b.a) == 0) return a; if (b.a == maskOf(w)) return a; }
  if (a == b) { if (op == Instruction::Sub || op == Instruction::Xor) return mkInt(0, w); if (op == Instruction::And || op == Instruction::Or) return a; }
  // x + c1 + c2, x + c - x
  if (op == Instruction::Sub && b.k == Val::Int) return binop(Instruction::Add, a, mkInt(-b.a, w), ty);
  if (op == Instruction::Add && b.k == Val::Int && a.k == Val::Sym) { Expr e = exprs[a.a]; if (e.op == Instruction::Add && e.r.k == Val::Int) return binop(Instruction::Add, norm(e.l), mkInt(e.r.a + b.a, w), ty); }
  if (op == Instruction::Add && a.k == Val::Int) return binop(op, b, a, ty);
  bool comm = op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor;
  if (comm && a.k == Val::Sym && b.k == Val::Sym && b.a < a.a) std::swap(a, b);
  return norm(mkExpr(op, w, 0, a, b));
}
Val icmp(CmpInst::Predicate p, Val a, Val b) {
  if (a.k == Val::Agg || b.k == Val::Agg) throw Incomplete{"vector icmp"};
  if (a.k == Val::Undef || b.k == Val::Undef) return mkUndef(1);
  if (a.k == Val::Int && b.k == Val::Int) {
    u64 x = a.a, y = b.a; i64 s = sx(a), t = sx(b); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; default: throw Incomplete{"icmp"}; }
    return mkInt(r, 1);
  }
  if (a == b) { switch (p) { case CmpInst::ICMP_EQ: case CmpInst::ICMP_UGE: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: case CmpInst::ICMP_SLE: return mkInt(1, 1); default: return mkInt(0, 1); } }
  auto addr = [](const Val& v) { return v.k == Val::Ptr || v.k == Val::Fn; };
  if ((addr(a) || a.k == Val::Int) && (addr(b) || b.k == Val::Int)) {
    if (a.k == Val::Ptr && b.k == Val::Ptr && a.a == b.a) return icmp(p, mkInt(a.b, 64), mkInt(b.b, 64));
    return icmp(p, mkInt(pseudo(a), 64), mkInt(pseudo(b), 64));
  }
  switch (p) {
    case CmpInst::ICMP_NE: return notV(icmp(CmpInst::ICMP_EQ, a, b));
    case CmpInst::ICMP_UGE: return notV(icmp(CmpInst::ICMP_ULT, a, b));
    case CmpInst::ICMP_ULE: return notV(icmp(CmpInst::ICMP_ULT, b, a));
    case CmpInst::ICMP_UGT: return icmp(CmpInst::ICMP_ULT, b, a);
    case CmpInst::ICMP_SGE: return notV(icmp(CmpInst::ICMP_SLT, a, b));
    case CmpInst::ICMP_SLE: return notV(icmp(CmpInst::ICMP_SLT, b, a));
    case CmpInst::ICMP_SGT: return icmp(CmpInst::ICMP_SLT, b, a);
    default: break;
  }
  if (p == CmpInst::ICMP_EQ) {
    if (a.k != Val::Sym) std::swap(a, b);
    if (a.k == Val::Sym && b.k == Val::Int) {
      Expr e = exprs[a.a];
      if (e.op == OpZext) { if (b.a > maskOf(e.l.bits)) return mkInt(0, 1); if (e.l.bits == 1) return b.a ? norm(e.l) : notV(norm(e.l)); return icmp(p, norm(e.l), mkInt(b.a, e.l.bits)); }
      if (e.op == OpTrunc && e.l.k == Val::Sym) { }
      if (e.bits == 1 && a.bits == 1) return b.a ? a : notV(a);
      if (S.nfacts.count({(u32)a.a, b.a})) return mkInt(0, 1);
    }
    if (a.k == Val::Sym && b.k == Val::Sym && b.a < a.a) std::swap(a, b);
  }
  if (p == CmpInst::ICMP_ULT && b.k == Val::Int && b.a == 0) return mkInt(0, 1);
  if (p == CmpInst::ICMP_ULT && b.k == Val::Int && b.a == 1) return icmp(CmpInst::ICMP_EQ, a, mkInt(0, b.bits));
  return norm(mkExpr(OpICmp, 1, p, a, b));
}
static void assumeIn(State& s, Val c, bool v) {
  if (c.k != Val::Sym) return;
  s.facts[c.a] = v;
  Expr e = exprs[c.a];
  if (e.op == OpNot) { assumeIn(s, e.l, !v); return; }
  if (e.op == OpICmp && e.tag == CmpInst::ICMP_EQ && e.l.k == Val::Sym && e.r.k == Val::Int) { if (v) s.facts[e.l.a] = e.r.a; else s.nfacts.insert({(u32)e.l.a, e.r.a}); }
  if (e.op == Instruction::And && v) { assumeIn(s, e.l, true); assumeIn(s, e.r, true); }
  if (e.op == Instruction::Or && !v) { assumeIn(s, e.l, false); assumeIn(s, e.r, false); }
}
// decide a boolean; an undetermined one splits the state
bool truth(Val c) {
  c = norm(c);
  if (c.k == Val::Int) return c.a & 1;
  if (c.k == Val::Ptr || c.k == Val::Fn) return true;
  if (c.k == Val::Undef) violate("uninit", "control flow depends on an uninitialised value");
  if (c.k != Val::Sym) throw Incomplete{"branch on composite value"};
  st.forks++;
  State n = S; assumeIn(n, c, false); work.push_back(std::move(n));
  assumeIn(S, c, true);
  return true;
}
Val castV(unsigned op, Val v, Type* from, Type* to) {
  unsigned w = bitsOf(to);
  switch (op) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      if (v.k == Val::Int) return mkInt(v.a, w ? w : v.bits); if (v.k == Val::Undef) return mkUndef(w); return v;
    case Instruction::Trunc:
      if (v.k == Val::Int) return mkInt(v.a, w); if (v.k == Val::Undef) return mkUndef(w);
      if (v.k == Val::Ptr && w <= 12) return mkInt(v.b, w);
      if (v.k == Val::Ptr || v.k == Val::Fn) return mkInt(pseudo(v), w);
      if (v.k == Val::Cat) { Val r = sliceVal(v, (v.bits + 7) / 8, 0, (w + 7) / 8); if (r.k == Val::Int) return mkInt(r.a, w); if (r.k == Val::Undef) return mkUndef(w); if (r.bits > w) return norm(mkTrunc(r, w)); return r; }
      return norm(mkTrunc(v, w));
    case Instruction::ZExt: if (v.k == Val::Cat || (v.k == Val::Undef && v.bits >= 8 && v.bits % 8 == 0 && w <= 64)) { unsigned b = bitsOf(from); if (b % 8 == 0 && w % 8 == 0) { v.bits = b; return catVals({v, zeros(w - b)}, w / 8); } } if (v.k == Val::Int) return mkInt(v.a, w); if (v.k == Val::Undef) return mkUndef(w); if (v.k == Val::Ptr || v.k == Val::Fn) return v; return norm(mkExpr(OpZext, w, 0, v, Val()));
    case Instruction::SExt: if (v.k == Val::Int) return mkInt((u64)sx(v), w); if (v.k == Val::Undef) return mkUndef(w); return norm(mkExpr(OpSext, w, 0, v, Val()));
    case Instruction::SIToFP: if (v.k == Val::Int) return fromD((double)sx(v), w); break;
    case Instruction::UIToFP: if (v.k == Val::Int) return fromD((double)v.a, w); break;
    case Instruction::FPToSI: if (v.k == Val::Int) return mkInt((u64)(i64)asD(v), w); break;
    case Instruction::FPToUI: if (v.k == Val::Int) return mkInt((u64)asD(v), w); break;
    case Instruction::FPExt: case Instruction::FPTrunc: if (v.k == Val::Int && w <= 64 && v.bits <= 64) return fromD(asD(v), w); break;
  }
  if (v.k == Val::Undef) return mkUndef(w);
  return mkExpr(OpOther, w, 5000 + op, v, Val());
}
// ---- the transfer function ---------------------------------------------
u64 cint(Val v, const char* what) { v = norm(v); if (v.k == Val::Int) return v.a; if (v.k == Val::Undef) violate("uninit", std::string(what) + " is uninitialised"); throw Incomplete{std::string(what) + " is not a known constant at " + locOf(FR().pc)}; }
// a polling loop: the same load yields the same value again and again
bool spinning(const Instruction* i, Val v) {
  Thread& t = T();
  u64 h = mix((u64)i, v.hash());
  if (t.spinKey == h) { if (++t.spin >= 3) { t.spin = 0; return true; } } else { t.spinKey = h; t.spin = 0; }
  return false;
}
void yieldNow() { T().st = Thread::Yield; schedule(); }
u64 plainHash() {                       // the state without the happens-before component
  u64 h = S.cur; u32 n = 0;
  for (auto& o : S.objs) { if (++n && (!o || !o->alive)) continue; u64 k = o->h; o->h = 0; h = mix(mix(h, n), o->hash(false)); o->h = k; }
  for (auto& t : S.th) { h = mix(mix(mix(h, t.st), t.notified), t.waitOn.hash()); for (auto& f : t.stack) h = mix(h, f->hash()); }
  for (auto& g : S.ghost) h = mix(mix(h, g.first), g.second.hash());
  return mix(h, S.preempt);
}
void step() {
  if (++S.steps > 4000000) throw Incomplete{"path too long"};
  if (S.steps >= 1000000) {           // does this thread go round in a circle?
    if (S.steps == 1000000 || !S.loopPc) { S.loopPc = FR().pc; S.loopDepth = T().stack.size(); S.loopTries = 0; S.loopHash = 0; }
    if (S.steps < 1200000) { if (T().stack.size() < S.loopDepth) { S.loopPc = FR().pc; S.loopDepth = T().stack.size(); } }      // where the circle is outermost
    else if (!S.loopHash) { if (FR().pc == S.loopPc && T().stack.size() == S.loopDepth) S.loopHash = plainHash(); }
    else if (FR().pc == S.loopPc && T().stack.size() == S.loopDepth && S.loopTries < 3000) {
      S.loopTries++;
      if (plainHash() == S.loopHash) {
        bool other = false; for (int i = 0; i < (int)S.th.size(); i++) if (i != S.cur && (S.th[i].st == Thread::Ready || S.th[i].st == Thread::Yield)) other = true;
        if (other) { S.steps = 1; S.loopPc = nullptr; yieldNow(); return; }
        violate("livelock", "the thread repeats the same state for ever and nothing else can run");
      }
    }
  }
  if ((++st.instrs & 0xffff) == 0) { if (st.instrs > maxSteps) throw Incomplete{"step budget exceeded"}; double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (el > maxSeconds) throw Incomplete{"time budget exceeded"}; }
  const Instruction* I = FR().pc;
  switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I); u64 n = cint(get(ai->getArraySize()), "alloca size") * DL.getTypeAllocSize(ai->getAllocatedType());
      u32 o = newObj(Object::Stack, n, ai); objW(o).align = ai->getAlign().value(); F().stackObjs.push_back(o); set(I, mkPtr(o, 0)); advance(); return;
    }
    case Instruction::Load: {
      auto* l = cast<LoadInst>(I); Val p = get(l->getPointerOperand()); u64 n = DL.getTypeStoreSize(l->getType());
      if (l->isAtomic()) {
        syncPoint(); checkAccess(p, n, false, "atomic load", l->getAlign().value());
        hbAccess(p.a, p.b, n, 2); hbAtomicLoad(p.a, p.b, l->getOrdering());
        Val v = loadTy(p.a, p.b, l->getType());
        set(I, v); advance();
        if (S.th.size() > 1 && spinning(I, v)) yieldNow();
        return;
      }
      if (n == 0) { set(I, zeroOf(l->getType(), true)); advance(); return; }
      checkAccess(p, n, false, "read", l->getAlign().value()); hbCopy(p, n, 0);
      set(I, loadTy(p.a, p.b, l->getType())); advance(); return;
    }
    case Instruction::Store: {
      auto* s = cast<StoreInst>(I); Val p = get(s->getPointerOperand()); Type* t = s->getValueOperand()->getType(); u64 n = DL.getTypeStoreSize(t);
      if (n == 0) { advance(); return; }
      if (s->isAtomic()) {
        syncPoint(); checkAccess(p, n, true, "atomic store", s->getAlign().value()); hbAccess(p.a, p.b, n, 3); hbAtomicStore(p.a, p.b, s->getOrdering(), false);
        storeTy(p.a, p.b, t, get(s->getValueOperand())); S.quietSpins = 0; advance(); return;
      }
      checkAccess(p, n, true, "write", s->getAlign().value()); hbCopy(p, n, 1);
      storeTy(p.a, p.b, t, get(s->getValueOperand())); advance(); return;
    }
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I); Val p = get(r->getPointerOperand()); u64 n = DL.getTypeStoreSize(r->getType());
      syncPoint(); checkAccess(p, n, true, "atomic read-modify-write", r->getAlign().value());
      auto ord = rmwOrdering(r->getOrdering());
      hbAccess(p.a, p.b, n, 3); hbAtomicLoad(p.a, p.b, ord);
      Val old = loadTy(p.a, p.b, r->getType()), x = get(r->getValOperand()), nv; Type* t = r->getType();
      if (old.k == Val::Undef) violate("uninit", "atomic read-modify-write of uninitialised storage");
      switch (r->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, x, t); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, x, t); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, x, t); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, x, t); break;
        case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, x, t); break;
        default: throw Incomplete{"atomicrmw"};
      }
      storeTy(p.a, p.b, t, nv); hbAtomicStore(p.a, p.b, ord, true);
      if (nv != old) S.quietSpins = 0;
      set(I, old); advance();
      if (nv == old && S.th.size() > 1 && spinning(I, old)) yieldNow();
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* c = cast<AtomicCmpXchgInst>(I); Val p = get(c->getPointerOperand()), e = get(c->getCompareOperand()), x = get(c->getNewValOperand()); Type* t = c->getCompareOperand()->getType(); u64 n = DL.getTypeStoreSize(t);
      syncPoint(); checkAccess(p, n, true, "compare-exchange", c->getAlign().value());
      Val old = loadTy(p.a, p.b, t);
      bool eq = truth(icmp(CmpInst::ICMP_EQ, old, e));
      if (eq && c->isWeak() && cfgSpurious && S.spurious < 1) { State nst = S; nst.spurious++; nst.forceFail = true; work.push_back(std::move(nst)); st.forks++; }
      if (S.forceFail) { S.forceFail = false; eq = false; }
      hbAccess(p.a, p.b, n, eq ? 3 : 2);
      hbAtomicLoad(p.a, p.b, eq ? c->getSuccessOrdering() : c->getFailureOrdering());
      if (eq) { storeTy(p.a, p.b, t, x); hbAtomicStore(p.a, p.b, c->getSuccessOrdering(), true); if (x != old) S.quietSpins = 0; }
      set(I, mkAgg({old, mkInt(eq, 1)})); advance();
      if (!eq && S.th.size() > 1 && spinning(I, old)) yieldNow();
      return;
    }
    case Instruction::Fence: {
      auto* f = cast<FenceInst>(I);
      if (S.th.size() > 1 && f->getSyncScopeID() != SyncScope::SingleThread) {
        if (isAcq(f->getOrdering())) { join(T().vc, T().acqPending); }
        if (isRel(f->getOrdering())) { T().relFence = T().vc; T().hasRelFence = true; tick(); }
      }
      advance(); return;
    }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I); Val b = get(g->getPointerOperand()); i64 off = 0; Val symIdx; u64 symScale = 0;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        if (auto* stt = it.getStructTypeOrNull()) { off += DL.getStructLayout(stt)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
        Val iv = get(it.getOperand()); u64 sc = DL.getTypeAllocSize(it.getIndexedType());
        if (iv.k == Val::Int) off += sx(iv) * (i64)sc;
        else if (iv.k == Val::Undef) { symScale = sc; symIdx = iv; }
        else if (iv.k == Val::Ptr || iv.k == Val::Fn) { if (sc == 1 && b.k == Val::Int) { off += (i64)b.a; b = iv; } else if (sc == 1) off += (i64)pseudo(iv); else throw Incomplete{"gep by pointer"}; }
        else { symIdx = iv; symScale = sc; }
      }
      if (symScale) { if (symIdx.k == Val::Undef) { set(I, mkUndef(64)); advance(); return; } set(I, mkExpr(OpOther, 64, 9000 + (u32)off, b, symIdx)); advance(); return; }
      if (b.k == Val::Ptr) set(I, mkPtr(b.a, b.b + off));
      else if (b.k == Val::Int) set(I, mkInt(b.a + off, 64));
      else if (b.k == Val::Undef) set(I, b);
      else if (b.k == Val::Fn && off == 0) set(I, b);
      else set(I, mkExpr(OpOther, 64, 9000 + (u32)off, b, Val()));
      advance(); return;
    }
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); set(I, icmp(c->getPredicate(), get(c->getOperand(0)), get(c->getOperand(1)))); advance(); return; }
    case Instruction::FCmp: {
      auto* c = cast<FCmpInst>(I); Val a = get(c->getOperand(0)), b = get(c->getOperand(1));
      if (a.k == Val::Int && b.k == Val::Int && a.bits <= 64) {
        double x = asD(a), y = asD(b); bool un = x != x || y != y, r = false;
        switch (c->getPredicate()) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UNE: r = !(x == y); break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; default: throw Incomplete{"fcmp"}; }
        set(I, mkInt(r, 1));
      } else set(I, mkExpr(OpOther, 1, 6000 + c->getPredicate(), a, b));
      advance(); return;
    }
    case Instruction::Select: {
      auto* s = cast<SelectInst>(I); Val c = get(s->getCondition());
      if (c.k == Val::Undef) { set(I, mkUndef(bitsOf(s->getType()))); advance(); return; }
      Val a = get(s->getTrueValue()), b = get(s->getFalseValue());
      if (c.k == Val::Sym && a == b) { set(I, a); advance(); return; }
      set(I, truth(c) ? get(s->getTrueValue()) : get(s->getFalseValue())); advance(); return;
    }
    case Instruction::PHI: throw Incomplete{"phi"};
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { jump(b->getSuccessor(0)); return; }
      bool t = truth(get(b->getCondition()));
      jump(b->getSuccessor(t ? 0 : 1)); return;
    }
    case Instruction::Switch: {
      auto* s = cast<SwitchInst>(I); Val v = get(s->getCondition());
      if (v.k == Val::Undef) violate("uninit", "control flow depends on an uninitialised value");
      if (v.k == Val::Ptr) v = mkInt(pseudo(v), 64);
      if (v.k == Val::Int) { const BasicBlock* d = s->getDefaultDest(); for (auto c : s->cases()) if (c.getCaseValue()->getValue().getZExtValue() == v.a) { d = c.getCaseSuccessor(); break; } jump(d); return; }
      for (auto c : s->cases()) { Val cv = evalConst(c.getCaseValue()); if (truth(icmp(CmpInst::ICMP_EQ, v, cv))) { jump(c.getCaseSuccessor()); return; } v = get(s->getCondition()); }
      jump(s->getDefaultDest()); return;
    }
    case Instruction::Ret: { auto* r = cast<ReturnInst>(I); if (r->getReturnValue()) doReturn(get(r->getReturnValue()), true); else doReturn(Val(), false); return; }
    case Instruction::Unreachable: violate("unreachable", "control reaches a point the program declares unreachable"); return;
    case Instruction::Resume: {
      Val v = get(I->getOperand(0)); auto t = aggTab[v.a]; u32 ex = t[0].a;
      // continue unwinding from this frame's caller
      if (FR().stopUnwind || T().stack.size() == 1) violate("terminate", "exception leaves a thread");
      popFrame(); raiseFrom(ex); return;
    }
    case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(I); Val v = get(e->getAggregateOperand()); for (unsigned ix : e->indices()) { if (v.k != Val::Agg) { v = mkUndef(bitsOf(e->getType())); break; } v = aggTab[v.a][ix]; } set(I, v); advance(); return; }
    case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(I); Val v = get(e->getAggregateOperand()); if (v.k != Val::Agg) v = zeroOf(e->getType(), true); set(I, insertAt(v, e->getIndices(), 0, get(e->getInsertedValueOperand()))); advance(); return; }
    case Instruction::Freeze: set(I, get(I->getOperand(0))); advance(); return;
    case Instruction::FNeg: { Val v = get(I->getOperand(0)); set(I, v.k == Val::Int ? fromD(-asD(v), v.bits) : mkExpr(OpOther, v.bits, 5999, v, Val())); advance(); return; }
    case Instruction::ExtractElement: { Val v = get(I->getOperand(0)); u64 ix = cint(get(I->getOperand(1)), "vector index"); set(I, v.k == Val::Agg ? aggTab[v.a][ix] : mkUndef(bitsOf(I->getType()))); advance(); return; }
    case Instruction::InsertElement: { Val v = get(I->getOperand(0)); u64 ix = cint(get(I->getOperand(2)), "vector index"); if (v.k != Val::Agg) v = zeroOf(I->getType(), true); auto t = aggTab[v.a]; t[ix] = get(I->getOperand(1)); set(I, mkAgg(t)); advance(); return; }
    case Instruction::VAArg: throw Incomplete{"va_arg"};
    case Instruction::Call: case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
  }
  if (I->isBinaryOp()) {
    Val a = get(I->getOperand(0)), b = get(I->getOperand(1));
    addrFork(I->getOpcode(), a, b);
    if (I->getType()->isVectorTy()) { if (a.k != Val::Agg || b.k != Val::Agg) { throw Incomplete{"vector op"}; } auto x = aggTab[a.a], y = aggTab[b.a]; Type* et = cast<VectorType>(I->getType())->getElementType(); for (size_t i = 0; i < x.size(); i++) x[i] = binop(I->getOpcode(), x[i], y[i], et); set(I, mkAgg(x)); advance(); return; }
    set(I, binop(I->getOpcode(), a, b, I->getType())); advance(); return; }
  if (auto* ci = dyn_cast<CastInst>(I)) { Val v = get(I->getOperand(0)); set(I, castV(I->getOpcode(), v, ci->getSrcTy(), ci->getDestTy())); advance(); return; }
  throw Incomplete{std::string("instruction ") + I->getOpcodeName()};
}
Val insertAt(Val agg, ArrayRef<unsigned> ix, unsigned d, Val v) {
  auto t = aggTab[agg.a];
  if (d + 1 == ix.size()) t[ix[d]] = v; else t[ix[d]] = insertAt(t[ix[d]], ix, d + 1, v);
  return mkAgg(t);
}
void raiseFrom(u32 ex) {     // unwinding continues at the call the top frame is executing
  raise(ex);
}
void doCall(const CallBase* cb) {
  if (isa<DbgInfoIntrinsic>(cb)) { advance(); return; }
  Val fv;
  if (cb->isInlineAsm()) {
    StringRef s = cast<InlineAsm>(cb->getCalledOperand())->getAsmString();
    if (s.contains("pause") || s.contains("nop")) { advance(); if (S.th.size() > 1) yieldNow(); return; }
    if (s.empty()) { if (!cb->getType()->isVoidTy()) { if (cb->arg_size() == 1) set(cb, get(cb->getArgOperand(0))); else throw Incomplete{"inline asm"}; } if (isa<InvokeInst>(cb)) jump(cast<InvokeInst>(cb)->getNormalDest()); else advance(); return; }
    throw Incomplete{"inline asm"};
  }
  const Function* f = cb->getCalledFunction();
  if (!f) {
    fv = get(cb->getCalledOperand());
    if (fv.k == Val::Fn) f = (const Function*)fv.a;
    else if (fv.k == Val::Undef) violate("uninit", "call through an uninitialised function pointer");
    else if (fv.k == Val::Int) violate("null-call", "call through a null function pointer");
    else violate("bad-call", "call through a pointer that is not a function");
  }
  if (f->isIntrinsic()) { intrinsic(cb, f); return; }
  Model* m = modelOf(f);
  std::vector<Val> args; args.reserve(cb->arg_size());
  for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(get(cb->getArgOperand(i)));
  if (m) { m->fn(*this, cb, args); return; }
  if (f->isDeclaration()) throw Incomplete{"call to unmodelled function " + demang(f->getName().str()) + " at " + locOf(cb)};
  pushCall(f, args, cb);
}
