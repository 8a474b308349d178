// ---- models of the functions the analysed code calls but does not define ----
std::unordered_map<std::string, Model> models;
DenseMap<const Function*, Model*> modelCache;
Model mWait, mNotifyOne, mNotifyAll, mNop;
Model* modelOf(const Function* f) {
  auto it = modelCache.find(f);
  if (it != modelCache.end()) return it->second;
  Model* m = nullptr;
  std::string n = f->getName().str();
  auto mi = models.find(n);
  if (mi != models.end()) m = &mi->second;
  else if (n.find("atomic") != std::string::npos && (n.find("4wait") != std::string::npos || n.find("notify_") != std::string::npos)) {
    std::string d = demang(n);
    bool cls = d.rfind("std::__atomic_base<", 0) == 0 || d.rfind("std::atomic<", 0) == 0 || d.rfind("std::atomic_flag::", 0) == 0 || d.rfind("std::__atomic_ref<", 0) == 0;
    auto ends = [&](const char* x) { size_t p = d.rfind(x); return p != std::string::npos && d.find("lambda") == std::string::npos; };
    if (cls && ends("::wait(")) m = &mWait; else if (cls && ends("::notify_one(")) m = &mNotifyOne; else if (cls && ends("::notify_all(")) m = &mNotifyAll;
  } else if (f->isDeclaration() && n.rfind("_ZNSt", 0) == 0 && (n.find("exception") != std::string::npos || n.find("error") != std::string::npos || n.find("bad_") != std::string::npos)) {
    if (n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos || n.find("D1E") != std::string::npos || n.find("D2E") != std::string::npos) m = &mNop;
  }
  return modelCache[f] = m;
}
void ret(const CallBase* cb, Val v) { afterCall(v, !cb->getType()->isVoidTy()); }
void ret(const CallBase* cb) { if (cb->getType()->isVoidTy()) afterCall(Val(), false); else afterCall(mkInt(0, bitsOf(cb->getType())), true); }
GlobalVariable* tiGlobal(const char* n) { return M.getNamedGlobal(n); }
void throwStd(const char* ti) {
  GlobalVariable* g = tiGlobal(ti); if (!g) throw Incomplete{"typeinfo"};
  u32 o = newObj(Object::Exn, 16, FR().pc); objW(o).zero = true;
  ExnInfo e; e.refs = 1; e.handlers = 0; e.ti = mkPtr(globalIds[g], 0); e.rethrown = false; S.exn[o] = e;
  S.note(std::string("throws ") + demang(ti));
  raise(o);
}
void allocModel(const CallBase* cb, u64 n, bool mayThrow, bool nothrow, u64 al = 0) {
  if (cfgThrowOOM && S.ooms == 0 && !S.noPreempt) {
    st.forks++; State n2 = S; n2.ooms = 1; n2.oomNow = 1; if (S.oomNow == 0) { n2.oomNow = 2; work.push_back(std::move(n2)); }
    S.oomNow = 0;
  } else if (S.oomNow == 2) { S.oomNow = 0; S.note("allocation fails at " + whereOf(S.cur)); if (nothrow) { ret(cb, mkInt(0, 64)); return; } throwStd("_ZTISt9bad_alloc"); return; }
  (void)mayThrow;
  u32 o = newObj(Object::Heap, n, cb); if (al) { objW(o).align = std::max<u64>(al, 1); objW(o).over = true; } ret(cb, mkPtr(o, 0));
}
void freeModel(const CallBase* cb, Val p, i64 size, const char* what, i64 al = -1) {
  if (al >= 0 && p.k == Val::Ptr && objR(p.a).alive && objR(p.a).kind == Object::Heap && (u64)al != (objR(p.a).over ? objR(p.a).align : 0))
    violate("mismatched-delete", std::string(what) + " of " + describe(p.a) + " with alignment " + std::to_string(al) + ", allocated with " + std::to_string(objR(p.a).over ? objR(p.a).align : 0));
  if (size >= 0 && p.k == Val::Ptr && objR(p.a).alive && objR(p.a).kind == Object::Heap && (i64)objR(p.a).size != size)
    violate("sized-delete", std::string(what) + " of " + describe(p.a) + " with size " + std::to_string(size) + ", allocated with " + std::to_string(objR(p.a).size));
  doFree(p, what); ret(cb);
}
MutexSt& mtxOf(Val p) { return S.mtx[{p.a, p.b}]; }
void wake(Thread::St s, Val addr, bool) { for (auto& t : S.th) if (t.st == s && t.waitOn.a == addr.a && t.waitOn.b == addr.b && t.waitOn.k == addr.k) t.st = Thread::Ready; }
bool recursiveMutex(Val p) { const Object& o = objR(p.a); if ((u64)p.b + 20 > o.size) return false; Val k = rawLoad(o, p.b + 16, 4); return k.k == Val::Int && k.a == 1; }   // __kind
bool lockMutex(Val p) {       // false: blocked, rescheduled
  checkAccess(p, 4, true, "mutex lock"); hbAccess(p.a, p.b, 4, 3);
  MutexSt& m = mtxOf(p);
  if (m.owner == S.cur) {
    if (!recursiveMutex(p)) violate("stuck", "thread locks a mutex it already holds");
    m.depth++; return true;
  }
  if (m.owner >= 0) { T().st = Thread::BlkMutex; T().waitOn = p; schedule(); return false; }
  m.owner = S.cur; m.depth = 1; join(T().vc, m.rel); return true;
}
void unlockMutex(Val p) {
  checkAccess(p, 4, true, "mutex unlock"); hbAccess(p.a, p.b, 4, 3);
  MutexSt& m = mtxOf(p);
  if (m.owner != S.cur) violate("bad-unlock", "thread unlocks a mutex it does not hold");
  if (--m.depth > 0) { S.quietSpins = 0; return; }
  m.depth = 0; m.owner = -1; m.rel = T().vc; tick(); wake(Thread::BlkMutex, p, true); S.quietSpins = 0;
}
void cvNotify(const CallBase* cb, Val cv, bool all) {
  checkAccess(cv, 4, true, "notify"); hbAccess(cv.a, cv.b, 4, 3);
  std::vector<int> w; for (int i = 0; i < (int)S.th.size(); i++) if (S.th[i].st == Thread::BlkCV && S.th[i].waitOn.a == cv.a && S.th[i].waitOn.b == cv.b) w.push_back(i);
  S.quietSpins = 0;
  if (w.empty()) { ret(cb); return; }
  if (all) { for (int i : w) { S.th[i].st = Thread::Ready; S.th[i].notified = true; } ret(cb); return; }
  ret(cb);
  for (size_t k = 1; k < w.size(); k++) { State n = S; n.th[w[k]].st = Thread::Ready; n.th[w[k]].notified = true; work.push_back(std::move(n)); st.forks++; }
  S.th[w[0]].st = Thread::Ready; S.th[w[0]].notified = true;
}
// phases: 0 release + block, 1 woken: reacquire
void cvWait(const CallBase* cb, Val cv, Val mtx, bool timed, i64 deadline) {
  if (FR().rv == 0) {
    syncPoint();
    checkAccess(cv, 4, true, "condition wait"); hbAccess(cv.a, cv.b, 4, 3);
    unlockMutex(mtx);
    F().rv = 1; Thread& t = T(); t.st = Thread::BlkCV; t.waitOn = cv; t.notified = false; t.timed = timed; schedule(); return;
  }
  if (!lockMutex(mtx)) return;
  bool to = !T().notified; F().rv = 0; T().timed = false;
  if (to && timed && deadline > 0 && (u64)deadline > S.clock) S.clock = deadline;
  ret(cb, mkInt(to && timed ? 110 : 0, 32));
}
Val vtabSlot(Val obj, int slot) {
  checkAccess(obj, 8, false, "virtual call"); Val vt = rawLoad(objR(obj.a), obj.b, 8);
  checkAccess(vt, 8, false, "vtable"); return rawLoad(objR(vt.a), vt.b + 8 * slot, 8);
}
std::map<std::pair<u64, std::string>, u32> symNames;
void forkN(const CallBase* cb, u64 n, const std::string& label) {
  st.forks += n - 1;
  State save = S; unsigned bits = cb->getType()->isVoidTy() ? 32 : bitsOf(cb->getType());
  for (u64 i = n; i-- > 1;) { S = save; S.note(label + " = " + std::to_string(i)); ret(cb, mkInt(i, bits)); work.push_back(S); }
  S = std::move(save); if (n > 1) S.note(label + " = 0"); ret(cb, mkInt(0, bits));
}
u64 eventKey(Val v) { return v.k == Val::Ptr ? mix(mix(0x5bd1e995, v.a), v.b) : v.a; }
void initModels() {
  typedef std::vector<Val> A;
#define MODEL(name) models[name] = Model{[](Engine & E, const CallBase* cb, A& a) -> void { (void)a; (void)cb;
#define END }}
  mNop = Model{[](Engine& E, const CallBase* cb, A&) { E.ret(cb); }};
  for (const char* n : {"_Znwm", "_Znam"}) MODEL(n) E.allocModel(cb, E.cint(a[0], "allocation size"), true, false); END;
  for (const char* n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) MODEL(n) E.allocModel(cb, E.cint(a[0], "allocation size"), true, false, E.cint(a[1], "alignment")); END;
  for (const char* n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) MODEL(n) E.allocModel(cb, E.cint(a[0], "allocation size"), false, true); END;
  for (const char* n : {"_ZnwmSt11align_val_tRKSt9nothrow_t"}) MODEL(n) E.allocModel(cb, E.cint(a[0], "allocation size"), false, true, E.cint(a[1], "alignment")); END;
  MODEL("malloc") E.allocModel(cb, E.cint(a[0], "allocation size"), false, true); END;
  MODEL("aligned_alloc") E.allocModel(cb, E.cint(a[1], "allocation size"), false, true); END;
  for (const char* n : {"_ZdlPv", "_ZdaPv", "_ZdlPvRKSt9nothrow_t"}) MODEL(n) E.freeModel(cb, a[0], -1, "delete", 0); END;
  for (const char* n : {"_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t"}) MODEL(n) E.freeModel(cb, a[0], -1, "delete", E.cint(a[1], "alignment")); END;
  for (const char* n : {"_ZdlPvm", "_ZdaPvm"}) MODEL(n) E.freeModel(cb, a[0], E.cint(a[1], "delete size"), "delete", 0); END;
  for (const char* n : {"_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) MODEL(n) E.freeModel(cb, a[0], E.cint(a[1], "delete size"), "delete", E.cint(a[2], "alignment")); END;
  MODEL("free") E.freeModel(cb, a[0], -1, "free"); END;
  MODEL("memcmp") u64 n = E.cint(a[2], "memcmp size"); if (n) { E.checkAccess(a[0], n, false, "memcmp"); E.checkAccess(a[1], n, false, "memcmp"); } int r = 0; for (u64 i = 0; i < n && !r; i++) { Val x = E.rawLoad(E.objR(a[0].a), a[0].b + i, 1), y = E.rawLoad(E.objR(a[1].a), a[1].b + i, 1); if (x == y && x.k != Val::Int) continue; if (x.k != Val::Int || y.k != Val::Int) throw Incomplete{"memcmp of unknown bytes"}; r = (int)x.a - (int)y.a; } E.ret(cb, mkInt((u64)(i64)r, 32)); END;
  models["bcmp"] = models["memcmp"];
  MODEL("strlen") E.ret(cb, mkInt(E.readCStr(a[0]).size(), 64)); END;
  MODEL("strcmp") E.ret(cb, mkInt((u64)(i64)E.readCStr(a[0]).compare(E.readCStr(a[1])), 32)); END;
  MODEL("memcpy") u64 n = E.cint(a[2], "memcpy size"); E.memCopy(a[0], a[1], n); E.ret(cb, a[0]); END;
  models["memmove"] = models["memcpy"];
  MODEL("memset") E.memSet(a[0], a[1], E.cint(a[2], "memset size")); E.ret(cb, a[0]); END;
  // --- exceptions
  MODEL("__cxa_allocate_exception") u32 o = E.newObj(Object::Exn, E.cint(a[0], "exception size"), cb); E.ret(cb, mkPtr(o, 0)); END;
  MODEL("__cxa_free_exception") Object& w = E.objW(a[0].a); w.alive = false; w.cells.clear(); E.ret(cb); END;
  MODEL("__cxa_init_primary_exception") ExnInfo e; e.refs = 0; e.handlers = 0; e.ti = a[1]; e.dtor = a[2]; e.rethrown = false; E.S.exn[a[0].a] = e; E.ret(cb, a[0]); END;
  MODEL("__cxa_throw") ExnInfo e; e.refs = 1; e.handlers = 0; e.ti = a[1]; e.dtor = a[2]; e.rethrown = false; u32 id = a[0].a; E.S.exn[id] = e; E.S.note("throw at " + E.whereOf(E.S.cur)); E.raise(id); END;
  MODEL("__cxa_begin_catch") u32 id = a[0].a; E.T().caught.push_back(id); auto it = E.S.exn.find(id); if (it == E.S.exn.end()) throw Incomplete{"begin_catch"}; it->second.handlers++; E.ret(cb, a[0]); END;
  MODEL("__cxa_get_exception_ptr") E.ret(cb, a[0]); END;
  MODEL("__cxa_end_catch")
    if (E.T().caught.empty()) throw Incomplete{"end_catch"};
    u32 id = E.T().caught.back(); E.T().caught.pop_back(); E.S.exn[id].handlers--; E.ret(cb); E.releaseExn(id); END;
  MODEL("__cxa_rethrow") if (E.T().caught.empty()) E.violate("terminate", "rethrow without an active exception"); u32 id = E.T().caught.back(); E.S.exn[id].refs++; E.raise(id); END;
  MODEL("_ZSt17current_exceptionv") Val v = mkInt(0, 64); if (!E.T().caught.empty()) { u32 id = E.T().caught.back(); E.S.exn[id].refs++; v = mkPtr(id, 0); } E.checkAccess(a[0], 8, true, "write"); E.hbCopy(a[0], 8, 1); E.rawStore(E.objW(a[0].a), a[0].b, 8, v); E.ret(cb); END;
  MODEL("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") E.checkAccess(a[0], 8, false, "read"); E.hbCopy(a[0], 8, 0); Val v = E.rawLoad(E.objR(a[0].a), a[0].b, 8); if (v.k != Val::Ptr) E.violate("null-exception", "rethrow of a null exception_ptr"); E.S.exn[v.a].refs++; E.raise(v.a); END;
  MODEL("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv") E.checkAccess(a[0], 8, false, "read"); E.hbCopy(a[0], 8, 0); Val v = E.rawLoad(E.objR(a[0].a), a[0].b, 8); if (v.k == Val::Ptr) { if (!E.S.exn.count(v.a)) E.violate("exception-refcount", "copy of a dangling exception_ptr"); E.S.exn[v.a].refs++; } E.ret(cb); END;
  MODEL("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv") E.checkAccess(a[0], 8, true, "write"); E.hbCopy(a[0], 8, 1); Val v = E.rawLoad(E.objR(a[0].a), a[0].b, 8); E.rawStore(E.objW(a[0].a), a[0].b, 8, mkInt(0, 64)); E.ret(cb); if (v.k == Val::Ptr) E.releaseExn(v.a); else if (v.k == Val::Undef) E.violate("uninit", "release of an uninitialised exception_ptr"); END;
  models["_ZNSt15__exception_ptr13exception_ptrD1Ev"] = Model{[](Engine& E, const CallBase* cb, A& a) { E.checkAccess(a[0], 8, true, "write"); E.hbCopy(a[0], 8, 1); Val v = E.rawLoad(E.objR(a[0].a), a[0].b, 8); E.ret(cb); if (v.k == Val::Ptr) E.releaseExn(v.a); }};
  models["_ZNSt15__exception_ptr13exception_ptrD2Ev"] = models["_ZNSt15__exception_ptr13exception_ptrD1Ev"];
  MODEL("_ZNSt15__exception_ptr13exception_ptrC1EPv") E.checkAccess(a[0], 8, true, "write"); E.hbCopy(a[0], 8, 1); E.rawStore(E.objW(a[0].a), a[0].b, 8, a[1]); if (a[1].k == Val::Ptr) E.S.exn[a[1].a].refs++; E.ret(cb); END;
  models["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = models["_ZNSt15__exception_ptr13exception_ptrC1EPv"];
  MODEL("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_") E.checkAccess(a[1], 8, false, "read"); E.hbCopy(a[1], 8, 0); E.checkAccess(a[0], 8, true, "write"); E.hbCopy(a[0], 8, 1); Val v = E.rawLoad(E.objR(a[1].a), a[1].b, 8); E.rawStore(E.objW(a[0].a), a[0].b, 8, v); if (v.k == Val::Ptr) E.S.exn[v.a].refs++; E.ret(cb); END;
  models["_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"] = models["_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"];
  MODEL("_ZNSt15__exception_ptr13exception_ptr4swapERS0_") E.checkAccess(a[0], 8, true, "write"); E.hbCopy(a[0], 8, 1); E.checkAccess(a[1], 8, true, "write"); E.hbCopy(a[1], 8, 1); Val x = E.rawLoad(E.objR(a[0].a), a[0].b, 8), y = E.rawLoad(E.objR(a[1].a), a[1].b, 8); E.rawStore(E.objW(a[0].a), a[0].b, 8, y); E.rawStore(E.objW(a[1].a), a[1].b, 8, x); E.ret(cb); END;
  MODEL("_ZSt18uncaught_exceptionsv") E.ret(cb, mkInt(0, 32)); END;
  for (const char* n : {"_ZSt9terminatev", "__clang_call_terminate"}) MODEL(n) if (E.S.termOk) { E.st.completed++; throw Stop{"terminate, which the contract prescribes here"}; } E.violate("terminate", "std::terminate is called"); END;
  MODEL("abort") E.violate("abort", "abort is called"); END;
  MODEL("__cxa_pure_virtual") E.violate("pure-virtual", "pure virtual call"); END;
  MODEL("__assert_fail") E.violate("assert", "assertion fails: " + E.readCStr(a[0])); END;
  MODEL("__cxa_bad_cast") E.throwStd("_ZTISt8bad_cast"); END;
  for (auto p : std::map<const char*, const char*>{{"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt11logic_error"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt8bad_cast"}}) {
    static std::map<std::string, std::string> tis; tis[p.first] = p.second;
    MODEL(p.first) E.throwStd(tis[cb->getCalledFunction()->getName().str()].c_str()); END;
  }
  MODEL("_ZNSt9exceptionD2Ev") E.ret(cb); END;
  models["_ZNSt9exceptionD1Ev"] = models["_ZNSt9exceptionD2Ev"];
  MODEL("_ZNSt3pmr15memory_resourceD2Ev") E.ret(cb); END;
  models["_ZNSt3pmr15memory_resourceD1Ev"] = models["_ZNSt3pmr15memory_resourceD2Ev"];
  MODEL("__dynamic_cast") E.ret(cb, E.dynCast(a[0], a[1], a[2])); END;
  // --- locks, condition variables, threads
  MODEL("vsnprintf") E.checkAccess(a[0], 2, true, "vsnprintf"); E.rawStore(E.objW(a[0].a), a[0].b, 1, mkInt('E', 8)); E.rawStore(E.objW(a[0].a), a[0].b + 1, 1, mkInt(0, 8)); E.ret(cb, mkInt(1, 32)); END;   // some text
  MODEL("strerror_r") E.checkAccess(a[1], 2, true, "strerror_r"); E.rawStore(E.objW(a[1].a), a[1].b, 1, mkInt('E', 8)); E.rawStore(E.objW(a[1].a), a[1].b + 1, 1, mkInt(0, 8)); E.ret(cb, a[1]); END;
  MODEL("pthread_mutex_lock") E.syncPoint(); if (E.lockMutex(a[0])) E.ret(cb, mkInt(0, 32)); END;
  MODEL("pthread_mutex_trylock") E.syncPoint(); E.checkAccess(a[0], 4, true, "mutex lock"); if (E.mtxOf(a[0]).owner >= 0 && !(E.mtxOf(a[0]).owner == E.S.cur && E.recursiveMutex(a[0]))) { E.ret(cb, mkInt(16, 32)); } else { E.lockMutex(a[0]); E.ret(cb, mkInt(0, 32)); } END;
  MODEL("pthread_mutex_unlock") E.unlockMutex(a[0]); E.ret(cb, mkInt(0, 32)); END;
  MODEL("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE") Val m = E.rawLoad(E.objR(a[1].a), a[1].b, 8); E.cvWait(cb, a[0], m, false, 0); END;
  MODEL("_ZNSt18condition_variable10notify_oneEv") E.syncPoint(); E.cvNotify(cb, a[0], false); END;
  MODEL("_ZNSt18condition_variable10notify_allEv") E.syncPoint(); E.cvNotify(cb, a[0], true); END;
  for (const char* n : {"_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableC2Ev"}) MODEL(n) E.checkAccess(a[0], 8, true, "write"); E.ret(cb); END;
  for (const char* n : {"_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableD2Ev"}) MODEL(n)
    for (auto& t : E.S.th) if (t.st == Thread::BlkCV && t.waitOn.a == a[0].a && t.waitOn.b == a[0].b) E.violate("destroy-busy", "condition variable destroyed while a thread waits on it");
    E.hbFree(a[0].a, a[0].b, a[0].b + 48, "destruction of a condition variable"); E.ret(cb); END;
  MODEL("pthread_cond_clockwait") Val ts = a[3]; Val sec = E.rawLoad(E.objR(ts.a), ts.b, 8), ns = E.rawLoad(E.objR(ts.a), ts.b + 8, 8); i64 d = sec.k == Val::Int && ns.k == Val::Int ? (i64)(sec.a * 1000000000ULL + ns.a) : -1; E.cvWait(cb, a[0], a[1], true, d); END;
  MODEL("pthread_cond_timedwait") Val ts = a[2]; Val sec = E.rawLoad(E.objR(ts.a), ts.b, 8), ns = E.rawLoad(E.objR(ts.a), ts.b + 8, 8); i64 d = sec.k == Val::Int && ns.k == Val::Int ? (i64)(sec.a * 1000000000ULL + ns.a) : -1; E.cvWait(cb, a[0], a[1], true, d); END;
  MODEL("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE")
    E.syncPoint();
    if (E.cfgThrowThread && E.S.ooms == 0) { if (E.S.oomNow == 0) { State n2 = E.S; n2.ooms = 1; n2.oomNow = 3; E.work.push_back(std::move(n2)); E.st.forks++; } else if (E.S.oomNow == 3) { } }
    if (E.S.oomNow == 3) { E.S.oomNow = 0; E.S.note("thread creation fails"); E.throwStd("_ZTISt12system_error"); return; }
    Val up = E.rawLoad(E.objR(a[1].a), a[1].b, 8); E.rawStore(E.objW(a[1].a), a[1].b, 8, mkInt(0, 64));
    Val del = E.vtabSlot(up, 1), run = E.vtabSlot(up, 2);
    int id = E.spawnThread((const Function*)del.a, {up}, "std::thread");
    int me = E.S.cur; E.S.cur = id; E.pushCall((const Function*)run.a, {up}, nullptr); E.F().rv = 98; E.S.cur = me;
    E.checkAccess(a[0], 8, true, "write"); E.hbCopy(a[0], 8, 1); E.rawStore(E.objW(a[0].a), a[0].b, 8, mkInt(id + 1, 64)); E.ret(cb); END;
  MODEL("_ZNSt6thread4joinEv")
    E.checkAccess(a[0], 8, false, "read"); Val idv = E.rawLoad(E.objR(a[0].a), a[0].b, 8); if (idv.k != Val::Int || idv.a == 0) E.violate("terminate", "join of a thread that is not joinable");
    int id = idv.a - 1; if (id == E.S.cur) E.violate("stuck", "a thread joins itself");
    if (E.S.th[id].st != Thread::Done) { E.T().st = Thread::BlkJoin; E.T().waitOn = mkInt(id, 64); E.schedule(); return; }
    join(E.T().vc, E.S.th[id].vc); E.rawStore(E.objW(a[0].a), a[0].b, 8, mkInt(0, 64)); E.ret(cb); END;
  MODEL("_ZNSt6thread6detachEv") E.rawStore(E.objW(a[0].a), a[0].b, 8, mkInt(0, 64)); E.ret(cb); END;
  MODEL("_ZNSt6thread20hardware_concurrencyEv") E.ret(cb, mkInt(E.cfgHw, 32)); END;
  for (const char* n : {"_ZNSt6thread6_StateD2Ev", "_ZNSt6thread6_StateD1Ev"}) MODEL(n) E.ret(cb); END;
  MODEL("pthread_self") E.ret(cb, mkInt(E.S.cur + 1, 64)); END;
  MODEL("sched_getcpu") E.ret(cb, mkInt(0, 32)); END;
  for (const char* n : {"sched_yield", "nanosleep", "usleep", "clock_nanosleep"}) MODEL(n) E.ret(cb, mkInt(0, 32)); if (E.S.th.size() > 1) E.yieldNow(); END;
  for (const char* n : {"_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"}) MODEL(n) E.ret(cb, mkInt(E.S.clock, 64)); END;
  for (const char* n : {"printf", "fprintf", "puts", "fflush", "fputs", "fwrite", "perror", "__cxa_atexit", "atexit", "__cxa_thread_atexit", "pthread_setname_np", "pthread_sigmask", "sigfillset"}) MODEL(n) E.ret(cb); END;
  // the seed of a pseudo-random choice: one fixed value (the choices it leads to are explored through interference)
  for (const char* n : {"_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13random_device7_M_finiEv"}) MODEL(n) E.ret(cb); END;
  MODEL("_ZNSt13random_device9_M_getvalEv") E.ret(cb, mkInt(1, 32)); END;
  MODEL("__cxa_guard_acquire")
    E.syncPoint(); Val b = E.rawLoad(E.objR(a[0].a), a[0].b, 1); E.hbAtomicLoad(a[0].a, a[0].b, AtomicOrdering::Acquire);
    if (b.k == Val::Int && b.a) { E.ret(cb, mkInt(0, 32)); return; }
    MutexSt& m = E.mtxOf(a[0]); if (m.owner >= 0 && m.owner != E.S.cur) { E.T().st = Thread::BlkMutex; E.T().waitOn = a[0]; E.schedule(); return; }
    m.owner = E.S.cur; E.ret(cb, mkInt(1, 32)); END;
  MODEL("__cxa_guard_release") E.rawStore(E.objW(a[0].a), a[0].b, 1, mkInt(1, 8)); E.hbAtomicStore(a[0].a, a[0].b, AtomicOrdering::Release, false); E.mtxOf(a[0]).owner = -1; E.wake(Thread::BlkMutex, a[0], true); E.ret(cb); END;
  MODEL("__cxa_guard_abort") E.mtxOf(a[0]).owner = -1; E.wake(Thread::BlkMutex, a[0], true); E.ret(cb); END;
  mWait = Model{[](Engine& E, const CallBase* cb, A& a) {
    Type* t = cb->getArgOperand(1)->getType(); u64 n = E.DL.getTypeStoreSize(t); if (n > 8) throw Incomplete{"atomic wait"};
    E.syncPoint(); E.checkAccess(a[0], n, false, "atomic wait"); E.hbAccess(a[0].a, a[0].b, n, 2);
    AtomicOrdering o = AtomicOrdering::SequentiallyConsistent; Val ov = a.size() > 2 ? a[2] : mkInt(5, 32);
    if (ov.k == Val::Int) o = ov.a == 0 ? AtomicOrdering::Monotonic : ov.a <= 2 ? AtomicOrdering::Acquire : ov.a == 5 ? AtomicOrdering::SequentiallyConsistent : AtomicOrdering::Acquire;
    E.hbAtomicLoad(a[0].a, a[0].b, o);
    Val v = E.loadTy(a[0].a, a[0].b, t);
    if (E.truth(E.icmp(CmpInst::ICMP_NE, v, a[1]))) { E.ret(cb); return; }
    E.T().st = Thread::BlkAddr; E.T().waitOn = a[0]; E.schedule(); }};
  mNotifyAll = Model{[](Engine& E, const CallBase* cb, A& a) { E.syncPoint(); E.wake(Thread::BlkAddr, a[0], true); E.S.quietSpins = 0; E.ret(cb); }};
  mNotifyOne = Model{[](Engine& E, const CallBase* cb, A& a) {
    E.syncPoint(); std::vector<int> w; for (int i = 0; i < (int)E.S.th.size(); i++) if (E.S.th[i].st == Thread::BlkAddr && E.S.th[i].waitOn == a[0]) w.push_back(i);
    E.S.quietSpins = 0; E.ret(cb); if (w.empty()) return;
    for (size_t k = 1; k < w.size(); k++) { State n = E.S; n.th[w[k]].st = Thread::Ready; E.work.push_back(std::move(n)); E.st.forks++; }
    E.S.th[w[0]].st = Thread::Ready; }};
  // --- the client interface (harness/vp.hpp)
  MODEL("vp_choose") E.forkN(cb, E.cint(a[0], "vp_choose"), E.readCStr(a[1])); END;
  MODEL("vp_sym") std::string l = E.readCStr(a[0]); u32 n = E.S.symCount++; Val v = mkExpr(OpLeaf, 64, (u32)(mix(std::hash<std::string>()(l), n)), mkInt(n, 32), Val()); E.ret(cb, v); END;
  MODEL("vp_check") E.st.checks++; E.st.checkSites[E.readCStr(a[1]) + " @ " + locOf(cb)]++; Val c = E.norm(a[0]);
    if (c.k == Val::Undef) E.violate("check", "depends on an uninitialised value: " + E.readCStr(a[1]));
    if (c.k == Val::Int) { if (!(c.a & 1)) E.violate("check", E.readCStr(a[1])); }
    else if (c.k == Val::Sym) { State n = E.S; E.assumeIn(E.S, c, false); E.S.note("the checked condition is not implied"); (void)n; E.violate("check", E.readCStr(a[1])); }
    E.ret(cb); END;
  MODEL("vp_note") E.S.note(E.readCStr(a[0])); E.ret(cb); END;
  MODEL("vp_stop") throw Stop{"pruned by the client"}; END;
  MODEL("vp_spawn") E.syncPoint(); std::string nm = E.readCStr(a[2]); static std::set<std::string> names; int id = E.spawnThread((const Function*)a[0].a, {a[1]}, names.insert(nm).first->c_str()); E.ret(cb, mkInt(id, 32)); END;
  MODEL("vp_join") int id = E.cint(a[0], "vp_join"); if (E.S.th[id].st != Thread::Done) { E.T().st = Thread::BlkJoin; E.T().waitOn = mkInt(id, 64); E.schedule(); return; } join(E.T().vc, E.S.th[id].vc); E.ret(cb); END;
  MODEL("vp_join_all") for (int i = 0; i < (int)E.S.th.size(); i++) if (i != E.S.cur && E.S.th[i].st != Thread::Done) { E.T().st = Thread::BlkJoin; E.T().waitOn = mkInt(i, 64); E.schedule(); return; } for (int i = 0; i < (int)E.S.th.size(); i++) if (i != E.S.cur) join(E.T().vc, E.S.th[i].vc); E.ret(cb); END;
  MODEL("vp_thread_id") E.ret(cb, mkInt(E.S.cur, 32)); END;
  MODEL("vp_kill") u64 n = E.cint(a[1], "vp_kill"); if (n) { E.checkAccess(a[0], n, true, "destruction"); E.hbFree(a[0].a, a[0].b, a[0].b + n, "destruction"); Object& o = E.objW(a[0].a); E.rawErase(o, a[0].b, n); for (auto it = o.hb.begin(); it != o.hb.end();) if (it->first >= a[0].b && it->first < a[0].b + (i64)n) it = o.hb.erase(it); else ++it; o.dead.push_back({a[0].b, a[0].b + (i64)n, cb}); } E.ret(cb); END;
  MODEL("vp_obj_begin") if (a[0].k == Val::Ptr) { Object& o = E.objW(a[0].a); for (auto& b : o.born) if (b.first == a[0].b) E.violate("never-destroyed", E.readCStr(mkPtr(b.second, 0)) + " is never destroyed: another object is constructed in its place"); o.born.insert(std::upper_bound(o.born.begin(), o.born.end(), std::make_pair(a[0].b, (u64)a[1].a)), {a[0].b, (u64)a[1].a}); } E.ret(cb); END;
  MODEL("vp_obj_end") if (a[0].k == Val::Ptr) { Object& o = E.objW(a[0].a); for (size_t i = 0; i < o.born.size(); i++) if (o.born[i].first == a[0].b) { o.born.erase(o.born.begin() + i); break; } } E.ret(cb); END;
  MODEL("vp_expire") u64 n = E.cint(a[1], "vp_expire"); if (n && a[0].k == Val::Ptr) { Object& o = E.objW(a[0].a); o.dead.push_back({a[0].b, a[0].b + (i64)n, cb}); } E.ret(cb); END;   // the contents stay, access is an error until vp_live
  MODEL("vp_live") u64 n = E.cint(a[1], "vp_live"); Object& o = E.objW(a[0].a); std::vector<Range> k; for (auto& d : o.dead) if (!(d.lo >= a[0].b && d.hi <= a[0].b + (i64)n)) k.push_back(d); o.dead = k; E.ret(cb); END;
  MODEL("vp_alive") const Object* o = a[0].k == Val::Ptr ? &E.objR(a[0].a) : nullptr; bool ok = o && o->alive && o->scoped; if (ok) for (auto& d : o->dead) if (a[0].b >= d.lo && a[0].b < d.hi) ok = false; E.ret(cb, mkInt(ok, 32)); END;
  MODEL("vp_get") auto it = E.S.ghost.find(E.eventKey(a[0])); E.ret(cb, it == E.S.ghost.end() ? mkInt(0, 64) : it->second); END;
  MODEL("vp_set") E.S.ghost[E.eventKey(a[0])] = a[1]; E.ret(cb); END;
  MODEL("vp_add") Val& g = E.S.ghost[E.eventKey(a[0])]; u64 o = g.k == Val::Int ? g.a : 0; g = mkInt(o + E.cint(a[1], "vp_add"), 64); E.ret(cb, g); END;
  MODEL("vp_event_set") u64 k = E.eventKey(a[0]); E.syncPoint(); MutexSt& m = E.S.mtx[{~0ULL, (i64)k}]; m.depth = 1; join(m.rel, E.T().vc); E.tick(); E.wake(Thread::BlkAddr, mkInt(k, 64), true); E.S.quietSpins = 0; E.ret(cb); END;
  MODEL("vp_event_wait") u64 k = E.eventKey(a[0]); MutexSt& m = E.S.mtx[{~0ULL, (i64)k}]; if (!m.depth) { E.T().st = Thread::BlkAddr; E.T().waitOn = mkInt(k, 64); E.schedule(); return; } join(E.T().vc, m.rel); E.ret(cb); END;
  MODEL("vp_event_test") u64 k = E.eventKey(a[0]); MutexSt& m = E.S.mtx[{~0ULL, (i64)k}]; E.ret(cb, mkInt(m.depth, 32)); END;
  MODEL("vp_idle") E.ret(cb); E.T().st = Thread::BlkAll; E.schedule(); END;   // resume when no other thread can run
  MODEL("vp_yield") E.ret(cb); if (E.S.th.size() > 1) E.yieldNow(); END;
  MODEL("vp_atomic_begin") E.S.noPreempt++; E.ret(cb); END;
  MODEL("vp_atomic_end") E.S.noPreempt--; E.ret(cb); END;
  MODEL("vp_clock") E.ret(cb, mkInt(E.S.clock, 64)); END;
  MODEL("vp_clock_advance") E.S.clock += E.cint(a[0], "clock"); E.ret(cb); END;
  MODEL("vp_heap") u64 n = 0; for (u32 i = E.base.objs.size(); i < E.S.objs.size(); i++) if (E.S.objs[i]->alive && E.S.objs[i]->kind == Object::Heap) n++; E.ret(cb, mkInt(n, 64)); END;
  MODEL("vp_config") std::string k = E.readCStr(a[0]); u64 v = E.cint(a[1], "vp_config");
    if (k == "preempt") { E.S.preempt = v + E.extraPreempt; } else if (k == "leak") E.cfgLeak = v; else if (k == "born") E.cfgBorn = v; else if (k == "race") E.cfgRace = v; else if (k == "oom") E.cfgThrowOOM = v; else if (k == "threadfail") E.cfgThrowThread = v; else if (k == "spurious") E.cfgSpurious = v; else if (k == "hw") E.cfgHw = v; else if (k == "stackspan") E.cfgStackSpan = v; else if (k == "hbhash") E.cfgHBHash = v; else if (k == "depth") E.cfgDepth = v; else if (k == "terminate-ok") E.S.termOk = v; else throw Incomplete{"vp_config " + k};
    E.ret(cb); END;
}
Val dynCast(Val p, Val, Val dst) {
  if (p.k != Val::Ptr) return mkInt(0, 64);
  checkAccess(p, 8, false, "dynamic_cast");
  Val vt = rawLoad(objR(p.a), p.b, 8);
  if (vt.k != Val::Ptr || vt.b < 16 || !isa_and_nonnull<GlobalVariable>(objR(vt.a).what)) { violate("bad-vptr", "dynamic_cast of something that is not an object"); return mkInt(0, 64); }
  Val top = rawLoad(objR(vt.a), vt.b - 16, 8), ti = rawLoad(objR(vt.a), vt.b - 8, 8);
  if (ti.k != Val::Ptr || dst.k != Val::Ptr) { violate("bad-vptr", "dynamic_cast of something that is not an object"); return mkInt(0, 64); }
  auto* g = dyn_cast_or_null<GlobalVariable>(objR(ti.a).what); auto* d = dyn_cast_or_null<GlobalVariable>(objR(dst.a).what);
  Val whole = mkPtr(p.a, p.b + sx(top));
  if (g == d) return whole;
  if (g && d && derives(g, d)) return whole;        // single inheritance at offset 0
  return mkInt(0, 64);
}
void intrinsic(const CallBase* cb, const Function* f) {
  auto arg = [&](unsigned i) { return get(cb->getArgOperand(i)); };
  unsigned w = bitsOf(cb->getType());
  switch (f->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = cint(arg(2), "memcpy size"); memCopy(arg(0), arg(1), n); break; }
    case Intrinsic::memset: { u64 n = cint(arg(2), "memset size"); memSet(arg(0), arg(1), n); break; }
    case Intrinsic::lifetime_start: { Val p = arg(1); if (p.k == Val::Ptr) { if (!objR(p.a).scoped || !objR(p.a).cells.empty()) { Object& o = objW(p.a); o.scoped = true; o.cells.clear(); o.dead.clear(); o.hb.clear(); } } break; }
    case Intrinsic::lifetime_end: { Val p = arg(1); if (p.k == Val::Ptr && objR(p.a).alive) { hbFreeStack(p.a); Object& o = objW(p.a); o.scoped = false; o.cells.clear(); o.dead.clear(); o.hb.clear(); } break; }
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::vastart: case Intrinsic::vaend: break;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: case Intrinsic::annotation: afterCall(arg(0), true); return;
    case Intrinsic::trap: violate("trap", "trap is reached"); return;
    case Intrinsic::eh_typeid_for: afterCall(mkInt(typeId(cb->getArgOperand(0)->stripPointerCasts()), 32), true); return;
    case Intrinsic::threadlocal_address: { auto* g = cast<GlobalVariable>(cb->getArgOperand(0)); afterCall(tlsAddr(g), true); return; }
    case Intrinsic::objectsize: afterCall(mkInt(~0ULL, w), true); return;
    case Intrinsic::is_constant: afterCall(mkInt(0, 1), true); return;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: afterCall(mkInt(0, 64), true); return;
    case Intrinsic::ctpop: { Val v = arg(0); afterCall(v.k == Val::Int ? mkInt(__builtin_popcountll(v.a), w) : mkExpr(OpOther, w, 1, v, Val()), true); return; }
    case Intrinsic::ctlz: { Val v = arg(0); if (v.k != Val::Int) { afterCall(mkExpr(OpOther, w, 2, v, Val()), true); return; } afterCall(mkInt(v.a ? __builtin_clzll(v.a) - (64 - w) : w, w), true); return; }
    case Intrinsic::cttz: { Val v = arg(0); if (v.k != Val::Int) { afterCall(mkExpr(OpOther, w, 3, v, Val()), true); return; } afterCall(mkInt(v.a ? __builtin_ctzll(v.a) : w, w), true); return; }
    case Intrinsic::umin: { Val a = arg(0), b = arg(1); afterCall(truth(icmp(CmpInst::ICMP_ULT, a, b)) ? arg(0) : arg(1), true); return; }
    case Intrinsic::umax: { Val a = arg(0), b = arg(1); afterCall(truth(icmp(CmpInst::ICMP_ULT, a, b)) ? arg(1) : arg(0), true); return; }
    case Intrinsic::smin: { Val a = arg(0), b = arg(1); afterCall(truth(icmp(CmpInst::ICMP_SLT, a, b)) ? arg(0) : arg(1), true); return; }
    case Intrinsic::smax: { Val a = arg(0), b = arg(1); afterCall(truth(icmp(CmpInst::ICMP_SLT, a, b)) ? arg(1) : arg(0), true); return; }
    case Intrinsic::abs: { Val a = arg(0); if (a.k == Val::Int) a = mkInt(sx(a) < 0 ? -sx(a) : sx(a), w); afterCall(a, true); return; }
    case Intrinsic::fshl: { Val a = arg(0), b = arg(1), c = arg(2); if (a.k == Val::Int && b.k == Val::Int && c.k == Val::Int && w == 64) { unsigned s = c.a & 63; afterCall(mkInt(s ? (a.a << s) | (b.a >> (64 - s)) : a.a, 64), true); return; } afterCall(mkExpr(OpOther, w, 4, a, b), true); return; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Val a = arg(0), b = arg(1); unsigned vw = a.bits;
      if (a.k != Val::Int || b.k != Val::Int) { afterCall(mkAgg({mkExpr(OpOther, vw, 100 + f->getIntrinsicID(), a, b), mkExpr(OpOther, 1, 101 + f->getIntrinsicID(), a, b)}), true); return; }
      __int128 r; bool sg = f->getIntrinsicID() == Intrinsic::sadd_with_overflow || f->getIntrinsicID() == Intrinsic::ssub_with_overflow || f->getIntrinsicID() == Intrinsic::smul_with_overflow;
      __int128 x = sg ? (__int128)sx(a) : (__int128)a.a, y = sg ? (__int128)sx(b) : (__int128)b.a;
      switch (f->getIntrinsicID()) { case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: r = x * y; break; case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: r = x + y; break; default: r = x - y; }
      bool ov = sg ? (r != (__int128)sx(mkInt((u64)r, vw))) : (r != (__int128)mkInt((u64)r, vw).a || r < 0);
      afterCall(mkAgg({mkInt((u64)r, vw), mkInt(ov, 1)}), true); return; }
    case Intrinsic::usub_sat: { Val a = arg(0), b = arg(1); if (a.k == Val::Int && b.k == Val::Int) { afterCall(mkInt(a.a > b.a ? a.a - b.a : 0, w), true); return; } afterCall(mkExpr(OpOther, w, 5, a, b), true); return; }
    case Intrinsic::bswap: case Intrinsic::bitreverse: afterCall(mkExpr(OpOther, w, 6, arg(0), Val()), true); return;
    default:
      if (f->getName().contains("pause")) { advance(); if (S.th.size() > 1) yieldNow(); return; }
      throw Incomplete{"intrinsic " + f->getName().str() + " at " + locOf(cb)};
  }
  afterCall(Val(), false);
}
