static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += c; } return o + "\""; }
static const char* neededTIs[] = {"_ZTISt9bad_alloc", "_ZTISt9exception", "_ZTISt12system_error", "_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt20bad_array_new_length", "_ZTISt8bad_cast"};
int main(int argc, char** argv) {
  std::vector<std::string> want; std::string file, json; bool list = false; u64 maxStates = 0; double maxSec = 300; int extra = 0; bool keepGoing = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--list") list = true; else if (a == "--scenario") want.push_back(argv[++i]); else if (a == "--json") json = argv[++i]; else if (a == "--max-states") maxStates = atoll(argv[++i]); else if (a == "--max-seconds") maxSec = atof(argv[++i]); else if (a == "--extra-preempt") extra = atoi(argv[++i]); else if (a == "--all") keepGoing = true; else file = a; }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("absint", errs()); return 2; }
  for (auto* n : neededTIs) if (!M->getNamedGlobal(n)) M->getOrInsertGlobal(n, Type::getInt8Ty(ctx));
  // functions the client opts into running before coroutine splitting keep their attributes; drop optnone
  for (auto& f : *M) { f.removeFnAttr(Attribute::OptimizeNone); }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "coro-early,cgscc(coro-split),coro-cleanup,function(sroa,mem2reg,simplifycfg)")) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  std::vector<const Function*> tests;
  for (auto& f : *M) if (!f.isDeclaration() && f.getName().startswith("vp_test_")) tests.push_back(&f);
  if (list) { for (auto* f : tests) outs() << f->getName() << "\n"; return 0; }
  std::string js = "{\"file\":" + jstr(file) + ",\"scenarios\":[";
  bool first = true; int bad = 0, inc = 0; size_t run = 0;
  for (auto* f : tests) {
    std::string nm = f->getName().str();
    if (!want.empty() && std::find(want.begin(), want.end(), nm) == want.end() && std::find(want.begin(), want.end(), nm.substr(8)) == want.end()) continue;
    run++;
    Engine E(*M); E.scenario = nm; E.maxSeconds = maxSec; if (maxStates) E.maxStates = maxStates; E.extraPreempt = extra; E.maxViol = keepGoing ? 10 : 1;
    E.initModels(); E.initGlobals();
    E.analyse(f);
    auto& st = E.st;
    bool v = !E.viols.empty(), ic = !E.incomplete.empty();
    bad += v; inc += ic;
    double sec = std::chrono::duration<double>(std::chrono::steady_clock::now() - E.t0).count();
    if (!first) js += ","; first = false;
    js += "{\"name\":" + jstr(nm) + ",\"seconds\":" + std::to_string(sec) + ",\"states\":" + std::to_string(st.states) + ",\"paths\":" + std::to_string(st.paths) + ",\"completed\":" + std::to_string(st.completed) + ",\"pruned\":" + std::to_string(st.pruned) + ",\"forks\":" + std::to_string(st.forks) + ",\"instructions\":" + std::to_string(st.instrs) + ",\"sync_points\":" + std::to_string(st.syncs) + ",\"accesses_checked\":" + std::to_string(st.accesses) + ",\"checks\":" + std::to_string(st.checks);
    js += ",\"check_sites\":["; bool ff = true; for (auto& c : st.checkSites) { if (!ff) js += ","; ff = false; js += jstr(c.first); } js += "]";
    js += ",\"functions\":["; ff = true; std::set<std::string> fs; for (auto* rf : st.repoFns) { auto* sp = rf; std::string fn = sp->getFilename().str(); size_t p = fn.find("/include/"); if (p != std::string::npos) fn = fn.substr(p + 1); fs.insert(fn + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str()); } for (auto& s : fs) { if (!ff) js += ","; ff = false; js += jstr(s); } js += "]";
    js += ",\"violations\":["; ff = true;
    for (auto& vi : E.viols) { if (!ff) js += ","; ff = false; js += "{\"kind\":" + jstr(vi.kind) + ",\"message\":" + jstr(vi.msg) + ",\"where\":" + jstr(vi.where) + ",\"stack\":["; bool g = true; for (auto& s : vi.stack) { if (!g) js += ","; g = false; js += jstr(s); } js += "],\"trace\":["; g = true; for (auto& s : vi.trace) { if (!g) js += ","; g = false; js += jstr(s); } js += "]}"; }
    js += "],\"incomplete\":["; ff = true; for (auto& s : E.incomplete) { if (!ff) js += ","; ff = false; js += jstr(s); } js += "]}";
    errs() << (v ? "VIOL " : ic ? "INC  " : "ok   ") << nm << "  paths=" << st.paths << " completed=" << st.completed << " states=" << st.states << " instrs=" << st.instrs << " fns=" << st.repoFns.size() << " checks=" << st.checks << " " << sec << "s\n";
    for (auto& vi : E.viols) { errs() << "  [" << vi.kind << "] " << vi.msg << "\n    at " << vi.where << "\n"; for (auto& s : vi.stack) errs() << "      in " << s << "\n"; size_t b = vi.trace.size() > 30 ? vi.trace.size() - 30 : 0; for (size_t i = b; i < vi.trace.size(); i++) errs() << "      - " << vi.trace[i] << "\n"; }
    for (auto& s : E.incomplete) errs() << "  incomplete: " << s << "\n";
  }
  js += "]}\n";
  if (!json.empty()) { FILE* o = fopen(json.c_str(), "w"); fputs(js.c_str(), o); fclose(o); }
  if (bad) return 1; if (inc) return 3; if (!run) return 4; return 0;
}
