// xse: symbolic execution of LLVM bitcode (sequential and multi-threaded), deciding assertions with Z3.
#include <functional>
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/FileSystem.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <atomic>
#include <cmath>

ExprCtx EX;
Solver *SV;
static LLVMContext CTX;

struct Shared { std::atomic<uint32_t> next, stop; };
static Shared *SH;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ module preparation
static void writeBc(Module &M, const char *path) {
  std::error_code ec; raw_fd_ostream os(path, ec);
  if (ec) { errs() << "cannot write " << path << "\n"; exit(3); }
  WriteBitcodeToFile(M, os);
}
static std::unique_ptr<Module> readBc(const char *path) {
  SMDiagnostic err;
  auto M = parseIRFile(path, err, CTX);
  if (!M) { err.print("xse", errs()); exit(3); }
  return M;
}
static bool isPause(Instruction &I) {
  auto *C = dyn_cast<CallBase>(&I);
  return C && C->getCalledFunction() && C->getCalledFunction()->getName() == "llvm.x86.sse2.pause";
}
static int cmdPrep(int argc, char **argv) {
  auto M = readBc(argv[2]);
  internalizeModule(*M, [](const GlobalValue &G) { return G.getName().startswith("h_"); });
  ModuleAnalysisManager MAM; PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; MPM.addPass(GlobalDCEPass());
  MPM.run(*M, MAM);
  writeBc(*M, argv[3]);
  // the same module, with calls into the replay runtime before every schedule point
  FunctionCallee sp = M->getOrInsertFunction("vx_sched_point", Type::getVoidTy(CTX));
  FunctionCallee spin = M->getOrInsertFunction("vx_spin", Type::getVoidTy(CTX));
  if (Function *s = M->getFunction("syscall")) s->setName("vx_syscall");
  if (Function *s = M->getFunction("clock_gettime")) s->setName("vx_clock_gettime");
  // as in the engine: an optional symbol of libc is not there
  for (GlobalVariable &G : M->globals()) if (G.isDeclaration() && G.hasExternalWeakLinkage()) G.replaceAllUsesWith(ConstantPointerNull::get(G.getType()));
  std::vector<Instruction *> at, pz;
  for (Function &F : *M) for (BasicBlock &B : F) for (Instruction &I : B) {
    if (isPause(I)) pz.push_back(&I);
    else if (isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I)) at.push_back(&I);
    else if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) at.push_back(&I); }
    else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) at.push_back(&I); }
  }
  auto call = [&](Instruction *I, FunctionCallee f) {
    CallInst *c = CallInst::Create(f, {}, "", I);
    if (auto *sp = I->getFunction()->getSubprogram()) c->setDebugLoc(I->getDebugLoc() ? I->getDebugLoc() : DebugLoc(DILocation::get(CTX, 0, 0, sp)));
  };
  for (auto *I : at) call(I, sp);
  for (auto *I : pz) { call(I, spin); I->eraseFromParent(); }
  // calls inserted in readnone/willreturn functions would be dropped again
  for (Function &F : *M) { F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn); F.removeFnAttr(Attribute::NoSync);
    for (BasicBlock &B : F) for (Instruction &I : B) if (auto *C = dyn_cast<CallBase>(&I)) { C->removeFnAttr(Attribute::Memory); } }
  if (verifyModule(*M, &errs())) return 3;
  writeBc(*M, argv[4]);
  return 0;
}

// ------------------------------------------------------------------ exploration
static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
struct Result { // accumulated by one process
  std::vector<std::string> viol, samples;
  std::set<std::string> violKeys;
  uint64_t sampleSeen = 0;
  bool incomplete = false;
};
static Prog PR;
static Exec X;
static Result RS;
static std::string HN;
static double T0;

static bool finalQuery(State &st, Model &m) {
  std::vector<Expr *> cs = st.pc;
  uint32_t i = st.nev, nt = st.th.size();
  for (auto n = st.ev; n; n = n->up) {
    Expr *v = EX.var("sched" + std::to_string(--i), 8);
    cs.push_back(eBin(E_ULT, v, eC(nt, 8)));
    cs.push_back(eBin(E_EQ, v, eC(n->v.to, 8)));
  }
  if (cs.empty()) return true;
  return SV->check(cs, &m);
}
static std::string render(State &st, const Model &m, const Viol *v) {
  std::ostringstream o;
  o << "harness " << HN << "\n";
  for (auto &p : OPT.codes) o << "codes " << p.first << " " << p.second << "\n";
  if (v) o << "expect " << v->kind << " " << v->code << "\nmsg " << v->msg << "\n"; else o << "expect ok 0\n";
  for (auto &in : st.inputs) { auto it = m.v.find(in.var); o << "input " << in.tag << " " << in.w << " " << (uint64_t)(it == m.v.end() ? 0 : it->second) << "\n"; }
  std::vector<Event> ev; for (auto n = st.ev; n; n = n->up) ev.push_back(n->v);
  for (size_t i = ev.size(); i-- > 0;) o << "event " << ev[i].kind << " " << (int)ev[i].t << " " << ev[i].k << " " << (int)ev[i].to << "\n";
  std::vector<Note> ns; for (auto n = st.notes; n; n = n->up) ns.push_back(n->v);
  for (size_t i = ns.size(); i-- > 0;) o << "note " << ns[i].tag << " " << (ns[i].v.e ? (uint64_t)evalExpr(ns[i].v.e, m) : ns[i].v.lo) << "\n";
  for (auto c : st.covers) o << "cover " << c << "\n";
  if (v) for (uint32_t t = 0; t < st.th.size(); t++) {
    o << "# thread " << t << (t == st.cur ? " (running)" : "") << (st.th[t]->st == T_DONE ? " done" : "") << "\n";
    auto tr = X.stackTrace(st, t);
    for (size_t i = 0; i < tr.size() && i < 40; i++) o << "#   " << tr[i] << "\n";
  }
  return o.str();
}
static void onViolation(State &st, const Viol &v) {
  std::string key = v.kind + ":" + std::to_string(v.code);
  bool known = v.kind == "assert" && OPT.allow.count(v.code);
  if (RS.violKeys.count(key)) return;
  Model m;
  if (!finalQuery(st, m)) { fprintf(stderr, "ENGINE-ERROR: violation on an infeasible path\n"); exit(3); }
  RS.violKeys.insert(key);
  RS.viol.push_back(render(st, m, &v));
  if (!known) SH->stop = 1;
}
static void onPath(State &st) {
  // deterministic reservoir of passing paths, replayed natively afterwards
  RS.sampleSeen++;
  uint64_t h = (RS.sampleSeen * 0x9E3779B97F4A7C15ull + OPT.seed) ; h ^= h >> 29; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  bool take = RS.samples.size() < (size_t)OPT.samples;
  size_t slot = RS.samples.size();
  if (!take && OPT.samples) { uint64_t r = h % RS.sampleSeen; if (r < (uint64_t)OPT.samples) { take = true; slot = r; } }
  if (!take) return;
  Model m;
  if (!finalQuery(st, m)) { fprintf(stderr, "ENGINE-ERROR: completed path is infeasible\n"); exit(3); }
  std::string s = render(st, m, nullptr);
  if (slot == RS.samples.size()) RS.samples.push_back(s); else RS.samples[slot] = s;
}
static State *initState(Fn *f) {
  State *s = new State();
  for (auto c : PR.initGlob.ch) { s->glob.ch.push_back(c); c->refs++; }
  s->glob.n = PR.initGlob.n;
  s->th.push_back(new Thread());
  X.pushFrame(*s, f, {}, 1);
  return s;
}
static void blockLines(std::set<std::string> &fns, std::set<std::string> &lines) {
  for (Fn *f : PR.fns) if (f->ready) for (size_t b = 0; b < f->blks.size(); b++) if (f->blkHit[b])
    for (Instruction &I : *f->blks[b]) for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
      std::string p = L->getFilename().str(), d = L->getDirectory().str();
      std::string full = p.size() && p[0] == '/' ? p : d + "/" + p;
      size_t k = full.find("/xtra/src/");
      if (k == std::string::npos) continue;
      auto *sp = L->getScope()->getSubprogram();
      std::string fl = full.substr(k + 10);
      std::string q; if (sp) { const DIScope *sc = sp->getScope(); std::string par; while (sc && isa<DINamespace>(sc) == false && isa<DIType>(sc) == false) sc = sc->getScope(); if (sc) par = sc->getName().str(); q = (par.empty() ? "" : par + "::") + sp->getName().str(); }
      fns.insert(fl + ": " + q);
      if (L->getLine()) lines.insert(fl + ":" + std::to_string(L->getLine()));
    }
}
static void drain(double deadline) {
  while (!X.work.empty()) {
    if (SH->stop) { break; }
    if (now() > deadline) { RS.incomplete = true; break; }
    State *s = X.work.back(); X.work.pop_back();
    X.run(s);
  }
  for (auto s : X.work) (void)s;
}
static void putStrings(std::ostream &o, const char *tag, const std::vector<std::string> &v) {
  for (auto &s : v) { o << tag << " " << s.size() << "\n" << s << "\n"; }
}

struct Totals {
  Stats S; uint64_t q = 0, ch = 0, mh = 0, sat = 0, unsat = 0; double st = 0; bool incomplete = false;
  std::set<uint64_t> newKeys; std::set<uint32_t> covers; std::set<std::string> fns, lines; std::vector<std::string> viol, samples;
};
static void dumpProc(const std::string &path) {
  std::ofstream o(path);
  Stats &s = X.S;
  o << "stats " << s.paths << " " << s.infeasible << " " << s.forks << " " << s.schedForks << " " << s.steps << " " << s.maxDepth << " " << s.blocks << " " << s.dataForks << " " << s.decisions << " " << s.violations << " " << s.maxPathSteps << " " << s.maxSched << "\n";
  o << "solver " << SV->queries << " " << SV->cacheHits << " " << SV->modelHits << " " << SV->sat << " " << SV->unsat << " " << SV->time << "\n";
  o << "incomplete " << (RS.incomplete ? 1 : 0) << "\n";
  for (auto k : X.newKeys) o << "key " << k << "\n";
  for (auto c : X.covers) o << "cover " << c << "\n";
  std::set<std::string> f, l; blockLines(f, l);
  for (auto &x : f) o << "fn " << x << "\n";
  for (auto &x : l) o << "line " << x << "\n";
  putStrings(o, "viol", RS.viol);
  putStrings(o, "sample", RS.samples);
  o << "done\n";
}
static bool mergeProc(const std::string &path, Totals &T) {
  std::ifstream i(path); std::string t; bool done = false;
  while (i >> t) {
    if (t == "stats") { Stats s; i >> s.paths >> s.infeasible >> s.forks >> s.schedForks >> s.steps >> s.maxDepth >> s.blocks >> s.dataForks >> s.decisions >> s.violations >> s.maxPathSteps >> s.maxSched;
      T.S.paths += s.paths; T.S.infeasible += s.infeasible; T.S.forks += s.forks; T.S.schedForks += s.schedForks; T.S.steps += s.steps; T.S.maxDepth = std::max(T.S.maxDepth, s.maxDepth); T.S.blocks += s.blocks;
      T.S.dataForks += s.dataForks; T.S.decisions += s.decisions; T.S.violations += s.violations; T.S.maxPathSteps = std::max(T.S.maxPathSteps, s.maxPathSteps); T.S.maxSched = std::max(T.S.maxSched, s.maxSched); }
    else if (t == "solver") { uint64_t q, c, m, sa, un; double d; i >> q >> c >> m >> sa >> un >> d; T.q += q; T.ch += c; T.mh += m; T.sat += sa; T.unsat += un; T.st += d; }
    else if (t == "incomplete") { int x; i >> x; if (x) T.incomplete = true; }
    else if (t == "key") { uint64_t k; i >> k; T.newKeys.insert(k); }
    else if (t == "cover") { uint32_t k; i >> k; T.covers.insert(k); }
    else if (t == "fn" || t == "line") { std::string s; i.get(); std::getline(i, s); (t == "fn" ? T.fns : T.lines).insert(s); }
    else if (t == "viol" || t == "sample") { size_t n; i >> n; i.get(); std::string s(n, 0); i.read(&s[0], n); (t == "viol" ? T.viol : T.samples).push_back(s); }
    else if (t == "done") done = true;
  }
  return done;
}
static Totals explore(Fn *f, std::set<uint64_t> visible, double deadline, int iter) {
  X.S = Stats(); X.newKeys.clear(); X.covers.clear(); X.visible = visible; RS = Result();
  SV->queries = SV->cacheHits = SV->modelHits = SV->sat = SV->unsat = 0; SV->time = 0;
  SH->next = 0; SH->stop = 0;
  for (Fn *g : PR.fns) if (g->ready) for (auto &b : g->blkHit) b = 0;
  X.work.clear();
  X.work.push_back(initState(f));
  if (!f->blkHit.empty()) f->blkHit[0] = 1;
  double t = now();
  // breadth first until there is enough to share out
  size_t want = OPT.jobs > 1 ? OPT.jobs * 60 : 1u << 30;
  while (!X.work.empty() && X.work.size() < want && !SH->stop) {
    if (now() > deadline) { RS.incomplete = true; break; }
    if (OPT.jobs > 1 && now() - t > 4) break;
    size_t bi = 0;
    if (OPT.jobs > 1) { for (size_t i = 1; i < X.work.size(); i++) if (X.work[i]->depth < X.work[bi]->depth) bi = i; }
    else bi = X.work.size() - 1;
    State *s = X.work[bi]; X.work[bi] = X.work.back(); X.work.pop_back();
    X.run(s);
  }
  Totals T;
  std::string base = OPT.outdir + "/w" + std::to_string(iter) + "_";
  if (!X.work.empty() && !SH->stop && !RS.incomplete) {
    std::vector<State *> items; items.swap(X.work);
    std::sort(items.begin(), items.end(), [](State *a, State *b) { return a->depth < b->depth; });
    std::vector<pid_t> kids;
    fflush(stdout); fflush(stderr);
    for (int j = 0; j < OPT.jobs; j++) {
      pid_t p = fork();
      if (p == 0) {
        X.S = Stats(); RS.samples.clear(); RS.viol.clear(); RS.sampleSeen = 0; OPT.seed = OPT.seed * 31 + j;
        SV->queries = SV->cacheHits = SV->modelHits = SV->sat = SV->unsat = 0; SV->time = 0;
        for (;;) {
          uint32_t k = SH->next++;
          if (k >= items.size() || SH->stop) break;
          X.work.push_back(items[k]);
          drain(deadline);
          if (RS.incomplete) break;
        }
        dumpProc(base + std::to_string(j));
        _exit(0);
      }
      kids.push_back(p);
    }
    dumpProc(base + "p");
    bool bad = false;
    for (auto p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad) { fprintf(stderr, "ENGINE-ERROR: a worker failed\n"); exit(3); }
    for (int j = 0; j < OPT.jobs; j++) { if (!mergeProc(base + std::to_string(j), T)) { fprintf(stderr, "ENGINE-ERROR: worker result\n"); exit(3); } unlink((base + std::to_string(j)).c_str()); }
    for (auto s : items) delete s;
  } else { for (auto s : X.work) delete s; X.work.clear(); dumpProc(base + "p"); }
  mergeProc(base + "p", T);
  unlink((base + "p").c_str());
  return T;
}
static int cmdExplore(int argc, char **argv) {
  const char *bc = argv[2]; HN = argv[3];
  for (int i = 4; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--preempt") OPT.preempt = std::stoi(nx());
    else if (a == "--max-steps") OPT.maxSteps = std::stoull(nx());
    else if (a == "--jobs") OPT.jobs = std::stoi(nx());
    else if (a == "--budget") OPT.budget = std::stod(nx());
    else if (a == "--samples") OPT.samples = std::stoi(nx());
    else if (a == "--seed") OPT.seed = std::stoull(nx());
    else if (a == "--out") OPT.outdir = nx();
    else if (a == "--all-visible") OPT.allVisible = true;
    else if (a == "--codes") { uint32_t lo = std::stoul(nx()), hi = std::stoul(nx()); OPT.codes.push_back({lo, hi}); }
    else if (a == "--allow") OPT.allow.insert(std::stoul(nx()));
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  T0 = now();
  auto M = readBc(bc);
  SV = new Solver();
  PR.load(M.get());
  X.P = &PR; X.onViolation = onViolation; X.onPath = onPath;
  SH = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Function *F = M->getFunction(HN);
  if (!F || F->isDeclaration()) { fprintf(stderr, "ENGINE-ERROR: no harness %s\n", HN.c_str()); return 3; }
  double deadline = T0 + OPT.budget;
  std::set<uint64_t> vis;
  Totals T; int iter = 0; uint64_t allSteps = 0, allQ = 0; double allSt = 0;
  for (;; iter++) {
    T = explore(PR.fnOf[F], vis, deadline, iter);
    allSteps += T.S.steps; allQ += T.q; allSt += T.st;
    bool stop = false;
    for (auto &v : T.viol) { (void)v; stop = true; }
    if (T.newKeys.empty() || T.incomplete || SH->stop) { (void)stop; break; }
    vis.insert(T.newKeys.begin(), T.newKeys.end());
  }
  std::string rj = OPT.outdir + "/" + HN + ".json";
  std::ofstream o(rj);
  auto arr = [&](const std::set<std::string> &s) { std::string r = "["; bool f = true; for (auto &x : s) { if (!f) r += ","; f = false; r += "\"" + jesc(x) + "\""; } return r + "]"; };
  std::set<std::string> cov; for (auto c : T.covers) cov.insert(std::to_string(c));
  o << "{\"harness\":\"" << HN << "\",\"paths\":" << T.S.paths << ",\"infeasible\":" << T.S.infeasible << ",\"forks\":" << T.S.forks << ",\"sched_forks\":" << T.S.schedForks << ",\"data_forks\":" << T.S.dataForks
    << ",\"decisions\":" << T.S.decisions << ",\"instructions\":" << T.S.steps << ",\"instructions_all_rounds\":" << allSteps << ",\"blocks\":" << T.S.blocks << ",\"max_depth\":" << T.S.maxDepth << ",\"max_path_instructions\":" << T.S.maxPathSteps << ",\"max_sched_events\":" << T.S.maxSched
    << ",\"queries\":" << T.q << ",\"queries_all_rounds\":" << allQ << ",\"sat\":" << T.sat << ",\"unsat\":" << T.unsat << ",\"query_cache_hits\":" << T.ch << ",\"model_reuse_hits\":" << T.mh << ",\"solver_s\":" << allSt
    << ",\"rounds\":" << iter + 1 << ",\"shared_locations\":" << vis.size() << ",\"preempt\":" << OPT.preempt << ",\"complete\":" << (!T.incomplete && !SH->stop && T.newKeys.empty() ? "true" : "false") << ",\"stopped\":" << (SH->stop ? "true" : "false")
    << ",\"wall_s\":" << now() - T0 << ",\"covers\":" << arr(cov) << ",\"functions\":" << arr(T.fns) << ",\"lines\":" << arr(T.lines);
  auto files = [&](const char *tag, std::vector<std::string> &v) {
    o << ",\"" << tag << "\":[";
    std::set<std::string> keys;
    int k = 0;
    for (auto &s : v) {
      if (std::string(tag) == "violations") { size_t a = s.find("expect "), b = s.find('\n', a); std::string key = s.substr(a, b - a); if (!keys.insert(key).second) continue; }
      else if (k >= 4 * OPT.samples) break;
      std::string fn = OPT.outdir + "/" + HN + "." + tag + "." + std::to_string(k) + ".txt";
      std::ofstream(fn) << s;
      o << (k ? "," : "") << "\"" << jesc(fn) << "\""; k++;
    }
    o << "]";
  };
  files("violations", T.viol);
  files("samples", T.samples);
  o << "}\n";
  o.close();
  return 0;
}
int main(int argc, char **argv) {
  if (argc >= 5 && !strcmp(argv[1], "prep")) return cmdPrep(argc, argv);
  if (argc >= 4 && !strcmp(argv[1], "explore")) return cmdExplore(argc, argv);
  fprintf(stderr, "usage: xse prep in.bc out.bc instrumented.bc | xse explore mod.bc h_name [options]\n");
  return 3;
}
