// The symbolic interpreter and the thread scheduler.
#pragma once
#include "prep.h"

struct Viol { std::string kind, msg; uint32_t code; };
struct PathEnd { bool infeasible; };

struct Options {
  int preempt = 2; uint64_t maxSteps = 60000000; int jobs = 8; double budget = 600; int samples = 4; uint64_t seed = 1;
  std::string outdir = "."; bool allVisible = false; bool dbg = false; std::set<uint32_t> allow;
  std::vector<std::pair<uint32_t, uint32_t>> codes; // assertions this run decides (all if empty)
  bool decides(uint32_t c) const { if (codes.empty()) return true; for (auto &p : codes) if (c >= p.first && c <= p.second) return true; return false; }
};
static Options OPT;

struct Stats {
  uint64_t paths = 0, infeasible = 0, forks = 0, schedForks = 0, steps = 0, maxDepth = 0, blocks = 0, dataForks = 0, decisions = 0, violations = 0, maxPathSteps = 0, maxSched = 0;
};

struct Exec {
  Prog *P;
  std::vector<State *> work; // DFS stack
  Stats S;
  std::set<uint64_t> visible, newKeys; // schedule points: learned shared locations
  std::set<uint32_t> covers;
  // hooks
  std::function<void(State &, const Viol &)> onViolation;
  std::function<void(State &)> onPath;

  // ---------------------------------------------------------- solver helpers
  State *cloneState(State &st) {
    State *n = new State(st);
    n->depth++;
    auto &fr = n->th[n->cur]->fr;
    if (!fr.empty() && fr.back()->refs > 1) { Frame *g = new Frame(*fr.back()); fr.back()->refs--; fr.back() = g; }
    return n;
  }
  bool may(State &st, Expr *c) { return SV->mayBeTrue(st.pc, c); }
  void addPc(State &st, Expr *c) { if (isC(c)) return; for (auto e : st.pc) if (e == c) return; st.pc.push_back(c); }
  State *forkWith(State &st, Expr *c) {
    State *n = cloneState(st);
    addPc(*n, c);
    S.forks++; S.dataForks++;
    work.push_back(n);
    return n;
  }
  uint64_t concretize(State &st, Val &v, unsigned w) {
    if (!v.e) return v.lo;
    Expr *e = v.e;
    std::vector<Expr *> cs; Solver::slice(st.pc, e, cs);
    // try a recent model first, then the solver
    Model m; bool have = false;
    for (size_t i = SV->recent.size(); i-- > 0 && !have;) {
      bool ok = true;
      for (auto c : cs) if (evalExpr(c, SV->recent[i]) != 1) { ok = false; break; }
      if (ok) { m = SV->recent[i]; have = true; SV->modelHits++; }
    }
    if (!have) {
      if (cs.empty()) { } // unconstrained: any value
      else if (!SV->check(cs, &m)) { fprintf(stderr, "ENGINE-ERROR: infeasible path condition\n"); exit(3); }
    }
    u128 x = evalExpr(e, m);
    Expr *eq = eBin(E_EQ, e, eC(x, e->w)), *ne = eNot1(eq);
    if (may(st, ne)) { S.decisions++; forkWith(st, ne); }
    addPc(st, eq);
    v = cv(x);
    return v.lo;
  }

  // ---------------------------------------------------------- memory
  static uint64_t mkaddr(uint32_t t, bool stack, uint32_t idx) { return ((uint64_t)(t + 1) << 52) | ((uint64_t)(stack ? 1 : 0) << 51) | ((uint64_t)idx << 24); }
  struct Loc { Table *tab; uint32_t idx; uint64_t off; Obj *o; };
  [[noreturn]] void viol(const char *kind, const std::string &msg, uint32_t code = 0) { throw Viol{kind, msg, code}; }
  Loc resolve(State &st, uint64_t a, uint64_t size, bool write) {
    Loc L;
    if (a >> 52) {
      uint32_t t = (a >> 52) - 1;
      if (t >= st.th.size()) viol("memory", "wild pointer");
      L.tab = (a >> 51) & 1 ? &st.th[t]->stack : &st.th[t]->heap;
      L.idx = (a >> 24) & 0x7ffffff; L.off = a & 0xffffff;
      L.o = L.tab->get(L.idx);
      if (!L.o) {
        char b[80]; snprintf(b, sizeof b, "use of freed or unallocated memory");
        viol("memory", b);
      }
    } else {
      if (a < GBASE || (a - GBASE) / 16 >= P->gmap.size()) { char b[80]; snprintf(b, sizeof b, "invalid pointer 0x%llx", (unsigned long long)a); viol("memory", b); }
      int32_t g = P->gmap[(a - GBASE) / 16];
      if (g < 0) viol("memory", "pointer outside any object");
      L.tab = &st.glob; L.idx = g; L.off = a - P->globals[g].addr; L.o = st.glob.get(g);
      if (write && L.o->ro) viol("memory", "write to read-only memory");
    }
    if (L.off + size > L.o->size) viol("memory", "out-of-bounds access");
    return L;
  }
  Val readW(Obj *o, uint64_t off, unsigned w) {
    unsigned nb = (w + 7) / 8;
    if (o->sym) {
      bool any = false;
      for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { any = true; break; }
      if (any) {
        Expr *e = nullptr;
        for (unsigned i = 0; i < nb; i++) {
          Expr *b = o->sym[off + i] ? o->sym[off + i] : eC(o->data[off + i], 8);
          e = e ? eConcat(b, e) : b;
        }
        if (nb * 8 != w) e = eExtract(e, 0, w);
        return fromE(e);
      }
    }
    Val r;
    if (nb <= 8) memcpy(&r.lo, o->data + off, nb);
    else { memcpy(&r.lo, o->data + off, 8); memcpy(&r.hi, o->data + off + 8, nb - 8); }
    if (nb * 8 != w) { u128 x = vc(r) & maskw(w); r = cv(x); }
    return r;
  }
  void writeW(Obj *o, uint64_t off, unsigned w, const Val &v) {
    unsigned nb = (w + 7) / 8;
    if (v.e) {
      Expr *e = nb * 8 != w ? eZext(v.e, nb * 8) : v.e;
      for (unsigned i = 0; i < nb; i++) {
        Expr *b = eExtract(e, i * 8, 8);
        if (isC(b)) { o->data[off + i] = (uint8_t)b->c; if (o->sym) o->setSym(off + i, nullptr); }
        else { o->data[off + i] = 0; o->setSym(off + i, b); }
      }
      return;
    }
    if (nb <= 8) memcpy(o->data + off, &v.lo, nb);
    else { memcpy(o->data + off, &v.lo, 8); memcpy(o->data + off + 8, &v.hi, nb - 8); }
    if (o->sym) for (unsigned i = 0; i < nb && o->sym; i++) o->setSym(off + i, nullptr);
  }
  uint64_t allocHeap(State &st, uint32_t t, uint64_t size, uint64_t site, uint8_t fill) {
    if (size >= (1u << 24)) { fprintf(stderr, "ENGINE-ERROR: allocation of %llu bytes\n", (unsigned long long)size); exit(3); }
    Obj *o = new Obj(size, fill);
    o->site = site;
    uint32_t i = st.th[t]->heap.add(o);
    return mkaddr(t, false, i);
  }
  uint64_t siteHash(State &st, uint32_t pc, Frame *f) {
    return (f->ctx ^ (uint64_t)f->fn->id * 0x9E3779B97F4A7C15ull ^ (uint64_t)pc * 0xff51afd7ed558ccdull) * 0xc4ceb9fe1a85ec53ull + st.cur;
  }
  uint64_t rdConc(State &st, uint64_t a, unsigned w) { Loc L = resolve(st, a, w / 8, false); Val v = readW(L.o, L.off, w); return concretize(st, v, w); }

  // ---------------------------------------------------------- scheduler
  bool runnable(State &st, uint32_t t) {
    Thread *T = st.th[t];
    if (T->st == T_RUN) return true;
    if (T->st == T_WAIT) { Loc L = resolve(st, T->waitAddr, 4, false); Val v = readW(L.o, L.off, 32); return v.e || v.lo != 0; }
    return false;
  }
  bool quiet(State &st) { // every thread but main finished or waiting for a flag
    for (uint32_t t = 1; t < st.th.size(); t++) {
      if (st.th[t]->st == T_DONE) continue;
      if (st.th[t]->st == T_WAIT && !runnable(st, t)) continue;
      return false;
    }
    return true;
  }
  void pushEv(State &st, char kind, uint32_t t, uint32_t to) {
    auto n = std::make_shared<PNode<Event>>();
    n->v = {kind, (uint8_t)t, st.th[t]->points, (uint8_t)to}; n->up = st.ev; st.ev = n; st.nev++;
  }
  // Current thread cannot (or must not) continue: choose another.
  void switchAway(State &st, char kind) {
    uint32_t cur = st.cur;
    std::vector<uint32_t> cand;
    auto gather = [&](bool skipYielded) {
      cand.clear();
      for (uint32_t t = 0; t < st.th.size(); t++) {
        if (kind == 'y' && t == cur) continue;
        if (!runnable(st, t)) continue;
        if (skipYielded && st.th[t]->yielded) continue;
        cand.push_back(t);
      }
    };
    gather(true);
    if (cand.empty()) {
      for (auto T : st.th) T->yielded = false;
      if (kind == 'y') st.th[cur]->yielded = true;
      gather(true);
      if (cand.empty()) { if (kind == 'y') st.th[cur]->yielded = false; gather(false); }
    }
    if (cand.empty() && st.th[0]->st == T_QUIESCE && quiet(st)) {
      st.th[0]->st = T_RUN; st.epoch++;
      cand.push_back(0);
    }
    if (cand.empty()) {
      if (kind == 'y') { // alone and spinning
        if (st.yieldsSince > 2000) viol("deadlock", "a thread spins forever on a lock nobody releases");
        return;
      }
      std::string m = "no thread can make progress:";
      for (uint32_t t = 0; t < st.th.size(); t++) m += " t" + std::to_string(t) + "=" + (st.th[t]->st == T_DONE ? "done" : st.th[t]->st == T_FUTEX ? "blocked-on-lock" : st.th[t]->st == T_WAIT ? "waiting" : st.th[t]->st == T_QUIESCE ? "joining" : "run");
      viol("deadlock", m);
    }
    for (size_t i = 1; i < cand.size(); i++) {
      State *n = cloneState(st);
      n->cur = cand[i];
      if (n->th[cand[i]]->st == T_WAIT) n->th[cand[i]]->st = T_RUN;
      schedChoice(*n, kind, cur, cand[i], cand);
      work.push_back(n);
      S.forks++; S.schedForks++;
    }
    if (cand.size() > 1) S.decisions++;
    schedChoice(st, kind, cur, cand[0], cand);
    st.cur = cand[0];
    if (st.th[st.cur]->st == T_WAIT) st.th[st.cur]->st = T_RUN;
  }
  // A scheduling decision is a variable sched_<n> over the enabled threads; each explored branch fixes
  // one value, and the closing query of a path includes these equalities (see finalQuery in main.cpp).
  void schedChoice(State &st, char kind, uint32_t from, uint32_t to, const std::vector<uint32_t> &) { pushEv(st, kind, from, to); }

  uint64_t keyOf(State &st, uint64_t a) {
    Loc L = resolve(st, a, 1, false);
    uint64_t h = L.o->site ^ ((uint64_t)(L.off & ~7ull) * 0x9E3779B97F4A7C15ull);
    return (h ^ (h >> 31)) * 0xff51afd7ed558ccdull;
  }
  void recordAccess(State &st, uint64_t a, bool w) {
    if (st.th.size() < 2) return;
    Loc L = resolve(st, a, 1, true);
    uint32_t off = L.off & ~7u;
    Acc *p = nullptr;
    for (auto &x : L.o->acc) if (x.off == off) { p = &x; break; }
    uint64_t bit = 1ull << st.cur;
    if (p && p->epoch == st.epoch && (w ? p->w & bit : p->r & bit)) {
      uint64_t o = p->w | p->r;
      if (!(((o & ~bit) && (w || (p->w & ~bit))))) return;
    }
    Obj *o = L.tab->getw(L.idx);
    p = nullptr;
    for (auto &x : o->acc) if (x.off == off) { p = &x; break; }
    if (!p) { o->acc.push_back({off, st.epoch, 0, 0}); p = &o->acc.back(); }
    if (p->epoch != st.epoch) { p->epoch = st.epoch; p->r = p->w = 0; }
    if (w) p->w |= bit; else p->r |= bit;
    uint64_t all = p->r | p->w;
    if (p->w && (all & (all - 1))) { uint64_t k = keyOf(st, a); if (!visible.count(k)) newKeys.insert(k); }
  }
  // Called before an atomic instruction. May fork preempted alternatives.
  void schedPoint(State &st, uint64_t addr) {
    Thread *T = st.th[st.cur];
    T->points++;
    if (st.th.size() > 1) {
      if ((int)st.preempt < OPT.preempt && (OPT.allVisible || visible.count(keyOf(st, addr)))) {
        bool any = false;
        for (uint32_t t = 0; t < st.th.size(); t++) {
          if (t == st.cur || !runnable(st, t)) continue;
          State *n = cloneState(st);
          n->th[st.cur]->skipSched = true;
          n->preempt++;
          schedChoice(*n, 'p', st.cur, t, {});
          n->cur = t;
          if (n->th[t]->st == T_WAIT) n->th[t]->st = T_RUN;
          work.push_back(n);
          S.forks++; S.schedForks++; any = true;
        }
        if (any) S.decisions++;
      }
    }
    T->skipSched = true;
  }
  void wrote(State &st) { st.yieldsSince = 0; for (auto T : st.th) T->yielded = false; }

  // ---------------------------------------------------------- calls and unwinding
  Frame *top(State &st) {
    Frame *&f = st.th[st.cur]->fr.back();
    if (f->refs > 1) { Frame *n = new Frame(*f); f->refs--; f = n; }
    return f;
  }
  void pushFrame(State &st, Fn *fn, const std::vector<Val> &args, uint64_t ctx) {
    if (!fn->ready) P->prep(fn);
    if (args.size() != fn->nparam) { fprintf(stderr, "ENGINE-ERROR: call of %s with %zu/%u slots\n", fn->F->getName().str().c_str(), args.size(), fn->nparam); exit(3); }
    Thread *T = st.th[st.cur];
    if (T->fr.size() > 2000) viol("stack-overflow", "call depth over 2000 frames");
    Frame *f = new Frame(fn);
    f->stackMark = T->stack.n;
    f->ctx = ctx;
    for (size_t i = 0; i < args.size(); i++) f->regs[i] = args[i];
    T->fr.push_back(f);
  }
  void popFrame(State &st) {
    Thread *T = st.th[st.cur];
    Frame *f = T->fr.back();
    while (T->stack.n > f->stackMark) T->stack.pop();
    T->fr.pop_back();
    if (--f->refs == 0) delete f;
  }
  void takeEdge(Frame *f, uint32_t ei) {
    Edge &e = f->fn->edges[ei];
    f->fn->blkHit[e.blk] = 1;
    S.blocks++;
    size_t n = e.cp.size();
    const Val *cs = f->fn->consts.data();
    if (n == 1 && e.cp[0].n == 1) { int32_t s = e.cp[0].src; f->regs[e.cp[0].dst] = s >= 0 ? f->regs[s] : cs[~s]; }
    else if (n) {
      static thread_local std::vector<Val> tmp;
      tmp.clear();
      for (auto &c : e.cp) for (uint32_t i = 0; i < c.n; i++) { int32_t s = Prog::at(c.src, i); tmp.push_back(s >= 0 ? f->regs[s] : cs[~s]); }
      size_t k = 0;
      for (auto &c : e.cp) for (uint32_t i = 0; i < c.n; i++) f->regs[c.dst + i] = tmp[k++];
    }
    f->pc = e.target;
  }
  // Unwind the current thread with st.exc set; top frame is the one whose call raised (its pc is at the call).
  void unwind(State &st) {
    Thread *T = st.th[st.cur];
    while (!T->fr.empty()) {
      Frame *f = top(st);
      Ins &I = f->fn->ins[f->pc];
      if (I.op == O_CALL && f->fn->calls[I.x].unwind >= 0) { takeEdge(f, f->fn->calls[I.x].unwind); return; }
      popFrame(st);
    }
    viol("panic", "uncaught panic");
  }
  void finishThread(State &st) {
    st.th[st.cur]->st = T_DONE;
    if (st.cur == 0) throw PathEnd{false};
    st.yieldsSince = 0;
    switchAway(st, 'x');
  }
  void doReturn(State &st, Frame *f, const Val *vals, uint32_t n) {
    Val tmp[64];
    if (n > 64) { fprintf(stderr, "ENGINE-ERROR: large return\n"); exit(3); }
    for (uint32_t i = 0; i < n; i++) tmp[i] = vals[i];
    popFrame(st);
    Thread *T = st.th[st.cur];
    if (T->fr.empty()) { finishThread(st); return; }
    Frame *g = top(st);
    Ins &I = g->fn->ins[g->pc];
    CallInfo &ci = g->fn->calls[I.x];
    if (I.dst >= 0) for (uint32_t i = 0; i < std::min(n, ci.nret); i++) g->regs[I.dst + i] = tmp[i];
    if (ci.normal >= 0) takeEdge(g, ci.normal); else g->pc++;
  }

  // ---------------------------------------------------------- operations
  static inline Val get(Frame *f, int32_t o) { return o >= 0 ? f->regs[o] : f->fn->consts[~o]; }
  Val bin(State &st, EOp op, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
      if ((op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) && vc(b) == 0) viol("arith", "division by zero");
      return cv(evalBin(op, vc(a), vc(b), w));
    }
    return fromE(eBin(op, toE(a, w), toE(b, w)));
  }
  Val icmp(unsigned pred, Val a, Val b, unsigned w) {
    EOp op; bool sw = false, neg = false;
    switch (pred) {
    case CmpInst::ICMP_EQ: op = E_EQ; break;
    case CmpInst::ICMP_NE: op = E_EQ; neg = true; break;
    case CmpInst::ICMP_ULT: op = E_ULT; break;
    case CmpInst::ICMP_ULE: op = E_ULE; break;
    case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break;
    case CmpInst::ICMP_UGE: op = E_ULE; sw = true; break;
    case CmpInst::ICMP_SLT: op = E_SLT; break;
    case CmpInst::ICMP_SLE: op = E_SLE; break;
    case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break;
    default: op = E_SLE; sw = true; break;
    }
    if (sw) std::swap(a, b);
    if (!a.e && !b.e) { bool r = evalBin(op, vc(a), vc(b), w); Val v; v.lo = r != neg; return v; }
    Expr *e = eBin(op, toE(a, w), toE(b, w));
    return fromE(neg ? eNot1(e) : e);
  }
  // 1: take true, 0: take false (forks the other when both feasible)
  bool decide(State &st, Val &c, std::function<void(State &, bool)> other) {
    if (!c.e) return c.lo & 1;
    Expr *t = c.e, *n = eNot1(t);
    bool mt = may(st, t), mf = mt ? may(st, n) : true;
    if (mt && mf) {
      S.decisions++;
      State *o = forkWith(st, n);
      other(*o, false);
      addPc(st, t);
      return true;
    }
    return mt;
  }
#include "step.inc"
};
