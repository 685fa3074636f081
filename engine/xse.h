// Core data structures of the symbolic executor: values, memory objects, states.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>

struct Val { uint64_t lo = 0, hi = 0; Expr *e = nullptr; };
static inline Val cv(u128 v) { Val r; r.lo = (uint64_t)v; r.hi = (uint64_t)(v >> 64); return r; }
static inline u128 vc(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : eC(vc(v), w); }
static inline Val fromE(Expr *e) { if (isC(e)) return cv(e->c); Val r; r.e = e; return r; }

// ---------------------------------------------------------------- memory
struct Acc { uint32_t off; uint32_t epoch; uint64_t r, w; };
struct Obj {
  uint32_t refs = 1;
  uint32_t size = 0;
  uint32_t nsym = 0;
  bool ro = false;
  uint64_t site = 0;
  uint8_t *data = nullptr;
  Expr **sym = nullptr;
  std::vector<Acc> acc;
  Obj(uint32_t sz, uint8_t fill) : size(sz) { data = (uint8_t *)malloc(sz ? sz : 1); memset(data, fill, sz); }
  Obj(const Obj &o) : size(o.size), nsym(o.nsym), ro(o.ro), site(o.site), acc(o.acc) {
    data = (uint8_t *)malloc(size ? size : 1); memcpy(data, o.data, size);
    if (o.sym) { sym = (Expr **)malloc(size * sizeof(Expr *)); memcpy(sym, o.sym, size * sizeof(Expr *)); }
  }
  ~Obj() { free(data); free(sym); }
  void setSym(uint32_t i, Expr *e) {
    if (!sym) { if (!e) return; sym = (Expr **)calloc(size, sizeof(Expr *)); }
    if (sym[i] && !e) nsym--; else if (!sym[i] && e) nsym++;
    sym[i] = e;
    if (nsym == 0) { free(sym); sym = nullptr; }
  }
};
static inline void oref(Obj *o) { if (o) o->refs++; }
static inline void ounref(Obj *o) { if (o && --o->refs == 0) delete o; }

enum { CH = 32 };
struct Chunk {
  uint32_t refs = 1;
  Obj *o[CH];
  uint8_t freed[CH]; // 1: was allocated and has been freed
  Chunk() { memset(o, 0, sizeof o); memset(freed, 0, sizeof freed); }
  Chunk(const Chunk &c) { memcpy(o, c.o, sizeof o); memcpy(freed, c.freed, sizeof freed); for (auto p : o) oref(p); }
  ~Chunk() { for (auto p : o) ounref(p); }
};
struct Table {
  std::vector<Chunk *> ch;
  uint32_t n = 0;
  Table() {}
  Table(const Table &t) : ch(t.ch), n(t.n) { for (auto c : ch) c->refs++; }
  Table &operator=(const Table &) = delete;
  ~Table() { for (auto c : ch) if (--c->refs == 0) delete c; }
  Obj *get(uint32_t i) const { return i < n ? ch[i / CH]->o[i % CH] : nullptr; }
  Chunk *wch(uint32_t i) {
    Chunk *&c = ch[i / CH];
    if (c->refs > 1) { Chunk *d = new Chunk(*c); c->refs--; c = d; }
    return c;
  }
  uint32_t add(Obj *o) {
    uint32_t i = n++;
    if (i / CH >= ch.size()) ch.push_back(new Chunk());
    Chunk *c = wch(i);
    c->o[i % CH] = o; c->freed[i % CH] = 0;
    return i;
  }
  void del(uint32_t i) { Chunk *c = wch(i); ounref(c->o[i % CH]); c->o[i % CH] = nullptr; c->freed[i % CH] = 1; }
  void pop() { n--; Chunk *c = wch(n); ounref(c->o[n % CH]); c->o[n % CH] = nullptr; c->freed[n % CH] = 0; }
  Obj *getw(uint32_t i) {
    Chunk *c = wch(i);
    Obj *&o = c->o[i % CH];
    if (o->refs > 1) { Obj *d = new Obj(*o); o->refs--; o = d; }
    return o;
  }
};

// ---------------------------------------------------------------- code
static const uint32_t CLOCK_TAG = 0xC10C;
enum Op : uint16_t {
  O_BIN, O_ICMP, O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_BITCAST, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACHABLE, O_LANDING, O_RESUME, O_CMPXCHG, O_RMW, O_FENCE,
  O_TLS, O_INTRIN, O_INSELT, O_EXTELT, O_SHUF, O_FREEZE, O_FP, O_UNSUP
};
struct Ins {
  Op op; uint16_t w; uint16_t sub; uint16_t n; // n: lanes / slots
  int32_t dst, a, b, c;
  uint32_t x, y;
  uint32_t blk;
  llvm::Instruction *I;
};
struct Copy { int32_t dst, src; uint32_t n; };
struct Edge { uint32_t target; uint32_t blk; std::vector<Copy> cp; };
struct Leaf { uint32_t off; uint16_t w; };
struct Arg { int32_t o; uint32_t n; };
struct SwitchTab { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct Fn;
struct CallInfo { Fn *direct = nullptr; int builtin = 0; int32_t callee = 0; std::vector<Arg> args; int normal = -1, unwind = -1; uint32_t nret = 0; unsigned retw = 0; };
struct Fn {
  llvm::Function *F = nullptr;
  bool ready = false;
  uint32_t id = 0, nregs = 0, nparam = 0;
  std::vector<Ins> ins;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<std::vector<Leaf>> leaves;
  std::vector<std::pair<int64_t, std::vector<std::pair<int32_t, uint64_t>>>> geps; // const offset, (operand, scale); width in hi bits
  std::vector<CallInfo> calls;
  std::vector<SwitchTab> sw;
  std::vector<std::vector<int>> masks;
  std::vector<uint8_t> blkHit;
  std::vector<llvm::BasicBlock *> blks;
};

// ---------------------------------------------------------------- state
struct Frame {
  uint32_t refs = 1;
  Fn *fn; uint32_t pc; uint32_t stackMark;
  uint32_t nregs;
  uint64_t ctx; // hash of the call chain
  Val *regs;
  Frame(Fn *f) : fn(f), pc(0), stackMark(0), nregs(f->nregs), ctx(0) { regs = new Val[nregs]; }
  Frame(const Frame &o) : fn(o.fn), pc(o.pc), stackMark(o.stackMark), nregs(o.nregs), ctx(o.ctx) { regs = new Val[nregs]; memcpy((void *)regs, (void *)o.regs, nregs * sizeof(Val)); }
  ~Frame() { delete[] regs; }
};
enum TSt : uint8_t { T_RUN, T_FUTEX, T_WAIT, T_QUIESCE, T_DONE };
struct Thread {
  std::vector<Frame *> fr;
  TSt st = T_RUN;
  bool skipSched = false, yielded = false;
  uint64_t waitAddr = 0;
  uint32_t points = 0; // number of schedule points executed
  uint64_t exc = 0;
  Table heap, stack;
  std::map<uint32_t, uint64_t> tls;
  std::map<uint32_t, Val> spec;
  Thread() {}
  Thread(const Thread &o) : fr(o.fr), st(o.st), skipSched(o.skipSched), yielded(o.yielded), waitAddr(o.waitAddr), points(o.points), exc(o.exc),
    heap(o.heap), stack(o.stack), tls(o.tls), spec(o.spec) { for (auto f : fr) f->refs++; }
  ~Thread() { for (auto f : fr) if (--f->refs == 0) delete f; }
};
template <class T> struct PNode { T v; std::shared_ptr<PNode<T>> up; };
struct Event { char kind; uint8_t t; uint32_t k; uint8_t to; };
struct Note { uint32_t tag; Val v; };
struct Input { uint32_t tag; unsigned w; uint32_t var; };
typedef std::shared_ptr<PNode<Event>> EvList;
typedef std::shared_ptr<PNode<Note>> NoteList;
struct State {
  std::vector<Thread *> th;
  uint32_t cur = 0;
  Table glob;
  std::vector<Expr *> pc;
  std::vector<Input> inputs;
  EvList ev; NoteList notes;
  uint32_t nev = 0;
  uint32_t preempt = 0, epoch = 0, nkeys = 0, yieldsSince = 0, depth = 0;
  uint64_t steps = 0;
  uint64_t now = 0; Val clk; // times the clock was read; whether a day passes between two readings, or a microsecond
  std::set<uint32_t> covers;
  State() {}
  State(const State &o) : cur(o.cur), glob(o.glob), pc(o.pc), inputs(o.inputs), ev(o.ev), notes(o.notes), nev(o.nev), preempt(o.preempt), epoch(o.epoch),
    nkeys(o.nkeys), yieldsSince(o.yieldsSince), depth(o.depth), steps(o.steps), now(o.now), clk(o.clk), covers(o.covers) { for (auto t : o.th) th.push_back(new Thread(*t)); }
  ~State() { for (auto t : th) delete t; }
};
