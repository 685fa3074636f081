// Bit-vector expression DAG (hash-consed), simplifier, and Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <z3++.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  v &= maskw(w);
  if ((v >> (w - 1)) & 1) v |= ~maskw(w);
  return (s128)v;
}

enum EOp : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE
};

struct Expr {
  EOp op; uint16_t w; uint32_t id; uint32_t lo; // lo: low bit for EXTRACT; var index for VAR
  Expr *k[3]; u128 c;
  std::vector<uint32_t> vars; // sorted
  uint64_t h;
};

struct ExprKey { EOp op; uint16_t w; uint32_t lo; Expr *a, *b, *c; u128 v; };
struct ExprHash {
  size_t operator()(const ExprKey &k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w * 0x517cc1b727220a95ull + k.lo * 1000003ull;
    h = (h ^ (uint64_t)k.a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ (uint64_t)k.b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ (uint64_t)k.c) * 0xff51afd7ed558ccdull;
    h ^= (uint64_t)k.v * 31 + (uint64_t)(k.v >> 64) * 37; h ^= h >> 33;
    return h;
  }
};
struct ExprEq {
  bool operator()(const ExprKey &x, const ExprKey &y) const {
    return x.op == y.op && x.w == y.w && x.lo == y.lo && x.a == y.a && x.b == y.b && x.c == y.c && x.v == y.v;
  }
};

struct VarInfo { std::string name; unsigned w; };
struct ExprCtx {
  std::unordered_map<ExprKey, Expr *, ExprHash, ExprEq> tab;
  std::vector<VarInfo> vars;
  std::unordered_map<std::string, Expr *> byName;
  uint32_t nid = 1;
  Expr *mk(EOp op, unsigned w, uint32_t lo, Expr *a, Expr *b, Expr *c, u128 v) {
    ExprKey key{op, (uint16_t)w, lo, a, b, c, v};
    auto it = tab.find(key);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr();
    e->op = op; e->w = w; e->lo = lo; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = v; e->id = nid++;
    uint64_t hh = op * 77777ull + w * 131 + lo * 0x9E3779B97F4A7C15ull + (uint64_t)v * 0xc4ceb9fe1a85ec53ull;
    for (int i = 0; i < 3; i++) if (e->k[i]) {
      hh = (hh ^ e->k[i]->h) * 0xff51afd7ed558ccdull; hh ^= hh >> 32;
      for (auto x : e->k[i]->vars) e->vars.push_back(x);
    }
    if (op == E_VAR) e->vars.push_back(lo);
    std::sort(e->vars.begin(), e->vars.end());
    e->vars.erase(std::unique(e->vars.begin(), e->vars.end()), e->vars.end());
    e->h = hh;
    tab[key] = e;
    return e;
  }
  Expr *constant(u128 v, unsigned w) { return mk(E_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  Expr *var(const std::string &name, unsigned w) {
    auto it = byName.find(name);
    if (it != byName.end()) return it->second;
    uint32_t i = vars.size();
    vars.push_back({name, w});
    Expr *e = mk(E_VAR, w, i, 0, 0, 0, 0);
    byName[name] = e;
    return e;
  }
};
extern ExprCtx EX;

static inline u128 evalBin(EOp op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? (a / b) & m : m;
  case E_SDIV: { s128 x = sextw(a, w), y = sextw(b, w); return y ? (u128)(x / y) & m : m; }
  case E_UREM: return b ? (a % b) & m : a;
  case E_SREM: { s128 x = sextw(a, w), y = sextw(b, w); return y ? (u128)(x % y) & m : a; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b) & m;
  case E_ASHR: { s128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sextw(a, w) < sextw(b, w);
  case E_SLE: return sextw(a, w) <= sextw(b, w);
  default: abort();
  }
}
static inline bool isC(Expr *e) { return e->op == E_CONST; }
Expr *eZext(Expr *a, unsigned w);
Expr *eExtract(Expr *a, unsigned lo, unsigned w);
Expr *eIte(Expr *c, Expr *t, Expr *f);
static inline Expr *eC(u128 v, unsigned w) { return EX.constant(v, w); }
static inline bool isCmp(EOp o) { return o >= E_EQ && o <= E_SLE; }
static inline Expr *eNot1(Expr *a);

static inline Expr *eBin(EOp op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return eC(evalBin(op, a->c, b->c, w), isCmp(op) ? 1 : w);
  // canonical: constant on the right for commutative operators
  if (isC(a) && (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) std::swap(a, b);
  if (isC(b)) {
    u128 c = b->c;
    if (c == 0 && (op == E_ADD || op == E_SUB || op == E_OR || op == E_XOR || op == E_SHL || op == E_LSHR || op == E_ASHR)) return a;
    if (c == 0 && (op == E_AND || op == E_MUL)) return b;
    if (c == maskw(w) && op == E_AND) return a;
    if (c == maskw(w) && op == E_OR) return b;
    if (c == 1 && (op == E_MUL || op == E_UDIV)) return a;
    if (c == 0 && op == E_ULT) return eC(0, 1);
    if (c == maskw(w) && op == E_ULE) return eC(1, 1);
    if (op == E_XOR && w == 1 && c == 1) {
      if (a->op == E_XOR && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
      if (a->op == E_ULT) return EX.mk(E_ULE, 1, 0, a->k[1], a->k[0], 0, 0);
      if (a->op == E_ULE) return EX.mk(E_ULT, 1, 0, a->k[1], a->k[0], 0, 0);
      if (a->op == E_SLT) return EX.mk(E_SLE, 1, 0, a->k[1], a->k[0], 0, 0);
      if (a->op == E_SLE) return EX.mk(E_SLT, 1, 0, a->k[1], a->k[0], 0, 0);
    }
    if (op == E_EQ) {
      if (w == 1) return c ? a : eNot1(a);
      if (a->op == E_ZEXT) {
        unsigned kw = a->k[0]->w;
        if (c & ~maskw(kw)) return eC(0, 1);
        return eBin(E_EQ, a->k[0], eC(c, kw));
      }
      if (a->op == E_XOR && isC(a->k[1])) return eBin(E_EQ, a->k[0], eC(a->k[1]->c ^ c, w));
      if (a->op == E_ADD && isC(a->k[1])) return eBin(E_EQ, a->k[0], eC(c - a->k[1]->c, w));
      if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) {
        bool t = a->k[1]->c == c, f = a->k[2]->c == c;
        if (t && f) return eC(1, 1);
        if (!t && !f) return eC(0, 1);
        return t ? a->k[0] : eNot1(a->k[0]);
      }
      if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2])))
        return eIte(a->k[0], eBin(E_EQ, a->k[1], b), eBin(E_EQ, a->k[2], b));
    }
    if ((op == E_ULT || op == E_ULE || op == E_SLT || op == E_SLE) && a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
      return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
    if ((op == E_ADD || op == E_SUB || op == E_AND) && a->op == E_ITE && isC(a->k[1]) && isC(a->k[2]))
      return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
    if (op == E_AND && a->op == E_ZEXT) {
      unsigned kw = a->k[0]->w;
      return eZext(eBin(E_AND, a->k[0], eC(c, kw)), w);
    }
  }
  if (a == b) {
    if (op == E_EQ || op == E_ULE || op == E_SLE) return eC(1, 1);
    if (op == E_ULT || op == E_SLT) return eC(0, 1);
    if (op == E_XOR || op == E_SUB) return eC(0, w);
    if (op == E_AND || op == E_OR) return a;
  }
  if (op == E_EQ && a->id > b->id && !isC(b)) std::swap(a, b);
  return EX.mk(op, isCmp(op) ? 1 : w, 0, a, b, 0, 0);
}
static inline Expr *eNot1(Expr *a) { return eBin(E_XOR, a, eC(1, 1)); }
inline Expr *eZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eC(a->c, w);
  if (a->op == E_ZEXT) return eZext(a->k[0], w);
  if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eZext(a->k[1], w), eZext(a->k[2], w));
  return EX.mk(E_ZEXT, w, 0, a, 0, 0, 0);
}
static inline Expr *eSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eC((u128)sextw(a->c, a->w), w);
  if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eSext(a->k[1], w), eSext(a->k[2], w));
  return EX.mk(E_SEXT, w, 0, a, 0, 0, 0);
}
inline Expr *eExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return eC(a->c >> lo, w);
  if (a->op == E_EXTRACT) return eExtract(a->k[0], lo + a->lo, w);
  if (a->op == E_ZEXT || a->op == E_SEXT) {
    unsigned kw = a->k[0]->w;
    if (lo + w <= kw) return eExtract(a->k[0], lo, w);
    if (a->op == E_ZEXT && lo >= kw) return eC(0, w);
    if (a->op == E_ZEXT && lo == 0) return eZext(a->k[0], w);
    if (a->op == E_SEXT && lo == 0) return eSext(a->k[0], w);
  }
  if (a->op == E_CONCAT) { // k[0] high, k[1] low
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return eExtract(a->k[1], lo, w);
    if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
  }
  if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
  return EX.mk(E_EXTRACT, w, lo, a, 0, 0, 0);
}
static inline Expr *eConcat(Expr *hi, Expr *lo) {
  if (isC(hi) && isC(lo)) return eC((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (isC(hi) && hi->c == 0) return eZext(lo, hi->w + lo->w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->w)
    return eExtract(hi->k[0], lo->lo, hi->w + lo->w);
  return EX.mk(E_CONCAT, hi->w + lo->w, 0, hi, lo, 0, 0);
}
inline Expr *eIte(Expr *c, Expr *t, Expr *f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (t->w == 1 && isC(t) && isC(f)) return t->c ? c : eNot1(c);
  if (c->op == E_XOR && isC(c->k[1])) return eIte(c->k[0], f, t);
  return EX.mk(E_ITE, t->w, 0, c, t, f, 0);
}

struct Model { std::unordered_map<uint32_t, u128> v; };
static inline u128 evalExpr(Expr *e, const Model &m) {
  switch (e->op) {
  case E_CONST: return e->c;
  case E_VAR: { auto it = m.v.find(e->lo); return it == m.v.end() ? 0 : it->second; }
  case E_ZEXT: return evalExpr(e->k[0], m);
  case E_SEXT: return (u128)sextw(evalExpr(e->k[0], m), e->k[0]->w) & maskw(e->w);
  case E_EXTRACT: return (evalExpr(e->k[0], m) >> e->lo) & maskw(e->w);
  case E_CONCAT: return (evalExpr(e->k[0], m) << e->k[1]->w) | evalExpr(e->k[1], m);
  case E_ITE: return evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m);
  default: return evalBin(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->w);
  }
}

struct Solver {
  z3::context *ctx;
  z3::solver *s;
  std::unordered_map<uint32_t, z3::expr> memo;
  std::unordered_map<uint64_t, bool> cache;
  uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, modelHits = 0;
  double time = 0;
  std::vector<Model> recent; // counterexample cache
  Solver() { ctx = new z3::context(); s = new z3::solver(*ctx); }
  z3::expr conv(Expr *e) {
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    z3::expr r(*ctx);
    auto b1 = [&](z3::expr b) { return z3::ite(b, ctx->bv_val(1, 1), ctx->bv_val(0, 1)); };
    switch (e->op) {
    case E_CONST: {
      if (e->w <= 64) r = ctx->bv_val((uint64_t)e->c, e->w);
      else r = z3::concat(ctx->bv_val((uint64_t)(e->c >> 64), e->w - 64), ctx->bv_val((uint64_t)e->c, 64));
      break;
    }
    case E_VAR: r = ctx->bv_const(EX.vars[e->lo].name.c_str(), e->w); break;
    case E_ADD: r = conv(e->k[0]) + conv(e->k[1]); break;
    case E_SUB: r = conv(e->k[0]) - conv(e->k[1]); break;
    case E_MUL: r = conv(e->k[0]) * conv(e->k[1]); break;
    case E_UDIV: r = z3::udiv(conv(e->k[0]), conv(e->k[1])); break;
    case E_SDIV: r = conv(e->k[0]) / conv(e->k[1]); break;
    case E_UREM: r = z3::urem(conv(e->k[0]), conv(e->k[1])); break;
    case E_SREM: r = z3::srem(conv(e->k[0]), conv(e->k[1])); break;
    case E_AND: r = conv(e->k[0]) & conv(e->k[1]); break;
    case E_OR: r = conv(e->k[0]) | conv(e->k[1]); break;
    case E_XOR: r = conv(e->k[0]) ^ conv(e->k[1]); break;
    case E_SHL: r = z3::shl(conv(e->k[0]), conv(e->k[1])); break;
    case E_LSHR: r = z3::lshr(conv(e->k[0]), conv(e->k[1])); break;
    case E_ASHR: r = z3::ashr(conv(e->k[0]), conv(e->k[1])); break;
    case E_EQ: r = b1(conv(e->k[0]) == conv(e->k[1])); break;
    case E_ULT: r = b1(z3::ult(conv(e->k[0]), conv(e->k[1]))); break;
    case E_ULE: r = b1(z3::ule(conv(e->k[0]), conv(e->k[1]))); break;
    case E_SLT: r = b1(z3::slt(conv(e->k[0]), conv(e->k[1]))); break;
    case E_SLE: r = b1(z3::sle(conv(e->k[0]), conv(e->k[1]))); break;
    case E_ZEXT: r = z3::zext(conv(e->k[0]), e->w - e->k[0]->w); break;
    case E_SEXT: r = z3::sext(conv(e->k[0]), e->w - e->k[0]->w); break;
    case E_EXTRACT: r = conv(e->k[0]).extract(e->lo + e->w - 1, e->lo); break;
    case E_CONCAT: r = z3::concat(conv(e->k[0]), conv(e->k[1])); break;
    case E_ITE: r = z3::ite(conv(e->k[0]) == ctx->bv_val(1, 1), conv(e->k[1]), conv(e->k[2])); break;
    }
    memo.emplace(e->id, r);
    return r;
  }
  // Constraints sharing variables (transitively) with `c`.
  static void slice(const std::vector<Expr *> &pc, Expr *c, std::vector<Expr *> &out) {
    std::unordered_set<uint32_t> vs(c->vars.begin(), c->vars.end());
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        bool hit = false;
        for (auto v : pc[i]->vars) if (vs.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; out.push_back(pc[i]); for (auto v : pc[i]->vars) vs.insert(v); }
      }
    }
  }
  // Constraints that only compare variables and constants (unsigned) mean the same over bounded integers,
  // where the solver's arithmetic decides them without bit-blasting.
  std::unordered_map<uint32_t, char> ordMemo;
  static bool leaf(Expr *e) { return e->op == E_VAR || e->op == E_CONST; }
  bool isOrd(Expr *e) {
    if (e->w != 1) return false;
    auto it = ordMemo.find(e->id);
    if (it != ordMemo.end()) return it->second;
    bool r = false;
    switch (e->op) {
    case E_CONST: r = true; break;
    case E_EQ: case E_ULT: case E_ULE: r = e->k[0]->w > 1 && e->k[0]->w <= 64 && leaf(e->k[0]) && leaf(e->k[1]); break;
    case E_AND: case E_OR: case E_XOR: r = isOrd(e->k[0]) && isOrd(e->k[1]); break;
    case E_ITE: r = isOrd(e->k[0]) && isOrd(e->k[1]) && isOrd(e->k[2]); break;
    default: break;
    }
    ordMemo[e->id] = r;
    return r;
  }
  z3::solver *si = nullptr;
  std::unordered_map<uint32_t, z3::expr> imemo;
  z3::expr intLeaf(Expr *e) { return e->op == E_VAR ? ctx->int_const(("i_" + EX.vars[e->lo].name).c_str()) : ctx->int_val((uint64_t)e->c); }
  z3::expr convOrd(Expr *e) {
    auto it = imemo.find(e->id);
    if (it != imemo.end()) return it->second;
    z3::expr r(*ctx);
    switch (e->op) {
    case E_CONST: r = ctx->bool_val(e->c != 0); break;
    case E_EQ: r = intLeaf(e->k[0]) == intLeaf(e->k[1]); break;
    case E_ULT: r = intLeaf(e->k[0]) < intLeaf(e->k[1]); break;
    case E_ULE: r = intLeaf(e->k[0]) <= intLeaf(e->k[1]); break;
    case E_AND: r = convOrd(e->k[0]) && convOrd(e->k[1]); break;
    case E_OR: r = convOrd(e->k[0]) || convOrd(e->k[1]); break;
    case E_XOR: r = convOrd(e->k[0]) != convOrd(e->k[1]); break;
    default: r = z3::ite(convOrd(e->k[0]), convOrd(e->k[1]), convOrd(e->k[2])); break;
    }
    imemo.emplace(e->id, r);
    return r;
  }
  uint64_t intQueries = 0;
  bool check(const std::vector<Expr *> &cs, Model *m) {
    bool ord = true;
    for (auto e : cs) if (!isOrd(e)) { ord = false; break; }
    if (ord) {
      auto t0 = std::chrono::steady_clock::now();
      queries++; intQueries++;
      if (!si) si = new z3::solver(*ctx);
      si->push();
      std::unordered_set<uint32_t> vs;
      for (auto e : cs) { si->add(convOrd(e)); for (auto v : e->vars) vs.insert(v); }
      for (auto v : vs) { z3::expr x = ctx->int_const(("i_" + EX.vars[v].name).c_str()); unsigned w = EX.vars[v].w; si->add(x >= 0); si->add(x <= ctx->int_val((uint64_t)maskw(w))); }
      z3::check_result r = si->check();
      if (r == z3::unknown) { fprintf(stderr, "ENGINE-ERROR: solver returned unknown\n"); exit(3); }
      if (r == z3::sat) {
        sat++;
        z3::model zm = si->get_model();
        Model mm;
        for (auto v : vs) {
          z3::expr x = zm.eval(ctx->int_const(("i_" + EX.vars[v].name).c_str()), true);
          uint64_t val = 0;
          if (!x.is_numeral_u64(val)) { fprintf(stderr, "ENGINE-ERROR: model value\n"); exit(3); }
          mm.v[v] = val;
        }
        for (auto e : cs) if (evalExpr(e, mm) != 1) { fprintf(stderr, "ENGINE-ERROR: model does not satisfy constraints\n"); exit(3); }
        recent.push_back(mm);
        if (recent.size() > 24) recent.erase(recent.begin());
        if (m) *m = mm;
      } else unsat++;
      si->pop();
      time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      return r == z3::sat;
    }
    return checkBv(cs, m);
  }
  bool checkBv(const std::vector<Expr *> &cs, Model *m) {
    auto t0 = std::chrono::steady_clock::now();
    queries++;
    s->push();
    for (auto e : cs) s->add(conv(e) == ctx->bv_val(1, 1));
    z3::check_result r = s->check();
    if (getenv("XSE_SLOW") && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 1) fprintf(stderr, "SLOW %s\n", s->to_smt2().c_str());
    if (r == z3::unknown) { fprintf(stderr, "ENGINE-ERROR: solver returned unknown\n"); exit(3); }
    if (r == z3::sat) {
      sat++;
      z3::model zm = s->get_model();
      Model mm;
      std::unordered_set<uint32_t> vs;
      for (auto e : cs) for (auto v : e->vars) vs.insert(v);
      for (auto v : vs) {
        z3::expr x = zm.eval(ctx->bv_const(EX.vars[v].name.c_str(), EX.vars[v].w), true);
        uint64_t val = 0;
        if (!x.is_numeral_u64(val)) { fprintf(stderr, "ENGINE-ERROR: model value\n"); exit(3); }
        mm.v[v] = val;
      }
      // every model is re-checked against our own evaluator of the same constraints
      for (auto e : cs) if (evalExpr(e, mm) != 1) { fprintf(stderr, "ENGINE-ERROR: model does not satisfy constraints\n"); exit(3); }
      recent.push_back(mm);
      if (recent.size() > 24) recent.erase(recent.begin());
      if (m) *m = mm;
    } else unsat++;
    s->pop();
    time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return r == z3::sat;
  }
  // Is pc /\ c satisfiable?  pc itself is known satisfiable.
  bool mayBeTrue(const std::vector<Expr *> &pc, Expr *c) {
    if (isC(c)) return c->c;
    std::vector<Expr *> cs;
    slice(pc, c, cs);
    Expr *nc = eNot1(c);
    for (auto e : cs) { if (e == c) return true; if (e == nc) return false; }
    cs.push_back(c);
    std::vector<uint64_t> ids;
    for (auto e : cs) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    uint64_t h = 1469598103934665603ull;
    for (auto i : ids) { h = (h ^ i) * 1099511628211ull; h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; }
    auto it = cache.find(h);
    if (it != cache.end()) { cacheHits++; return it->second; }
    for (size_t i = recent.size(); i-- > 0;) {
      bool ok = true;
      for (size_t j = cs.size(); j-- > 0;) if (evalExpr(cs[j], recent[i]) != 1) { ok = false; break; }
      if (ok) { modelHits++; cache[h] = true; return true; }
    }
    bool r = check(cs, nullptr);
    cache[h] = r;
    return r;
  }
};
extern Solver *SV;
