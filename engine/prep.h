// LLVM bitcode -> compact executable form.
#pragma once
#include "xse.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static const uint64_t GBASE = 0x10000000ull;
enum Builtin {
  B_NONE, B_UNSUP, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_BCMP, B_MEMCMP, B_STRLEN, B_MEMCPY, B_MEMSET, B_WRITE, B_GETENV, B_SYSCALL,
  B_KEYCREATE, B_KEYDELETE, B_GETSPEC, B_SETSPEC, B_ABORT, B_ERRNO, B_RAISE, B_DELEXC, B_RET0, B_RETM1, B_CLOCK,
  V_U8, V_U32, V_U64, V_CHOOSE, V_ASSUME, V_ASSERT, V_COVER, V_NOTE, V_SPAWN, V_QUIESCE, V_WAIT, V_STATUS, V_FIX, V_TID, V_LIVE, V_ISSYM
};
static std::map<std::string, int> builtins = {
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_MEMALIGN}, {"bcmp", B_BCMP},
  {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"write", B_WRITE}, {"getenv", B_GETENV}, {"syscall", B_SYSCALL},
  {"pthread_key_create", B_KEYCREATE}, {"pthread_key_delete", B_KEYDELETE}, {"pthread_getspecific", B_GETSPEC}, {"pthread_setspecific", B_SETSPEC},
  {"abort", B_ABORT}, {"__errno_location", B_ERRNO}, {"_Unwind_RaiseException", B_RAISE}, {"_Unwind_DeleteException", B_DELEXC}, {"clock_gettime", B_CLOCK}, {"nanosleep", B_RET0}, {"clock_nanosleep", B_RET0}, {"getpid", B_RET0}, {"sched_yield", B_RET0}, {"__cxa_thread_atexit_impl", B_RET0},
  {"vx_u8", V_U8}, {"vx_u32", V_U32}, {"vx_u64", V_U64}, {"vx_choose", V_CHOOSE}, {"vx_assume", V_ASSUME}, {"vx_assert", V_ASSERT}, {"vx_cover", V_COVER},
  {"vx_note", V_NOTE}, {"vx_spawn", V_SPAWN}, {"vx_quiesce", V_QUIESCE}, {"vx_wait", V_WAIT}, {"vx_status", V_STATUS}, {"vx_fix", V_FIX}, {"vx_tid", V_TID}, {"vx_live", V_LIVE},
};

struct Prog {
  Module *M; const DataLayout *DL;
  std::vector<Fn *> fns; // module order
  std::unordered_map<Function *, Fn *> fnOf;
  std::unordered_map<uint64_t, Fn *> fnAt;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr;
  std::vector<GlobalVariable *> tlsVars;
  std::unordered_map<const GlobalValue *, uint32_t> tlsIdx;
  struct G { uint64_t addr; uint32_t size; GlobalVariable *v; };
  std::vector<G> globals; // index = object index in the state's global table
  std::vector<int32_t> gmap; // (addr-GBASE)>>4 -> global index (or -1)
  Table initGlob;
  bool failed = false;

  void leaves(Type *T, uint32_t off, std::vector<Leaf> &out) {
    if (T->isVoidTy()) return;
    if (auto *S = dyn_cast<StructType>(T)) {
      auto *L = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), off + L->getElementOffset(i), out);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      uint64_t sz = DL->getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), off + i * sz, out);
    } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
      unsigned w = width(V->getElementType());
      for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back({off + i * (w / 8), (uint16_t)w});
    } else out.push_back({off, (uint16_t)width(T)});
  }
  unsigned width(Type *T) {
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isVectorTy()) return width(cast<VectorType>(T)->getElementType());
    unsigned s = T->getPrimitiveSizeInBits();
    return s ? s : 64;
  }
  std::unordered_map<Type *, uint32_t> nslotsMemo;
  uint32_t nslots(Type *T) {
    auto it = nslotsMemo.find(T);
    if (it != nslotsMemo.end()) return it->second;
    uint32_t n;
    if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) n = 0;
    else { std::vector<Leaf> l; leaves(T, 0, l); n = l.size(); }
    return nslotsMemo[T] = n;
  }
  void evalConst(Constant *C, std::vector<Val> &out) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
      const APInt &v = CI->getValue();
      Val r; r.lo = v.getRawData()[0]; r.hi = v.getNumWords() > 1 ? v.getRawData()[1] : 0;
      out.push_back(r); return;
    }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
      for (uint32_t i = 0, n = nslots(T); i < n; i++) out.push_back(Val());
      return;
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) { out.push_back(cv(F->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      for (unsigned i = 0; i < D->getNumElements(); i++) evalConst(D->getElementAsConstant(i), out);
      return;
    }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) {
      for (unsigned i = 0; i < A->getNumOperands(); i++) evalConst(A->getOperand(i), out);
      return;
    }
    if (auto *G = dyn_cast<GlobalAlias>(C)) { evalConst(G->getAliasee(), out); return; }
    if (auto *G = dyn_cast<GlobalValue>(C)) {
      auto it = gaddr.find(G);
      if (it == gaddr.end()) { errs() << "ENGINE-ERROR: global without address " << G->getName() << "\n"; exit(3); }
      out.push_back(cv(it->second)); return;
    }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
      auto op = [&](unsigned i) { std::vector<Val> v; evalConst(E->getOperand(i), v); return v[0]; };
      switch (E->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) break;
        out.push_back(cv(op(0).lo + off.getZExtValue())); return;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        out.push_back(cv(vc(op(0)) & maskw(width(T)))); return;
      case Instruction::Trunc: out.push_back(cv(vc(op(0)) & maskw(width(T)))); return;
      case Instruction::Add: out.push_back(cv((vc(op(0)) + vc(op(1))) & maskw(width(T)))); return;
      case Instruction::Sub: out.push_back(cv((vc(op(0)) - vc(op(1))) & maskw(width(T)))); return;
      case Instruction::ICmp: {
        u128 a = vc(op(0)), b = vc(op(1));
        if (E->getPredicate() == CmpInst::ICMP_EQ) { out.push_back(cv(a == b)); return; }
        if (E->getPredicate() == CmpInst::ICMP_NE) { out.push_back(cv(a != b)); return; }
        break;
      }
      case Instruction::Or: out.push_back(cv(vc(op(0)) | vc(op(1)))); return;
      default: break;
      }
    }
    errs() << "ENGINE-ERROR: constant " << *C << "\n"; exit(3);
  }
  static void storeBytes(Obj *o, uint32_t off, unsigned w, const Val &v) {
    unsigned nb = (w + 7) / 8; u128 x = vc(v);
    for (unsigned i = 0; i < nb; i++) o->data[off + i] = (uint8_t)(x >> (8 * i));
  }
  void initInto(Obj *o, Constant *C, uint32_t off) {
    Type *T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
      StringRef r = D->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return;
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
      for (unsigned i = 0; i < C->getNumOperands(); i++) {
        uint64_t eo = isa<ConstantStruct>(C) ? (uint64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i)
                                             : i * (uint64_t)DL->getTypeAllocSize(cast<ArrayType>(T)->getElementType());
        initInto(o, cast<Constant>(C->getOperand(i)), off + eo);
      }
      return;
    }
    std::vector<Leaf> l; leaves(T, off, l);
    std::vector<Val> v; evalConst(C, v);
    for (size_t i = 0; i < l.size(); i++) storeBytes(o, l[i].off, l[i].w, v[i]);
  }
  void load(Module *m) {
    M = m; DL = &m->getDataLayout();
    uint64_t a = GBASE;
    uint32_t id = 1;
    for (Function &F : *m) {
      if (F.isIntrinsic()) { Fn *f = new Fn(); f->F = &F; fnOf[&F] = f; gaddr[&F] = 0; continue; }
      Fn *f = new Fn(); f->F = &F; f->id = id++; fns.push_back(f); fnOf[&F] = f;
      if (F.isDeclaration() && F.hasExternalWeakLinkage() && !builtins.count(F.getName().str())) { gaddr[&F] = 0; continue; }
      gaddr[&F] = a; fnAt[a] = f; a += 16;
    }
    for (GlobalVariable &G : m->globals()) {
      if (G.isThreadLocal()) { tlsIdx[&G] = tlsVars.size(); tlsVars.push_back(&G); continue; }
      if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
      uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16);
      a = (a + al - 1) / al * al;
      uint32_t sz = DL->getTypeAllocSize(G.getValueType());
      gaddr[&G] = a;
      globals.push_back({a, sz, &G});
      a += (sz + 31) / 16 * 16; // at least 16 bytes of red zone
    }
    gmap.assign((a - GBASE) / 16 + 1, -1);
    for (size_t i = 0; i < globals.size(); i++)
      for (uint64_t p = globals[i].addr; p < globals[i].addr + std::max(1u, globals[i].size); p += 16) gmap[(p - GBASE) / 16] = i;
    for (size_t i = 0; i < globals.size(); i++) {
      Obj *o = new Obj(globals[i].size, 0);
      o->ro = globals[i].v->isConstant(); o->site = 0x1000 + i;
      if (globals[i].v->hasInitializer()) initInto(o, globals[i].v->getInitializer(), 0);
      initGlob.add(o);
    }
  }

  // ------------------------------------------------------------ function conversion
  struct Cx {
    Fn *f;
    std::unordered_map<Value *, int32_t> slot;
    std::unordered_map<Constant *, int32_t> cpool;
    std::vector<Ins> pro; // prologue (thread-local addresses)
  };
  bool hasTLS(Constant *C) {
    if (auto *G = dyn_cast<GlobalVariable>(C)) return G->isThreadLocal();
    if (isa<ConstantExpr>(C)) for (auto &o : C->operands()) if (hasTLS(cast<Constant>(o))) return true;
    return false;
  }
  int32_t newSlot(Cx &c, uint32_t n) { int32_t s = c.f->nregs; c.f->nregs += n; return s; }
  int32_t tlsAddr(Cx &c, Constant *C) {
    APInt off(64, 0);
    Value *b = C;
    while (auto *E = dyn_cast<ConstantExpr>(b)) {
      if (E->getOpcode() == Instruction::GetElementPtr) { APInt o2(64, 0); cast<GEPOperator>(E)->accumulateConstantOffset(*DL, o2); off += o2; }
      b = E->getOperand(0);
    }
    auto it = tlsIdx.find(cast<GlobalValue>(b));
    if (it == tlsIdx.end()) { errs() << "ENGINE-ERROR: tls constant\n"; exit(3); }
    Ins I; memset(&I, 0, sizeof I);
    I.op = O_TLS; I.dst = newSlot(c, 1); I.x = it->second; I.y = off.getZExtValue();
    c.pro.push_back(I);
    return I.dst;
  }
  int32_t opnd(Cx &c, Value *v) {
    if (auto *C = dyn_cast<Constant>(v)) {
      auto it = c.cpool.find(C);
      if (it != c.cpool.end()) return it->second;
      int32_t r;
      if (hasTLS(C)) r = tlsAddr(c, C);
      else {
        std::vector<Val> vs; evalConst(C, vs);
        r = ~(int32_t)c.f->consts.size();
        if (vs.empty()) vs.push_back(Val());
        for (auto &x : vs) c.f->consts.push_back(x);
      }
      return c.cpool[C] = r;
    }
    auto it = c.slot.find(v);
    if (it == c.slot.end()) { errs() << "ENGINE-ERROR: operand " << *v << "\n"; exit(3); }
    return it->second;
  }
  static int32_t at(int32_t o, uint32_t k) { return o >= 0 ? o + (int32_t)k : o - (int32_t)k; }
  uint32_t mkLeaves(Cx &c, Type *T) { std::vector<Leaf> l; leaves(T, 0, l); c.f->leaves.push_back(l); return c.f->leaves.size() - 1; }

  void prep(Fn *f) {
    f->ready = true;
    Function &F = *f->F;
    Cx c; c.f = f;
    for (Argument &A : F.args()) c.slot[&A] = newSlot(c, nslots(A.getType()));
    f->nparam = f->nregs;
    std::unordered_map<BasicBlock *, uint32_t> bidx, bstart;
    for (BasicBlock &B : F) {
      bidx[&B] = f->blks.size(); f->blks.push_back(&B);
      for (Instruction &I : B) { uint32_t n = nslots(I.getType()); if (n) c.slot[&I] = newSlot(c, n); }
    }
    f->blkHit.assign(f->blks.size(), 0);
    std::vector<std::pair<uint32_t, BasicBlock *>> fix; // edges to patch
    auto edge = [&](BasicBlock *from, BasicBlock *to) -> uint32_t {
      Edge e; e.blk = bidx[to];
      for (PHINode &P : to->phis()) {
        Value *v = P.getIncomingValueForBlock(from);
        uint32_t n = nslots(P.getType());
        if (isa<UndefValue>(v)) { }
        e.cp.push_back({c.slot[&P], opnd(c, v), n});
      }
      f->edges.push_back(e);
      fix.push_back({(uint32_t)f->edges.size() - 1, to});
      return f->edges.size() - 1;
    };
    std::vector<Ins> &out = f->ins;
    for (BasicBlock &B : F) {
      bstart[&B] = out.size();
      for (Instruction &I : B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        Ins J; memset(&J, 0, sizeof J);
        J.I = &I; J.blk = bidx[&B];
        uint32_t n = nslots(I.getType());
        J.dst = n ? c.slot[&I] : -1;
        J.n = n;
        switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          static const std::map<unsigned, EOp> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV},
            {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
          J.op = O_BIN; J.sub = m.at(I.getOpcode()); J.w = width(I.getType()); J.a = opnd(c, I.getOperand(0)); J.b = opnd(c, I.getOperand(1)); break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: case Instruction::FCmp:
        case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
          J.op = O_FP; J.y = I.getOpcode(); J.w = width(I.getOperand(0)->getType()); J.c = width(I.getType());
          J.a = opnd(c, I.getOperand(0)); J.b = I.getNumOperands() > 1 ? opnd(c, I.getOperand(1)) : J.a;
          if (auto *X = dyn_cast<FCmpInst>(&I)) J.sub = X->getPredicate();
          break;
        case Instruction::ICmp: J.op = O_ICMP; J.sub = cast<ICmpInst>(I).getPredicate(); J.w = width(I.getOperand(0)->getType()); J.a = opnd(c, I.getOperand(0)); J.b = opnd(c, I.getOperand(1)); break;
        case Instruction::Select: J.op = O_SELECT; J.a = opnd(c, I.getOperand(0)); J.b = opnd(c, I.getOperand(1)); J.c = opnd(c, I.getOperand(2)); J.x = mkLeaves(c, I.getType());
          J.y = I.getOperand(0)->getType()->isVectorTy(); break;
        case Instruction::ZExt: J.op = O_ZEXT; J.w = width(I.getType()); J.sub = width(I.getOperand(0)->getType()); J.a = opnd(c, I.getOperand(0)); break;
        case Instruction::SExt: J.op = O_SEXT; J.w = width(I.getType()); J.sub = width(I.getOperand(0)->getType()); J.a = opnd(c, I.getOperand(0)); break;
        case Instruction::Trunc: J.op = O_TRUNC; J.w = width(I.getType()); J.sub = width(I.getOperand(0)->getType()); J.a = opnd(c, I.getOperand(0)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          unsigned ws = width(I.getOperand(0)->getType()), wd = width(I.getType());
          J.op = wd > ws ? O_ZEXT : wd < ws ? O_TRUNC : O_MOV; J.w = wd; J.sub = ws; J.a = opnd(c, I.getOperand(0)); break;
        }
        case Instruction::BitCast: J.op = O_BITCAST; J.a = opnd(c, I.getOperand(0)); J.x = mkLeaves(c, I.getOperand(0)->getType()); J.y = mkLeaves(c, I.getType());
          if (nslots(I.getOperand(0)->getType()) == n && n == 1) J.op = O_MOV;
          break;
        case Instruction::Freeze: J.op = O_MOV; J.a = opnd(c, I.getOperand(0)); break;
        case Instruction::ExtractValue: case Instruction::InsertValue: {
          bool ins = I.getOpcode() == Instruction::InsertValue;
          Type *T = I.getOperand(0)->getType();
          ArrayRef<unsigned> idx = ins ? cast<InsertValueInst>(I).getIndices() : cast<ExtractValueInst>(I).getIndices();
          uint32_t k = 0; Type *U = T;
          for (unsigned i : idx) {
            if (auto *S = dyn_cast<StructType>(U)) { for (unsigned q = 0; q < i; q++) k += nslots(S->getElementType(q)); U = S->getElementType(i); }
            else { auto *A = cast<ArrayType>(U); k += i * nslots(A->getElementType()); U = A->getElementType(); }
          }
          J.op = O_MOV;
          if (!ins) { J.a = at(opnd(c, I.getOperand(0)), k); }
          else {
            J.a = opnd(c, I.getOperand(0)); out.push_back(J);
            J.a = opnd(c, I.getOperand(1)); J.dst += k; J.n = nslots(U);
          }
          break;
        }
        case Instruction::Load: {
          auto &L = cast<LoadInst>(I);
          J.op = O_LOAD; J.a = opnd(c, L.getPointerOperand()); J.x = mkLeaves(c, I.getType()); J.y = DL->getTypeStoreSize(I.getType()); J.sub = L.isAtomic(); J.w = n == 1 ? f->leaves[J.x][0].w : 0; break;
        }
        case Instruction::Store: {
          auto &S = cast<StoreInst>(I);
          J.op = O_STORE; J.a = opnd(c, S.getPointerOperand()); J.b = opnd(c, S.getValueOperand()); J.x = mkLeaves(c, S.getValueOperand()->getType());
          J.y = DL->getTypeStoreSize(S.getValueOperand()->getType()); J.sub = S.isAtomic(); J.n = f->leaves[J.x].size(); J.w = J.n == 1 ? f->leaves[J.x][0].w : 0; break;
        }
        case Instruction::GetElementPtr: {
          auto &G = cast<GetElementPtrInst>(I);
          J.op = n == 1 ? O_GEP : O_UNSUP; J.a = opnd(c, G.getPointerOperand());
          int64_t off = 0; std::vector<std::pair<int32_t, uint64_t>> sc;
          for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
            Value *v = it.getOperand();
            if (StructType *S = it.getStructTypeOrNull()) off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
            else {
              uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
              if (auto *CI = dyn_cast<ConstantInt>(v)) off += CI->getSExtValue() * (int64_t)sz;
              else sc.push_back({opnd(c, v), sz | ((uint64_t)width(v->getType()) << 56)});
            }
          }
          f->geps.push_back({off, sc}); J.x = f->geps.size() - 1; break;
        }
        case Instruction::Alloca: {
          auto &A = cast<AllocaInst>(I);
          J.op = O_ALLOCA; J.x = DL->getTypeAllocSize(A.getAllocatedType()); J.a = opnd(c, A.getArraySize()); break;
        }
        case Instruction::Br: {
          auto &Br = cast<BranchInst>(I);
          if (Br.isUnconditional()) { J.op = O_BR; J.x = edge(&B, Br.getSuccessor(0)); }
          else { J.op = O_CBR; J.a = opnd(c, Br.getCondition()); J.x = edge(&B, Br.getSuccessor(0)); J.y = edge(&B, Br.getSuccessor(1)); }
          break;
        }
        case Instruction::Switch: {
          auto &S = cast<SwitchInst>(I);
          SwitchTab t;
          for (auto &cs : S.cases()) t.cases.push_back({cs.getCaseValue()->getZExtValue(), edge(&B, cs.getCaseSuccessor())});
          t.def = edge(&B, S.getDefaultDest());
          f->sw.push_back(t);
          J.op = O_SWITCH; J.a = opnd(c, S.getCondition()); J.w = width(S.getCondition()->getType()); J.x = f->sw.size() - 1; break;
        }
        case Instruction::Ret: J.op = O_RET; if (I.getNumOperands()) { J.a = opnd(c, I.getOperand(0)); J.n = nslots(I.getOperand(0)->getType()); } else J.n = 0; break;
        case Instruction::Unreachable: J.op = O_UNREACHABLE; break;
        case Instruction::LandingPad: J.op = O_LANDING; J.x = cast<LandingPadInst>(I).getNumClauses() > 0; break;
        case Instruction::Resume: J.op = O_RESUME; J.a = opnd(c, I.getOperand(0)); break;
        case Instruction::Fence: J.op = O_FENCE; break;
        case Instruction::AtomicCmpXchg: {
          auto &X = cast<AtomicCmpXchgInst>(I);
          J.op = O_CMPXCHG; J.a = opnd(c, X.getPointerOperand()); J.b = opnd(c, X.getCompareOperand()); J.c = opnd(c, X.getNewValOperand()); J.w = width(X.getNewValOperand()->getType()); break;
        }
        case Instruction::AtomicRMW: {
          auto &X = cast<AtomicRMWInst>(I);
          J.op = O_RMW; J.sub = X.getOperation(); J.a = opnd(c, X.getPointerOperand()); J.b = opnd(c, X.getValOperand()); J.w = width(I.getType()); break;
        }
        case Instruction::InsertElement: J.op = O_INSELT; J.a = opnd(c, I.getOperand(0)); J.b = opnd(c, I.getOperand(1)); J.c = opnd(c, I.getOperand(2)); break;
        case Instruction::ExtractElement: J.op = O_EXTELT; J.a = opnd(c, I.getOperand(0)); J.b = opnd(c, I.getOperand(1)); J.x = nslots(I.getOperand(0)->getType()); break;
        case Instruction::ShuffleVector: {
          auto &S = cast<ShuffleVectorInst>(I);
          J.op = O_SHUF; J.a = opnd(c, I.getOperand(0)); J.b = opnd(c, I.getOperand(1)); J.y = nslots(I.getOperand(0)->getType());
          std::vector<int> mk(S.getShuffleMask().begin(), S.getShuffleMask().end());
          f->masks.push_back(mk); J.x = f->masks.size() - 1; break;
        }
        case Instruction::Call: case Instruction::Invoke: {
          auto &CB = cast<CallBase>(I);
          Function *cal = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
          if (cal && cal->isIntrinsic()) {
            auto id = cal->getIntrinsicID();
            bool nop = false;
            switch (id) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
            case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: nop = true; break;
            default: break;
            }
            if (nop) continue;
            if (id == Intrinsic::threadlocal_address) {
              J.op = O_TLS; J.x = tlsIdx.at(cast<GlobalValue>(CB.getArgOperand(0))); J.y = 0; break;
            }
            J.op = O_INTRIN; J.sub = 0; J.y = id;
            J.w = I.getType()->isStructTy() || I.getType()->isVoidTy() ? (CB.arg_size() ? width(CB.getArgOperand(0)->getType()) : 0) : width(I.getType());
          } else J.op = O_CALL;
          CallInfo ci;
          if (J.op == O_CALL) {
            if (cal) {
              ci.direct = fnOf.at(cal);
              auto it = builtins.find(cal->getName().str());
              if (it != builtins.end() && cal->isDeclaration()) ci.builtin = it->second;
              else if (cal->isDeclaration()) ci.builtin = B_UNSUP;
            } else if (isa<InlineAsm>(CB.getCalledOperand())) { ci.builtin = B_NONE; ci.direct = nullptr; J.op = O_FENCE; } // compiler barriers / black_box
            else ci.callee = opnd(c, CB.getCalledOperand());
          }
          if (J.op == O_FENCE) { if (n) J.op = O_UNSUP; break; }
          for (auto &A : CB.args()) {
            if (A->getType()->isMetadataTy()) { ci.args.push_back({0, 0}); continue; }
            ci.args.push_back({opnd(c, A), nslots(A->getType())});
          }
          ci.nret = n; ci.retw = n == 1 ? width(I.getType()) : 0;
          if (auto *IV = dyn_cast<InvokeInst>(&I)) { ci.normal = edge(&B, IV->getNormalDest()); ci.unwind = edge(&B, IV->getUnwindDest()); }
          f->calls.push_back(ci); J.x = f->calls.size() - 1;
          if (J.op == O_INTRIN && J.y == Intrinsic::vector_reduce_add) J.w = width(I.getType());
          break;
        }
        default: J.op = O_UNSUP;
        }
        out.push_back(J);
      }
    }
    // prologue
    if (!c.pro.empty()) {
      out.insert(out.begin(), c.pro.begin(), c.pro.end());
      for (auto &kv : bstart) if (kv.second || kv.first != &F.getEntryBlock()) kv.second += c.pro.size();
    }
    for (auto &p : fix) f->edges[p.first].target = bstart[p.second];
    if (!f->blkHit.empty()) f->blkHit[0] = 1;
  }
};
