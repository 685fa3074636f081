  // Intrinsics. Returns normally after writing results.
  void intrinsic(State &st, Frame *f, Ins &I) {
    CallInfo &ci = f->fn->calls[I.x];
    auto A = [&](unsigned i, unsigned k = 0) { return get(f, Prog::at(ci.args[i].o, k)); };
    unsigned w = I.w;
    auto set = [&](unsigned k, Val v) { f->regs[I.dst + k] = v; };
    auto conc = [&](unsigned i, unsigned k = 0) { Val v = A(i, k); concretize(st, v, w); return v; };
    switch (I.y) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      Val d = A(0), s = A(1), n = A(2); concretize(st, d, 64); concretize(st, s, 64); concretize(st, n, 64);
      doCopy(st, d.lo, s.lo, n.lo); break;
    }
    case Intrinsic::memset: {
      Val d = A(0), b = A(1), n = A(2); concretize(st, d, 64); concretize(st, n, 64); doSet(st, d.lo, b, n.lo); break;
    }
    case Intrinsic::expect: set(0, A(0)); break;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      bool sg = I.y == Intrinsic::sadd_with_overflow || I.y == Intrinsic::ssub_with_overflow || I.y == Intrinsic::smul_with_overflow;
      EOp op = I.y == Intrinsic::uadd_with_overflow || I.y == Intrinsic::sadd_with_overflow ? E_ADD : I.y == Intrinsic::usub_with_overflow || I.y == Intrinsic::ssub_with_overflow ? E_SUB : E_MUL;
      Val a = A(0), b = A(1);
      if (w > 64) { // on values
        a = conc(0); b = conc(1);
        bool ov; u128 lo;
        if (sg) {
          s128 x = sextw(vc(a), w), y = sextw(vc(b), w), r;
          ov = op == E_ADD ? __builtin_add_overflow(x, y, &r) : op == E_SUB ? __builtin_sub_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r);
          lo = (u128)r & maskw(w); ov = ov || sextw(lo, w) != r;
        } else {
          u128 x = vc(a), y = vc(b), r;
          ov = op == E_ADD ? __builtin_add_overflow(x, y, &r) : op == E_SUB ? __builtin_sub_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r);
          lo = r & maskw(w); ov = ov || lo != r;
        }
        set(0, cv(lo)); set(1, cv(ov)); break;
      }
      unsigned ww = op == E_MUL ? 2 * w : w + 1;
      if (!a.e && !b.e) {
        u128 x = sg ? (u128)sextw(a.lo, w) : a.lo, y = sg ? (u128)sextw(b.lo, w) : b.lo;
        u128 r = evalBin(op, x, y, 128), lo = r & maskw(w);
        bool ov = sg ? (s128)r != sextw(lo, w) : r != lo;
        set(0, cv(lo)); set(1, cv(ov));
      } else {
        Expr *ea = toE(a, w), *eb = toE(b, w);
        Expr *x = sg ? eSext(ea, ww) : eZext(ea, ww), *y = sg ? eSext(eb, ww) : eZext(eb, ww);
        Expr *lo = eBin(op, ea, eb);
        Expr *ov;
        if (op == E_ADD && !sg) ov = eBin(E_ULT, lo, ea);
        else if (op == E_SUB && !sg) ov = eBin(E_ULT, ea, eb);
        else { Expr *r = eBin(op, x, y); ov = eNot1(eBin(E_EQ, r, sg ? eSext(lo, ww) : eZext(lo, ww))); }
        set(0, fromE(lo)); set(1, fromE(ov));
      }
      break;
    }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::abs:
      for (unsigned k = 0; k < I.n; k++) {
        Expr *a = toE(A(0, k), w), *b = I.y == Intrinsic::abs ? nullptr : toE(A(1, k), w), *r;
        switch (I.y) {
        case Intrinsic::uadd_sat: { Expr *s = eBin(E_ADD, a, b); r = eIte(eBin(E_ULT, s, a), eC(maskw(w), w), s); break; }
        case Intrinsic::usub_sat: r = eIte(eBin(E_ULT, a, b), eC(0, w), eBin(E_SUB, a, b)); break;
        case Intrinsic::umax: r = eIte(eBin(E_ULT, a, b), b, a); break;
        case Intrinsic::umin: r = eIte(eBin(E_ULT, a, b), a, b); break;
        case Intrinsic::smax: r = eIte(eBin(E_SLT, a, b), b, a); break;
        case Intrinsic::smin: r = eIte(eBin(E_SLT, a, b), a, b); break;
        default: r = eIte(eBin(E_SLT, a, eC(0, w)), eBin(E_SUB, eC(0, w), a), a);
        }
        set(k, fromE(r));
      }
      break;
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::bitreverse:
      for (unsigned k = 0; k < I.n; k++) {
        Val v = A(0, k); if (v.e) { conc(0, k); v = A(0, k); Val t = v; concretize(st, t, w); v = t; }
        u128 x = vc(v), r = 0;
        if (I.y == Intrinsic::ctlz) { unsigned n = 0; for (int b = w - 1; b >= 0 && !((x >> b) & 1); b--) n++; r = n; }
        else if (I.y == Intrinsic::cttz) { unsigned n = 0; for (unsigned b = 0; b < w && !((x >> b) & 1); b++) n++; r = n; }
        else if (I.y == Intrinsic::ctpop) { for (unsigned b = 0; b < w; b++) r += (x >> b) & 1; }
        else if (I.y == Intrinsic::bswap) { for (unsigned b = 0; b < w; b += 8) r |= ((x >> b) & 255) << (w - 8 - b); }
        else for (unsigned b = 0; b < w; b++) r |= ((x >> b) & 1) << (w - 1 - b);
        set(k, cv(r));
      }
      break;
    case Intrinsic::fshl: case Intrinsic::fshr:
      for (unsigned k = 0; k < I.n; k++) {
        Val sh = A(2, k); concretize(st, sh, w); unsigned s = sh.lo % w;
        Expr *a = toE(A(0, k), w), *b = toE(A(1, k), w), *r;
        if (I.y == Intrinsic::fshl) r = s ? eBin(E_OR, eBin(E_SHL, a, eC(s, w)), eBin(E_LSHR, b, eC(w - s, w))) : a;
        else r = s ? eBin(E_OR, eBin(E_SHL, a, eC(w - s, w)), eBin(E_LSHR, b, eC(s, w))) : b;
        set(k, fromE(r));
      }
      break;
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: case Intrinsic::ushl_sat:
      for (unsigned k = 0; k < I.n; k++) { // on values
        Val x = A(0, k), y = A(1, k); concretize(st, x, w); concretize(st, y, w);
        if (w > 64) unsup(I);
        if (I.y == Intrinsic::ushl_sat) {
          u128 r = (u128)x.lo << (y.lo < w ? y.lo : 0); set(k, cv(r > maskw(w) ? maskw(w) : r)); continue;
        }
        s128 p = sextw(x.lo, w), q = sextw(y.lo, w), r = I.y == Intrinsic::sadd_sat ? p + q : p - q, hi = ((s128)1 << (w - 1)) - 1;
        set(k, cv((u128)(r > hi ? hi : r < -hi - 1 ? -hi - 1 : r) & maskw(w)));
      }
      break;
    case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::nearbyint:
    case Intrinsic::copysign: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat:
      for (unsigned k = 0; k < I.n; k++) { // on values
        unsigned wa = P->width(cast<CallBase>(I.I)->getArgOperand(0)->getType());
        Val x = A(0, k), y = ci.args.size() > 1 ? A(1, k) : Val(); concretize(st, x, wa); concretize(st, y, wa);
        if (wa != 32 && wa != 64) unsup(I);
        double d, e, r = 0;
        if (wa == 64) { memcpy(&d, &x.lo, 8); memcpy(&e, &y.lo, 8); }
        else { uint32_t u = x.lo, v = y.lo; float p, q; memcpy(&p, &u, 4); memcpy(&q, &v, 4); d = p; e = q; }
        switch (I.y) {
        case Intrinsic::fabs: r = fabs(d); break;
        case Intrinsic::floor: r = floor(d); break;
        case Intrinsic::ceil: r = ceil(d); break;
        case Intrinsic::trunc: r = trunc(d); break;
        case Intrinsic::round: r = round(d); break;
        case Intrinsic::sqrt: r = wa == 64 ? sqrt(d) : sqrtf(d); break;
        case Intrinsic::rint: case Intrinsic::nearbyint: r = nearbyint(d); break;
        case Intrinsic::copysign: r = copysign(d, e); break;
        case Intrinsic::minnum: r = fmin(d, e); break;
        case Intrinsic::maxnum: r = fmax(d, e); break;
        case Intrinsic::fptoui_sat: {
          if (w > 64) unsup(I);
          double top = ldexp(1.0, w); set(k, cv(!(d > 0) ? 0 : d >= top ? maskw(w) : (u128)(uint64_t)d)); continue;
        }
        default: {
          if (w > 64) unsup(I);
          double top = ldexp(1.0, w - 1); s128 m = (s128)1 << (w - 1);
          set(k, cv((u128)(d != d ? 0 : d >= top ? m - 1 : d < -top ? -m : (s128)(int64_t)d) & maskw(w))); continue;
        }
        }
        Val o; if (wa == 64) memcpy(&o.lo, &r, 8); else { float p = r; uint32_t u; memcpy(&u, &p, 4); o.lo = u; }
        set(k, o);
      }
      break;
    case Intrinsic::trap: case Intrinsic::ubsantrap: viol("abort", "trap"); break;
    case Intrinsic::eh_typeid_for: set(0, cv(1)); break;
    case Intrinsic::is_constant: set(0, cv(0)); break;
    case Intrinsic::ptrmask: set(0, bin(st, E_AND, A(0), A(1), 64)); break;
    case Intrinsic::load_relative: {
      Val p = A(0), o = A(1); concretize(st, p, 64); concretize(st, o, ci.args[1].n ? 64 : 64);
      uint64_t a = p.lo + o.lo; Loc L = resolve(st, a, 4, false); Val v = readW(L.o, L.off, 32);
      set(0, cv(p.lo + (uint64_t)(int64_t)(int32_t)v.lo)); break;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: {
      Val r = A(0, 0);
      for (unsigned k = 1; k < ci.args[0].n; k++) {
        if (I.y == Intrinsic::vector_reduce_umax) { Val b = A(0, k); r = fromE(eIte(eBin(E_ULT, toE(r, w), toE(b, w)), toE(b, w), toE(r, w))); continue; }
        EOp op = I.y == Intrinsic::vector_reduce_add ? E_ADD : I.y == Intrinsic::vector_reduce_or ? E_OR : I.y == Intrinsic::vector_reduce_and ? E_AND : E_XOR;
        r = bin(st, op, r, A(0, k), w);
      }
      set(0, r); break;
    }
    default:
      if (f->fn->calls[I.x].nret == 0 && std::string(cast<CallBase>(I.I)->getCalledOperand()->getName()).find("llvm.x86.sse2.pause") == 0) { spin(st); return; }
      unsup(I);
    }
    f->pc++;
  }
  // Floating point, on values (operands are concretized): a = a op b.
  static bool fp(Ins &I, Val &a, const Val &b) {
    auto ld = [](const Val &v, unsigned w, bool &ok) -> double {
      if (w == 64) { double d; memcpy(&d, &v.lo, 8); return d; }
      if (w == 32) { uint32_t u = v.lo; float x; memcpy(&x, &u, 4); return x; }
      ok = false; return 0;
    };
    auto stv = [](double d, unsigned w, bool &ok) -> Val {
      Val r;
      if (w == 64) memcpy(&r.lo, &d, 8);
      else if (w == 32) { float x = d; uint32_t u; memcpy(&u, &x, 4); r.lo = u; }
      else ok = false;
      return r;
    };
    bool ok = true;
    unsigned wd = I.c;
    switch (I.y) {
    case Instruction::UIToFP: if (I.w > 64) return false; a = wd == 32 ? stv((float)(uint64_t)a.lo, 32, ok) : stv((double)(uint64_t)a.lo, wd, ok); return ok;
    case Instruction::SIToFP: { if (I.w > 64) return false; int64_t x = (int64_t)sextw(a.lo, I.w); a = wd == 32 ? stv((float)x, 32, ok) : stv((double)x, wd, ok); return ok; }
    case Instruction::FPToUI: case Instruction::FPToSI: {
      double d = ld(a, I.w, ok); if (wd > 64) return false;
      a = cv((I.y == Instruction::FPToSI || d < 9223372036854775808.0 ? (u128)(uint64_t)(int64_t)d : (u128)(uint64_t)d) & maskw(wd)); return ok;
    }
    case Instruction::FPTrunc: case Instruction::FPExt: a = stv(ld(a, I.w, ok), wd, ok); return ok;
    case Instruction::FNeg: a.lo ^= 1ull << (I.w - 1); return I.w == 32 || I.w == 64;
    case Instruction::FCmp: {
      double x = ld(a, I.w, ok), y = ld(b, I.w, ok);
      unsigned bit = x == y ? 1 : x > y ? 2 : x < y ? 4 : 8; // as in CmpInst::Predicate
      a = cv((I.sub & bit) != 0); return ok;
    }
    default: {
      double x = ld(a, I.w, ok), y = ld(b, I.w, ok), r;
      if (I.w == 32) {
        float p = x, q = y;
        r = I.y == Instruction::FAdd ? p + q : I.y == Instruction::FSub ? p - q : I.y == Instruction::FMul ? p * q : I.y == Instruction::FDiv ? p / q : fmodf(p, q);
      } else r = I.y == Instruction::FAdd ? x + y : I.y == Instruction::FSub ? x - y : I.y == Instruction::FMul ? x * y : I.y == Instruction::FDiv ? x / y : fmod(x, y);
      a = stv(r, wd, ok); return ok;
    }
    }
  }
  [[noreturn]] void unsup(Ins &I) {
    std::string s; raw_string_ostream os(s); if (I.I) os << *I.I << " in " << I.I->getFunction()->getName();
    fprintf(stderr, "ENGINE-ERROR: unsupported %s\n", os.str().c_str()); exit(3);
  }
  void spin(State &st) {
    Thread *T = st.th[st.cur];
    T->points++;
    top(st)->pc++; // resume after the pause
    if (st.th.size() > 1) {
      st.yieldsSince++;
      if (st.yieldsSince > 4000) viol("deadlock", "threads spin forever on locks nobody releases");
      T->yielded = true;
      switchAway(st, 'y');
    } else if (++st.yieldsSince > 100000) viol("deadlock", "a single thread spins forever on a lock it holds itself");
  }
  void doCopy(State &st, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    Loc S_ = resolve(st, s, n, false);
    Loc D = resolve(st, d, n, true);
    Obj *o = D.tab->getw(D.idx);
    Obj *so = (S_.tab == D.tab && S_.idx == D.idx) ? o : S_.o;
    if (so->sym || o->sym) {
      std::vector<Expr *> t(n, nullptr);
      if (so->sym) for (uint64_t i = 0; i < n; i++) t[i] = so->sym[S_.off + i];
      memmove(o->data + D.off, so->data + S_.off, n);
      for (uint64_t i = 0; i < n; i++) if (t[i] || o->sym) o->setSym(D.off + i, t[i]);
    } else memmove(o->data + D.off, so->data + S_.off, n);
  }
  void doSet(State &st, uint64_t d, Val b, uint64_t n) {
    if (!n) return;
    Loc D = resolve(st, d, n, true);
    Obj *o = D.tab->getw(D.idx);
    for (uint64_t i = 0; i < n; i++) writeW(o, D.off + i, 8, b);
  }
  void freeMem(State &st, uint64_t a) {
    if (!a) return;
    if (!(a >> 52)) viol("memory", "free of a non-heap pointer");
    uint32_t t = (a >> 52) - 1;
    if (t >= st.th.size() || ((a >> 51) & 1) || (a & 0xffffff)) viol("memory", "free of an invalid pointer");
    uint32_t idx = (a >> 24) & 0x7ffffff;
    if (!st.th[t]->heap.get(idx)) viol("memory", "double free");
    st.th[t]->heap.del(idx);
  }
  Val input(State &st, uint32_t tag, unsigned w) {
    char nm[64]; snprintf(nm, sizeof nm, "in%zu_t%u_w%u", st.inputs.size(), tag, w);
    Expr *e = EX.var(nm, w);
    st.inputs.push_back({tag, w, e->lo});
    return fromE(e);
  }
  // External functions. `f->pc` is at the call.
  void builtin(State &st, Frame *f, Ins &I, int id, const std::vector<Val> &a0) {
    CallInfo &ci = f->fn->calls[I.x];
    std::vector<Val> a = a0;
    auto conc = [&](unsigned i) { concretize(st, a[i], ci.args.size() > i && ci.args[i].n ? 64 : 64); return a[i].lo; };
    Val ret;
    uint64_t site = siteHash(st, f->pc, f);
    switch (id) {
    case B_MALLOC: conc(0); ret = cv(allocHeap(st, st.cur, a[0].lo, site, 0xA5)); break;
    case B_CALLOC: conc(0); conc(1); ret = cv(allocHeap(st, st.cur, a[0].lo * a[1].lo, site, 0)); break;
    case B_MEMALIGN: {
      conc(0); conc(2); Loc L = resolve(st, a[0].lo, 8, true); uint64_t p = allocHeap(st, st.cur, a[2].lo, site, 0xA5);
      L = resolve(st, a[0].lo, 8, true);
      writeW(L.tab->getw(L.idx), L.off, 64, cv(p)); ret = cv(0); break;
    }
    case B_REALLOC: {
      conc(0); conc(1);
      uint64_t p = allocHeap(st, st.cur, a[1].lo, site, 0xA5);
      if (a[0].lo) { Loc L = resolve(st, a[0].lo, 0, true); uint64_t n = std::min<uint64_t>(L.o->size, a[1].lo); doCopy(st, p, a[0].lo, n); freeMem(st, a[0].lo); }
      ret = cv(p); break;
    }
    case B_FREE: conc(0); freeMem(st, a[0].lo); break;
    case B_BCMP: case B_MEMCMP: {
      conc(0); conc(1); conc(2);
      uint64_t n = a[2].lo; ret = cv(0);
      if (!n) break;
      Loc X = resolve(st, a[0].lo, n, false), Y = resolve(st, a[1].lo, n, false);
      if (X.o->sym || Y.o->sym) {
        Expr *r = eC(0, 32);
        for (uint64_t i = n; i-- > 0;) {
          Expr *x = toE(readW(X.o, X.off + i, 8), 8), *y = toE(readW(Y.o, Y.off + i, 8), 8);
          Expr *d = id == B_BCMP ? eC(1, 32) : eIte(eBin(E_ULT, x, y), eC(0xffffffff, 32), eC(1, 32));
          r = eIte(eBin(E_EQ, x, y), r, d);
        }
        ret = fromE(r);
      } else { int c = memcmp(X.o->data + X.off, Y.o->data + Y.off, n); ret = cv((uint32_t)(c < 0 ? -1 : c > 0)); }
      break;
    }
    case B_STRLEN: { conc(0); uint64_t n = 0; for (;; n++) { Loc L = resolve(st, a[0].lo + n, 1, false); if (!L.o->data[L.off]) break; } ret = cv(n); break; }
    case B_MEMCPY: conc(0); conc(1); conc(2); doCopy(st, a[0].lo, a[1].lo, a[2].lo); ret = a[0]; break;
    case B_MEMSET: conc(0); conc(2); a[1].lo &= 255; doSet(st, a[0].lo, a[1].e ? fromE(eExtract(a[1].e, 0, 8)) : a[1], a[2].lo); ret = a[0]; break;
    case B_WRITE: conc(2); ret = a[2]; break;
    case B_GETENV: ret = cv(0); break;
    case B_KEYCREATE: { conc(0); uint32_t k = ++st.nkeys; Loc L = resolve(st, a[0].lo, 4, true); writeW(L.tab->getw(L.idx), L.off, 32, cv(k)); ret = cv(0); break; }
    case B_KEYDELETE: ret = cv(0); break;
    case B_GETSPEC: { conc(0); auto it = st.th[st.cur]->spec.find(a[0].lo); ret = it == st.th[st.cur]->spec.end() ? cv(0) : it->second; break; }
    case B_SETSPEC: conc(0); st.th[st.cur]->spec[a[0].lo] = a[1]; ret = cv(0); break;
    case B_ABORT: viol("abort", "abort() called"); break;
    case B_ERRNO: ret = cv(tlsAt(st, 0xffffffff, 0)); break;
    case B_CLOCK: {
      conc(1);
      if (!st.now && !st.clk.e) { st.clk = input(st, CLOCK_TAG, 32); addPc(st, eBin(E_ULT, st.clk.e, eC(2, 32))); }
      concretize(st, st.clk, 32);
      Loc L = resolve(st, a[1].lo, 16, true); Obj *o = L.tab->getw(L.idx);
      uint64_t n = ++st.now;
      writeW(o, L.off, 64, cv(1000000 + (st.clk.lo ? 86400 * n : 0))); writeW(o, L.off + 8, 64, cv(st.clk.lo ? 0 : 1000 * n));
      ret = cv(0); break;
    }
    case B_RET0: ret = cv(0); break;
    case B_RETM1: ret = cv(0xffffffff); break;
    case B_RAISE: {
      conc(0); st.th[st.cur]->exc = a[0].lo;
      unwind(st); return;
    }
    case B_DELEXC: {
      conc(0);
      uint64_t fnp = rdConc(st, a[0].lo + 8, 64);
      if (fnp) {
        Fn *g = P->fnAt.count(fnp) ? P->fnAt[fnp] : nullptr;
        if (!g) viol("memory", "bad exception cleanup");
        pushFrame(st, g, {cv(1), a[0]}, f->ctx); return;
      }
      break;
    }
    case B_SYSCALL: {
      conc(0);
      if (a[0].lo == 202) {
        conc(1); conc(2);
        unsigned op = a[2].lo & 127;
        if (op == 0 || op == 9) {
          Loc L = resolve(st, a[1].lo, 4, false); Val v = readW(L.o, L.off, 32); concretize(st, v, 32);
          Val x = a[3]; concretize(st, x, 32);
          if ((uint32_t)v.lo != (uint32_t)x.lo) {
            Loc E = resolve(st, tlsAt(st, 0xffffffff, 0), 4, true); writeW(E.tab->getw(E.idx), E.off, 32, cv(11)); ret = cv(~0ull);
          } else {
            f->regs[I.dst] = cv(0);
            if (ci.normal >= 0) takeEdge(f, ci.normal); else f->pc++;
            st.th[st.cur]->st = T_FUTEX; st.th[st.cur]->waitAddr = a[1].lo;
            switchAway(st, 'b');
            return;
          }
        } else if (op == 1 || op == 10) {
          uint64_t n = 0;
          for (auto T : st.th) if (T->st == T_FUTEX && T->waitAddr == a[1].lo) { T->st = T_RUN; n++; wrote(st); }
          ret = cv(n);
        } else { fprintf(stderr, "ENGINE-ERROR: futex op %u\n", op); exit(3); }
      } else if (a[0].lo == 318) { conc(1); conc(2); doSet(st, a[1].lo, cv(0), a[2].lo); ret = a[2]; }
      else { fprintf(stderr, "ENGINE-ERROR: syscall %llu\n", (unsigned long long)a[0].lo); exit(3); }
      break;
    }
    case V_U8: conc(0); ret = input(st, a[0].lo, 8); break;
    case V_U32: conc(0); ret = input(st, a[0].lo, 32); break;
    case V_U64: conc(0); ret = input(st, a[0].lo, 64); break;
    case V_CHOOSE: {
      conc(0); conc(1); uint32_t n = a[1].lo;
      ret = input(st, a[0].lo, 32);
      addPc(st, eBin(E_ULT, ret.e, eC(n, 32)));
      break;
    }
    case V_ASSUME: {
      Val c = a[0];
      if (c.e) { c = fromE(c.e->w == 1 ? c.e : eExtract(c.e, 0, 1)); }
      if (c.e) { if (!may(st, c.e)) throw PathEnd{true}; addPc(st, c.e); }
      else if (!(c.lo & 1)) throw PathEnd{true};
      break;
    }
    case V_ASSERT: {
      Val code = a[1]; concretize(st, code, 32);
      Val c = a[0];
      if (c.e) c = fromE(c.e->w == 1 ? c.e : eExtract(c.e, 0, 1));
      if (!OPT.decides(code.lo)) break; // belongs to another property
      S.decisions++;
      if (c.e) {
        if (may(st, eNot1(c.e))) {
          State n(st); n.pc.push_back(eNot1(c.e));
          Viol v{"assert", "assertion " + std::to_string(code.lo), (uint32_t)code.lo};
          S.violations++;
          onViolation(n, v);
          if (!may(st, c.e)) throw PathEnd{true};
        }
        addPc(st, c.e);
      } else if (!(c.lo & 1)) viol("assert", "assertion " + std::to_string(code.lo), code.lo);
      break;
    }
    case V_COVER: conc(0); st.covers.insert(a[0].lo); covers.insert(a[0].lo); break;
    case V_NOTE: {
      conc(0); auto n = std::make_shared<PNode<Note>>(); n->v = {(uint32_t)a[0].lo, a[1]}; n->up = st.notes; st.notes = n; break;
    }
    case V_SPAWN: {
      conc(0); conc(1);
      Fn *g = P->fnAt.count(a[0].lo) ? P->fnAt[a[0].lo] : nullptr;
      if (!g) viol("memory", "bad thread function");
      if (st.th.size() >= 60) { fprintf(stderr, "ENGINE-ERROR: too many threads\n"); exit(3); }
      Thread *T = new Thread();
      st.th.push_back(T);
      uint32_t me = st.cur; st.cur = st.th.size() - 1;
      pushFrame(st, g, {a[1]}, 0x7777 + st.cur);
      ret = cv(st.cur); st.cur = me;
      break;
    }
    case V_QUIESCE: {
      if (st.cur != 0) viol("abort", "quiesce outside the main thread");
      bool others = false;
      for (uint32_t t = 1; t < st.th.size(); t++) if (st.th[t]->st != T_DONE && !(st.th[t]->st == T_WAIT && !runnable(st, t))) others = true;
      if (!others) { st.epoch++; break; }
      if (ci.normal >= 0) takeEdge(f, ci.normal); else f->pc++;
      st.th[0]->st = T_QUIESCE;
      switchAway(st, 'q');
      return;
    }
    case V_WAIT: {
      conc(0);
      Loc L = resolve(st, a[0].lo, 4, false); Val v = readW(L.o, L.off, 32); concretize(st, v, 32);
      if (v.lo == 0) {
        st.th[st.cur]->st = T_WAIT; st.th[st.cur]->waitAddr = a[0].lo;
        st.yieldsSince = 0;
        switchAway(st, 'w');
        return; // the call is executed again when the flag is set
      }
      break;
    }
    case V_STATUS: { conc(0); if (a[0].lo >= st.th.size()) viol("abort", "bad thread"); ret = cv(st.th[a[0].lo]->st == T_DONE ? 1 : 0); break; }
    case V_FIX: conc(0); ret = a[0]; break;
    case V_TID: ret = cv(st.cur); break;
    case V_LIVE: { uint64_t n = 0; for (auto T : st.th) for (uint32_t i = 0; i < T->heap.n; i++) if (T->heap.get(i)) n++; ret = cv(n); break; }
    default: {
      fprintf(stderr, "ENGINE-ERROR: call of external %s\n", ci.direct ? ci.direct->F->getName().str().c_str() : "?"); backtrace(st); exit(3);
    }
    }
    if (I.dst >= 0 && ci.nret) f->regs[I.dst] = ret;
    if (ci.normal >= 0) takeEdge(f, ci.normal); else f->pc++;
  }
  uint64_t tlsAt(State &st, uint32_t idx, uint64_t off) {
    Thread *T = st.th[st.cur];
    auto it = T->tls.find(idx);
    if (it != T->tls.end()) return it->second + off;
    uint64_t a;
    if (idx == 0xffffffff) a = allocHeap(st, st.cur, 4, 0x77, 0);
    else {
      GlobalVariable *G = P->tlsVars[idx];
      a = allocHeap(st, st.cur, P->DL->getTypeAllocSize(G->getValueType()), 0x8000 + idx + st.cur * 1000003ull, 0);
      Obj *o = T->heap.getw((a >> 24) & 0x7ffffff);
      if (G->hasInitializer()) P->initInto(o, G->getInitializer(), 0);
    }
    T->tls[idx] = a;
    return a + off;
  }
  std::vector<std::string> stackTrace(State &st, uint32_t t) {
    std::vector<std::string> out;
    Thread *T = st.th[t];
    for (size_t i = T->fr.size(); i-- > 0;) {
      Frame *f = T->fr[i];
      if (f->pc >= f->fn->ins.size()) continue;
      Ins &I = f->fn->ins[f->pc];
      const DILocation *L = I.I ? I.I->getDebugLoc().get() : nullptr;
      if (!L) { out.push_back(f->fn->F->getName().str()); continue; }
      for (; L; L = L->getInlinedAt()) {
        std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
        std::string p = L->getFilename().str();
        size_t k = p.find("/xtra/src/"); if (k != std::string::npos) p = p.substr(k + 1);
        out.push_back(fn + " (" + p + ":" + std::to_string(L->getLine()) + ")");
      }
    }
    return out;
  }
  void backtrace(State &st) { for (uint32_t t = 0; t < st.th.size(); t++) { fprintf(stderr, " thread %u%s\n", t, t == st.cur ? " *" : ""); for (auto &s : stackTrace(st, t)) fprintf(stderr, "    %s\n", s.c_str()); } }

  // Execute one state to its end. Deletes it.
  void run(State *sp) {
    State &st = *sp;
    try {
      for (;;) {
        uint32_t cur = st.cur;
        Frame *f = top(st);
        stepLoop(st, f);
        (void)cur;
      }
    } catch (PathEnd &e) {
      if (e.infeasible) S.infeasible++; else { S.paths++; onPath(st); }
    } catch (Viol &v) {
      S.violations++;
      onViolation(st, v);
    }
    S.maxDepth = std::max<uint64_t>(S.maxDepth, st.depth);
    S.maxSched = std::max<uint64_t>(S.maxSched, st.nev);
    S.maxPathSteps = std::max<uint64_t>(S.maxPathSteps, st.steps);
    delete sp;
  }
  void stepLoop(State &st, Frame *f) {
    Fn *fn = f->fn;
    Val *R = f->regs;
    const Val *C = fn->consts.data();
    #define G(o) ((o) >= 0 ? R[o] : C[~(o)])
    for (;;) {
      Ins &I = fn->ins[f->pc];
      S.steps++;
      if (++st.steps > OPT.maxSteps) viol("nontermination", "step limit per path exceeded");
      switch (I.op) {
      case O_BIN: {
        if (I.n == 1) {
          const Val &a = G(I.a), &b = G(I.b);
          if (!a.e && !b.e && I.w <= 64) {
            uint64_t x = a.lo, y = b.lo, r, m = I.w == 64 ? ~0ull : ((1ull << I.w) - 1);
            switch (I.sub) {
            case E_ADD: r = (x + y) & m; break;
            case E_SUB: r = (x - y) & m; break;
            case E_AND: r = x & y; break;
            case E_OR: r = x | y; break;
            case E_XOR: r = x ^ y; break;
            case E_MUL: r = (x * y) & m; break;
            default: r = bin(st, (EOp)I.sub, a, b, I.w).lo;
            }
            Val v; v.lo = r; R[I.dst] = v;
          } else R[I.dst] = bin(st, (EOp)I.sub, a, b, I.w);
        } else for (unsigned k = 0; k < I.n; k++) R[I.dst + k] = bin(st, (EOp)I.sub, G(Prog::at(I.a, k)), G(Prog::at(I.b, k)), I.w);
        f->pc++; break;
      }
      case O_FP:
        for (unsigned k = 0; k < I.n; k++) {
          Val a = G(Prog::at(I.a, k)), b = G(Prog::at(I.b, k));
          concretize(st, a, I.w); concretize(st, b, I.w);
          if (!fp(I, a, b)) unsup(I);
          R[I.dst + k] = a;
        }
        f->pc++; break;
      case O_ICMP: {
        if (I.n == 1) {
          const Val &a = G(I.a), &b = G(I.b);
          if (!a.e && !b.e && I.w <= 64) {
            bool r; uint64_t x = a.lo, y = b.lo;
            switch (I.sub) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            default: r = icmp(I.sub, a, b, I.w).lo;
            }
            Val v; v.lo = r; R[I.dst] = v;
          } else R[I.dst] = icmp(I.sub, a, b, I.w);
        } else for (unsigned k = 0; k < I.n; k++) R[I.dst + k] = icmp(I.sub, G(Prog::at(I.a, k)), G(Prog::at(I.b, k)), I.w);
        f->pc++; break;
      }
      case O_SELECT: {
        for (unsigned k = 0; k < I.n; k++) {
          Val c = G(I.y ? Prog::at(I.a, k) : I.a), a = G(Prog::at(I.b, k)), b = G(Prog::at(I.c, k));
          if (!c.e) R[I.dst + k] = (c.lo & 1) ? a : b;
          else { unsigned w = fn->leaves[I.x][k].w; R[I.dst + k] = fromE(eIte(c.e, toE(a, w), toE(b, w))); }
        }
        f->pc++; break;
      }
      case O_ZEXT:
        for (unsigned k = 0; k < I.n; k++) { const Val &a = G(Prog::at(I.a, k)); R[I.dst + k] = a.e ? fromE(eZext(a.e, I.w)) : a; }
        f->pc++; break;
      case O_SEXT:
        for (unsigned k = 0; k < I.n; k++) { const Val &a = G(Prog::at(I.a, k)); R[I.dst + k] = a.e ? fromE(eSext(a.e, I.w)) : cv((u128)sextw(vc(a), I.sub) & maskw(I.w)); }
        f->pc++; break;
      case O_TRUNC:
        for (unsigned k = 0; k < I.n; k++) { const Val &a = G(Prog::at(I.a, k)); R[I.dst + k] = a.e ? fromE(eExtract(a.e, 0, I.w)) : cv(vc(a) & maskw(I.w)); }
        f->pc++; break;
      case O_MOV:
        if (I.n == 1) { Val v = G(I.a); R[I.dst] = v; }
        else for (unsigned k = 0; k < I.n; k++) { Val v = G(Prog::at(I.a, k)); R[I.dst + k] = v; }
        f->pc++; break;
      case O_BITCAST: {
        auto &ls = fn->leaves[I.x], &ld = fn->leaves[I.y];
        Expr *e = nullptr;
        for (size_t k = 0; k < ls.size(); k++) { Expr *b = toE(G(Prog::at(I.a, k)), ls[k].w); e = e ? eConcat(b, e) : b; }
        unsigned o = 0;
        for (size_t k = 0; k < ld.size(); k++) { R[I.dst + k] = fromE(eExtract(e, o, ld[k].w)); o += ld[k].w; }
        f->pc++; break;
      }
      case O_LOAD: {
        Val a = G(I.a);
        if (a.e) concretize(st, a, 64);
        if (I.sub) { Thread *T = st.th[st.cur]; if (!T->skipSched) schedPoint(st, a.lo); recordAccess(st, a.lo, false); }
        Loc L = resolve(st, a.lo, I.y, false);
        if (I.w) R[I.dst] = readW(L.o, L.off, I.w);
        else { auto &lv = fn->leaves[I.x]; for (size_t k = 0; k < lv.size(); k++) R[I.dst + k] = readW(L.o, L.off + lv[k].off, lv[k].w); }
        if (I.sub) st.th[st.cur]->skipSched = false;
        f->pc++; break;
      }
      case O_STORE: {
        Val a = G(I.a);
        if (a.e) concretize(st, a, 64);
        if (I.sub) { Thread *T = st.th[st.cur]; if (!T->skipSched) schedPoint(st, a.lo); recordAccess(st, a.lo, true); wrote(st); }
        Loc L = resolve(st, a.lo, I.y, true);
        Obj *o = L.tab->getw(L.idx);
        if (I.w) writeW(o, L.off, I.w, G(I.b));
        else { auto &lv = fn->leaves[I.x]; for (size_t k = 0; k < lv.size(); k++) writeW(o, L.off + lv[k].off, lv[k].w, G(Prog::at(I.b, k))); }
        if (I.sub) st.th[st.cur]->skipSched = false;
        f->pc++; break;
      }
      case O_GEP: {
        auto &g = fn->geps[I.x];
        Val b = G(I.a);
        bool sym = b.e;
        for (auto &p : g.second) if (G(p.first).e) sym = true;
        if (!sym) {
          uint64_t r = b.lo + (uint64_t)g.first;
          for (auto &p : g.second) { unsigned iw = p.second >> 56; uint64_t sz = p.second & ((1ull << 56) - 1); uint64_t x = G(p.first).lo; if (iw < 64) x = (uint64_t)(int64_t)sextw(x, iw); r += x * sz; }
          Val v; v.lo = r; R[I.dst] = v;
        } else {
          Expr *r = eBin(E_ADD, toE(b, 64), eC((uint64_t)g.first, 64));
          for (auto &p : g.second) { unsigned iw = p.second >> 56; uint64_t sz = p.second & ((1ull << 56) - 1); Expr *x = toE(G(p.first), iw); if (iw < 64) x = eSext(x, 64); r = eBin(E_ADD, r, eBin(E_MUL, x, eC(sz, 64))); }
          R[I.dst] = fromE(r);
        }
        f->pc++; break;
      }
      case O_ALLOCA: {
        Val n = G(I.a);
        if (n.e) concretize(st, n, 64);
        uint64_t sz = (uint64_t)I.x * n.lo;
        if (sz >= (1u << 24)) unsup(I);
        Obj *o = new Obj(sz, 0xA6); o->site = siteHash(st, f->pc, f) + 17;
        R[I.dst] = cv(mkaddr(st.cur, true, st.th[st.cur]->stack.add(o)));
        f->pc++; break;
      }
      case O_BR: takeEdge(f, I.x); break;
      case O_CBR: {
        Val c = G(I.a);
        bool r;
        if (!c.e) r = c.lo & 1;
        else {
          Expr *t = c.e, *n = eNot1(t);
          bool mt = may(st, t), mf = mt ? may(st, n) : true;
          if (mt && mf) { S.decisions++; forkWith(st, n); addPc(st, t); // the clone re-executes this branch with the condition now implied
          }
          r = mt;
          if (f->refs > 1) { f = top(st); R = f->regs; }
        }
        takeEdge(f, r ? I.x : I.y);
        break;
      }
      case O_SWITCH: {
        Val c = G(I.a);
        auto &t = fn->sw[I.x];
        if (c.e) { concretizeSwitch(st, c, I.w, t); if (f->refs > 1) { f = top(st); R = f->regs; } }
        if (c.e) { takeEdge(f, t.def); break; }
        uint32_t e = t.def;
        for (auto &p : t.cases) if (p.first == c.lo) { e = p.second; break; }
        takeEdge(f, e);
        break;
      }
      case O_RET: {
        if (I.n == 0) doReturn(st, f, nullptr, 0);
        else { Val tmp[64]; if (I.n > 64) unsup(I); for (unsigned k = 0; k < I.n; k++) tmp[k] = G(Prog::at(I.a, k)); doReturn(st, f, tmp, I.n); }
        return;
      }
      case O_CALL: {
        CallInfo &ci = fn->calls[I.x];
        int bid = ci.builtin;
        Fn *g = ci.direct;
        if (!g) {
          Val p = G(ci.callee);
          if (p.e) concretize(st, p, 64);
          auto it = P->fnAt.find(p.lo);
          if (it == P->fnAt.end()) viol("memory", "call through an invalid function pointer");
          g = it->second;
          if (g->F->isDeclaration()) { auto b = builtins.find(g->F->getName().str()); bid = b == builtins.end() ? B_UNSUP : b->second; }
        }
        static thread_local std::vector<Val> args;
        args.clear();
        for (auto &A : ci.args) for (uint32_t k = 0; k < A.n; k++) args.push_back(G(Prog::at(A.o, k)));
        if (bid) { std::vector<Val> a2 = args; builtin(st, f, I, bid, a2); return; }
        pushFrame(st, g, args, (f->ctx ^ ((uint64_t)fn->id << 20) ^ f->pc) * 0x9E3779B97F4A7C15ull + 1);
        return;
      }
      case O_UNREACHABLE: viol("abort", "unreachable code executed"); break;
      case O_LANDING: {
        R[I.dst] = cv(st.th[st.cur]->exc);
        if (I.n > 1) R[I.dst + 1] = cv(I.x ? 1 : 0);
        f->pc++; break;
      }
      case O_RESUME: {
        Val e = G(I.a); st.th[st.cur]->exc = e.lo;
        popFrame(st); unwind(st); return;
      }
      case O_CMPXCHG: {
        Val a = G(I.a);
        if (a.e) concretize(st, a, 64);
        Thread *T = st.th[st.cur];
        if (!T->skipSched) { schedPoint(st, a.lo); if (f->refs > 1) { f = top(st); R = f->regs; } }
        Loc L = resolve(st, a.lo, I.w / 8, true);
        Val old = readW(L.o, L.off, I.w), exp = G(I.b), nw = G(I.c);
        bool eq;
        if (!old.e && !exp.e) eq = vc(old) == vc(exp);
        else {
          Val c = fromE(eBin(E_EQ, toE(old, I.w), toE(exp, I.w)));
          eq = decide(st, c, [](State &, bool) {});
          if (f->refs > 1) { f = top(st); R = f->regs; }
        }
        recordAccess(st, a.lo, eq);
        if (eq) { L = resolve(st, a.lo, I.w / 8, true); writeW(L.tab->getw(L.idx), L.off, I.w, nw); wrote(st); }
        R[I.dst] = old; R[I.dst + 1] = cv(eq);
        st.th[st.cur]->skipSched = false;
        f->pc++; break;
      }
      case O_RMW: {
        Val a = G(I.a);
        if (a.e) concretize(st, a, 64);
        Thread *T = st.th[st.cur];
        if (!T->skipSched) { schedPoint(st, a.lo); if (f->refs > 1) { f = top(st); R = f->regs; } }
        recordAccess(st, a.lo, true);
        Loc L = resolve(st, a.lo, I.w / 8, true);
        Val old = readW(L.o, L.off, I.w), v = G(I.b), nw;
        switch (I.sub) {
        case AtomicRMWInst::Xchg: nw = v; break;
        case AtomicRMWInst::Add: nw = bin(st, E_ADD, old, v, I.w); break;
        case AtomicRMWInst::Sub: nw = bin(st, E_SUB, old, v, I.w); break;
        case AtomicRMWInst::And: nw = bin(st, E_AND, old, v, I.w); break;
        case AtomicRMWInst::Or: nw = bin(st, E_OR, old, v, I.w); break;
        case AtomicRMWInst::Xor: nw = bin(st, E_XOR, old, v, I.w); break;
        case AtomicRMWInst::UMax: nw = fromE(eIte(eBin(E_ULT, toE(old, I.w), toE(v, I.w)), toE(v, I.w), toE(old, I.w))); break;
        case AtomicRMWInst::UMin: nw = fromE(eIte(eBin(E_ULT, toE(old, I.w), toE(v, I.w)), toE(old, I.w), toE(v, I.w))); break;
        default: unsup(I);
        }
        writeW(L.tab->getw(L.idx), L.off, I.w, nw); wrote(st);
        R[I.dst] = old;
        st.th[st.cur]->skipSched = false;
        f->pc++; break;
      }
      case O_FENCE: f->pc++; break;
      case O_TLS: R[I.dst] = cv(tlsAt(st, I.x, I.y)); f->pc++; break;
      case O_INTRIN: {
        uint32_t cur = st.cur;
        intrinsic(st, f, I);
        if (st.cur != cur || I.y >= Intrinsic::num_intrinsics || f != st.th[st.cur]->fr.back() || f->refs > 1) return;
        break;
      }
      case O_INSELT: {
        Val ix = G(I.c); if (ix.e) concretize(st, ix, 64);
        for (unsigned k = 0; k < I.n; k++) { Val v = G(Prog::at(I.a, k)); R[I.dst + k] = v; }
        if (ix.lo < I.n) { Val v = G(I.b); R[I.dst + ix.lo] = v; }
        f->pc++; break;
      }
      case O_EXTELT: {
        Val ix = G(I.b); if (ix.e) concretize(st, ix, 64);
        R[I.dst] = ix.lo < I.x ? G(Prog::at(I.a, ix.lo)) : Val();
        f->pc++; break;
      }
      case O_SHUF: {
        auto &m = fn->masks[I.x];
        Val tmp[64];
        for (size_t k = 0; k < m.size(); k++) tmp[k] = m[k] < 0 ? Val() : (uint32_t)m[k] < I.y ? G(Prog::at(I.a, m[k])) : G(Prog::at(I.b, m[k] - I.y));
        for (size_t k = 0; k < m.size(); k++) R[I.dst + k] = tmp[k];
        f->pc++; break;
      }
      default: unsup(I);
      }
      if (f->refs > 1) { f = top(st); R = f->regs; }
    }
    #undef G
  }
  // Fork a symbolic switch: the current state takes one feasible alternative.
  void concretizeSwitch(State &st, Val &c, unsigned w, SwitchTab &t) {
    Expr *e = c.e;
    Expr *none = eC(1, 1);
    std::vector<std::pair<Expr *, uint64_t>> feas;
    for (auto &p : t.cases) {
      Expr *eq = eBin(E_EQ, e, eC(p.first, w));
      none = eBin(E_AND, none, eNot1(eq));
      if (may(st, eq)) feas.push_back({eq, p.first});
    }
    bool def = may(st, none);
    size_t n = feas.size() + def;
    if (n > 1) S.decisions++;
    // all but the first alternative are forked
    for (size_t i = 1; i < feas.size(); i++) forkWith(st, feas[i].first);
    if (feas.empty()) { addPc(st, none); return; } // c stays symbolic: default edge
    if (def) forkWith(st, none);
    addPc(st, feas[0].first);
    c = cv(feas[0].second);
  }
