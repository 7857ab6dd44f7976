// Intrinsics, C library and harness primitives.
#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
using namespace llvm;
static std::unordered_map<std::string, Handler> H;
Handler findHandler(const std::string &n) { auto it = H.find(n); return it == H.end() ? nullptr : it->second; }

static inline uint32_t AO(uint64_t a) { return (uint32_t)(a >> 32); }
static inline uint64_t OFF(uint64_t a) { return (a & 0xffffffffull) - 0x10000; }

// finish a call with a result
static void fin(Executor &X, State &s, DI &d, const Val &v) {
  if (d.dst >= 0) s.top().r[d.dst] = v;
  if (d.op == Instruction::Invoke) X.jump(s, d.blocks[0]); else s.top().pc++;
}
static void fin(Executor &X, State &s, DI &d) { fin(X, s, d, Val(0)); }
static const Val &A(Executor &X, State &s, DI &d, int i) { return X.opv(s, d.ops[i]); }
static Val padd(const Val &p, uint64_t o) { return p.e ? VE(mkBin(K::Add, mkConst(o, 64), p.e)) : Val(p.c + o); }
static uint32_t argW(DI &d, int i) { Type *T = cast<CallBase>(d.I)->getArgOperand(i)->getType(); return T->isIntegerTy() ? T->getIntegerBitWidth() : T->isFloatTy() ? 32 : T->isHalfTy() ? 16 : 64; }

static void h_nop(Executor &X, State &s, DI &d) { fin(X, s, d); }
static void h_ret0(Executor &X, State &s, DI &d) { fin(X, s, d, Val(0)); }
static void h_ret1(Executor &X, State &s, DI &d) { fin(X, s, d, Val(1)); }
static void h_retarg0(Executor &X, State &s, DI &d) { Val v = A(X, s, d, 0); fin(X, s, d, v); }

// --- memory blocks ---
static void copyBytes(Executor &X, State &s, const Val &dst, const Val &src, uint64_t n) {
  if (n == 0) return;
  if (!dst.e && !src.e) {
    uint32_t si = AO(src.c), di = AO(dst.c); MemObj *so = s.mem.rd(si), *dobj = s.mem.rd(di);
    auto bad = [&](MemObj *o, uint64_t a, const char *w) {
      if (!o || a < 0x10000) X.memError(s, std::string("block ") + w + " through null or invalid pointer", nullptr);
      if (o->kind == OK_Freed) X.memError(s, std::string("block ") + w + " of freed memory", nullptr);
      if (OFF(a) > o->size || n > o->size - OFF(a)) X.memError(s, std::string("out of bounds block ") + w, nullptr);
    };
    bad(so, src.c, "read"); bad(dobj, dst.c, "write");
    if (dobj->ro) X.memError(s, "write to read-only memory", nullptr);
    std::vector<uint8_t> tb(so->b.begin() + OFF(src.c), so->b.begin() + OFF(src.c) + n);
    std::vector<SB> ts; if (!so->s.empty()) ts.assign(so->s.begin() + OFF(src.c), so->s.begin() + OFF(src.c) + n);
    MemObj *o = s.mem.wr(di); uint64_t off = OFF(dst.c);
    memcpy(&o->b[off], tb.data(), n);
    bool any = false; for (auto &x : ts) if (x.e) { any = true; break; }
    if (any) { if (o->s.empty()) o->s.resize(o->size, SB{nullptr, 0}); std::copy(ts.begin(), ts.end(), o->s.begin() + off); }
    else if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i].e = nullptr;
    return;
  }
  // symbolic address: word granules, all loads before all stores
  std::vector<std::pair<uint64_t, Val>> ws; uint64_t i = 0;
  while (i < n) { uint64_t k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; ws.push_back({k, X.loadRaw(s, padd(src, i), k)}); i += k; }
  i = 0;
  for (auto &w : ws) { X.storeRaw(s, padd(dst, i), w.second, w.first); i += w.first; }
}
static void h_memcpy(Executor &X, State &s, DI &d) {
  uint64_t n = X.concretize(s, A(X, s, d, 2), 64, "memcpy length");
  Val dst = A(X, s, d, 0), src = A(X, s, d, 1);
  if (n > (1ull << 28)) { X.memError(s, "block copy of more than 256 MB", nullptr); }
  X.access(s, src, n, false, d.I); X.access(s, dst, n, true, d.I);
  copyBytes(X, s, dst, src, n); fin(X, s, d, dst);
}
static void h_memset(Executor &X, State &s, DI &d) {
  uint64_t n = X.concretize(s, A(X, s, d, 2), 64, "memset length");
  Val dst = A(X, s, d, 0), v = A(X, s, d, 1);
  X.access(s, dst, n, true, d.I);
  if (v.e && v.e->w > 8) v = VE(mkExtract(v.e, 0, 8)); else v.c &= 0xff;
  if (n) {
    if (!dst.e && !v.e) {
      MemObj *o = s.mem.rd(AO(dst.c));
      if (!o || dst.c < 0x10000) X.memError(s, "memset through null or invalid pointer", nullptr);
      if (o->kind == OK_Freed) X.memError(s, "memset of freed memory", nullptr);
      if (OFF(dst.c) > o->size || n > o->size - OFF(dst.c)) X.memError(s, "out of bounds memset", nullptr);
      o = s.mem.wr(AO(dst.c)); memset(&o->b[OFF(dst.c)], (int)v.c, n);
      if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[OFF(dst.c) + i].e = nullptr;
    } else for (uint64_t i = 0; i < n; i++) X.storeRaw(s, padd(dst, i), v, 1);
  }
  fin(X, s, d, dst);
}
static void h_memcmp(Executor &X, State &s, DI &d) {
  uint64_t n = X.concretize(s, A(X, s, d, 2), 64, "memcmp length");
  Val a = A(X, s, d, 0), b = A(X, s, d, 1);
  X.access(s, a, n, false, d.I); X.access(s, b, n, false, d.I);
  E r = mkConst(0, 32); bool conc = true; std::vector<std::pair<Val, Val>> v;
  for (uint64_t i = 0; i < n; i++) {
    Val x = X.loadRaw(s, padd(a, i), 1), y = X.loadRaw(s, padd(b, i), 1);
    v.push_back({x, y});
    if (x.e || y.e) conc = false;
    else if (conc && x.c != y.c) { fin(X, s, d, Val(x.c < y.c ? 0xffffffffu : 1)); return; }
    else if (x.c != y.c) break; // later bytes cannot matter
  }
  for (int i = (int)v.size() - 1; i >= 0; i--) {
    E x = toE(v[i].first, 8), y = toE(v[i].second, 8);
    r = mkIte(mkBin(K::Eq, x, y), r, mkIte(mkBin(K::Ult, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
  }
  fin(X, s, d, VE(r));
}
static void h_memchr(Executor &X, State &s, DI &d) {
  uint64_t n = X.concretize(s, A(X, s, d, 2), 64, "memchr length");
  Val a = A(X, s, d, 0), c = A(X, s, d, 1); E ce = c.e ? mkExtract(c.e, 0, 8) : mkConst(c.c, 8);
  E r = mkConst(0, 64); std::vector<Val> v;
  for (uint64_t i = 0; i < n; i++) v.push_back(X.loadRaw(s, padd(a, i), 1));
  for (int i = (int)n - 1; i >= 0; i--) r = mkIte(mkBin(K::Eq, toE(v[i], 8), ce), toE(padd(a, i), 64), r);
  fin(X, s, d, VE(r));
}
static void h_strlen(Executor &X, State &s, DI &d) {
  uint64_t a = X.concretize(s, A(X, s, d, 0), 64, "strlen pointer"); uint64_t n = 0;
  for (;; n++) { Val b = X.loadRaw(s, Val(a + n), 1);
    if (!b.e) { if (!b.c) break; } else if (X.evalCond(s, mkBin(K::Eq, mkConst(0, 8), b.e))) break; }
  fin(X, s, d, Val(n));
}
static void strcmpN(Executor &X, State &s, DI &d, uint64_t n) {
  Val a = A(X, s, d, 0), b = A(X, s, d, 1);
  std::vector<std::pair<E, E>> v; 
  for (uint64_t i = 0; i < n; i++) {
    E x = toE(X.loadRaw(s, padd(a, i), 1), 8), y = toE(X.loadRaw(s, padd(b, i), 1), 8); v.push_back({x, y});
    if ((isC(x) && x->imm == 0) || (isC(y) && y->imm == 0)) break;
    if (isC(x) && isC(y) && x->imm != y->imm) break;
    if (!isC(x) && !isC(y) && X.evalCond(s, mkBin(K::Eq, mkConst(0, 8), x))) break;
  }
  E r = mkConst(0, 32);
  for (int i = (int)v.size() - 1; i >= 0; i--)
    r = mkIte(mkBin(K::Eq, v[i].first, v[i].second), mkIte(mkBin(K::Eq, mkConst(0, 8), v[i].first), mkConst(0, 32), r), mkIte(mkBin(K::Ult, v[i].first, v[i].second), mkConst(0xffffffffu, 32), mkConst(1, 32)));
  fin(X, s, d, VE(r));
}
static void h_strcmp(Executor &X, State &s, DI &d) { strcmpN(X, s, d, 1ull << 20); }
static void h_strncmp(Executor &X, State &s, DI &d) { strcmpN(X, s, d, X.concretize(s, A(X, s, d, 2), 64, "strncmp length")); }

static void doAlloc(Executor &X, State &s, DI &d, uint64_t n, uint8_t kind, uint8_t fill) {
  if (n > (1ull << 28)) {
    // treat as allocation failure
    if (kind == 1) { fin(X, s, d, Val(0)); return; }
    if (Function *F = X.M->getFunction("sym_rt_throw_bad_alloc")) { s.kv["bad_alloc"]++; X.pushCall(s, F, {}, false); return; }
    X.giveUp(s, "huge allocation");
  }
  uint64_t a = X.alloc(s, n, OK_Heap, fill, d.I, kind); fin(X, s, d, Val(a));
}
static void h_malloc(Executor &X, State &s, DI &d) { uint64_t n = X.concretize(s, A(X, s, d, 0), 64, "allocation size"); doAlloc(X, s, d, n, 1, 0xBE); }
static void h_calloc(Executor &X, State &s, DI &d) { uint64_t n = X.concretize(s, A(X, s, d, 0), 64, "allocation size") * X.concretize(s, A(X, s, d, 1), 64, "allocation size"); doAlloc(X, s, d, n, 1, 0); }
static void h_new(Executor &X, State &s, DI &d) { uint64_t n = X.concretize(s, A(X, s, d, 0), 64, "allocation size"); doAlloc(X, s, d, n, 2, 0xBE); }
static void h_newa(Executor &X, State &s, DI &d) { uint64_t n = X.concretize(s, A(X, s, d, 0), 64, "allocation size"); doAlloc(X, s, d, n, 3, 0xBE); }
static void h_newan(Executor &X, State &s, DI &d) { uint64_t n = X.concretize(s, A(X, s, d, 0), 64, "allocation size"); if (n > (1ull << 28)) fin(X, s, d, Val(0)); else doAlloc(X, s, d, n, 3, 0xBE); }
static ObjP tomb() { static ObjP f; if (!f) { f = std::make_shared<MemObj>(); f->kind = OK_Freed; } return f; }
static void doFree(Executor &X, State &s, DI &d, uint8_t kind) {
  uint64_t a = X.concretize(s, A(X, s, d, 0), 64, "freed pointer");
  if (a) {
    MemObj *o = s.mem.rd(AO(a));
    if (!o || a < 0x10000) X.memError(s, "free of invalid pointer", nullptr);
    if (o->kind == OK_Freed) X.memError(s, "double free", nullptr);
    if (o->kind != OK_Heap || OFF(a) != 0) X.memError(s, "free of non-heap or interior pointer", nullptr);
    if (o->allocKind != kind && o->allocKind != 9) X.memError(s, "mismatched allocation and deallocation", nullptr);
    X.access(s, Val(a), o->size, true, d.I);
    s.mem.set(AO(a), tomb());
  }
  fin(X, s, d);
}
static void h_free(Executor &X, State &s, DI &d) { doFree(X, s, d, 1); }
static void h_del(Executor &X, State &s, DI &d) { doFree(X, s, d, 2); }
static void h_dela(Executor &X, State &s, DI &d) { doFree(X, s, d, 3); }
static void h_realloc(Executor &X, State &s, DI &d) {
  uint64_t a = X.concretize(s, A(X, s, d, 0), 64, "realloc pointer"), n = X.concretize(s, A(X, s, d, 1), 64, "realloc size");
  uint64_t na = X.alloc(s, n, OK_Heap, 0xBE, d.I, 1);
  if (a) { MemObj *o = s.mem.rd(AO(a)); copyBytes(X, s, Val(na), Val(a), std::min(n, o->size)); s.mem.set(AO(a), tomb()); }
  fin(X, s, d, Val(na));
}

// --- integer intrinsics, elementwise over vectors ---
typedef std::function<E(const std::vector<E> &, uint32_t)> EF;
static void elementwise(Executor &X, State &s, DI &d, int n, const EF &f) {
  Type *T = cast<CallBase>(d.I)->getArgOperand(0)->getType();
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    Type *ET = VT->getElementType(); uint32_t w = ET->isFloatTy() ? 32 : ET->isDoubleTy() || ET->isPointerTy() ? 64 : ET->getIntegerBitWidth();
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < VT->getNumElements(); i++) { std::vector<E> a; for (int k = 0; k < n; k++) a.push_back(toE((*A(X, s, d, k).agg)[i], w)); r.agg->push_back(VE(f(a, w))); }
    fin(X, s, d, r); return;
  }
  std::vector<E> a; for (int k = 0; k < n; k++) a.push_back(toE(A(X, s, d, k), argW(d, k)));
  fin(X, s, d, VE(f(a, argW(d, 0))));
}
#define EW(name, n, body) static void name(Executor &X, State &s, DI &d) { elementwise(X, s, d, n, [&](const std::vector<E> &a, uint32_t w) -> E { (void)w; body; }); }
static E ite(E c, E a, E b) { return mkIte(c, a, b); }
EW(h_smax, 2, return ite(mkBin(K::Slt, a[0], a[1]), a[1], a[0]))
EW(h_smin, 2, return ite(mkBin(K::Slt, a[0], a[1]), a[0], a[1]))
EW(h_umax, 2, return ite(mkBin(K::Ult, a[0], a[1]), a[1], a[0]))
EW(h_umin, 2, return ite(mkBin(K::Ult, a[0], a[1]), a[0], a[1]))
EW(h_abs, 1, return ite(mkBin(K::Slt, a[0], mkConst(0, w)), mkBin(K::Sub, mkConst(0, w), a[0]), a[0]))
EW(h_iabs, 1, return ite(mkBin(K::Slt, a[0], mkConst(0, w)), mkBin(K::Sub, mkConst(0, w), a[0]), a[0]))
EW(h_usubsat, 2, return ite(mkBin(K::Ult, a[0], a[1]), mkConst(0, w), mkBin(K::Sub, a[0], a[1])))
EW(h_uaddsat, 2, E r = mkBin(K::Add, a[0], a[1]); return ite(mkBin(K::Ult, r, a[0]), mkConst(~0ull, w), r))
EW(h_bswap, 1, E r = nullptr; for (uint32_t i = 0; i < w; i += 8) { E b = mkExtract(a[0], i, 8); r = r ? mkConcat(r, b) : b; } return r)
EW(h_ctpop, 1, E r = mkConst(0, w); for (uint32_t i = 0; i < w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(a[0], i, 1), w)); return r)
EW(h_ctlz, 1, E r = mkConst(w, w); for (uint32_t i = 0; i < w; i++) r = ite(mkExtract(a[0], i, 1), mkConst(w - 1 - i, w), r); return r)
EW(h_cttz, 1, E r = mkConst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = ite(mkExtract(a[0], i, 1), mkConst(i, w), r); return r)
EW(h_fshl, 3, E sh = mkBin(K::URem, a[2], mkConst(w, w)); E wide = mkConcat(a[0], a[1]); E r = mkBin(K::Shl, wide, mkZExt(sh, 2 * w)); return mkExtract(r, w, w))
EW(h_fshr, 3, E sh = mkBin(K::URem, a[2], mkConst(w, w)); E wide = mkConcat(a[0], a[1]); E r = mkBin(K::LShr, wide, mkZExt(sh, 2 * w)); return mkExtract(r, 0, w))
EW(h_bitreverse, 1, E r = nullptr; for (uint32_t i = 0; i < w; i++) { E b = mkExtract(a[0], i, 1); r = r ? mkConcat(r, b) : b; } return r)
EW(h_fabs, 1, return mkF1(K::FAbs, a[0]))
EW(h_sqrt, 1, return mkF1(K::FSqrt, a[0]))
static E rnd(Executor &X, State &s, E x, int m) { double n; if (X.splitRound(s, x, m, n)) return mkConst(x->w == 32 ? f2bits((float)n) : d2bits(n), x->w); return mkF1(K::FRound, x, m); }
EW(h_floor, 1, return rnd(X, s, a[0], RM_FLOOR))
EW(h_ceil, 1, return rnd(X, s, a[0], RM_CEIL))
EW(h_trunc, 1, return rnd(X, s, a[0], RM_TRUNC))
EW(h_rint, 1, return mkF1(K::FRound, a[0], RM_NEAREST_EVEN))
EW(h_round, 1, return mkF1(K::FRound, a[0], RM_NEAREST_AWAY))
EW(h_fmin, 2, return mkBin(K::FMin, a[0], a[1]))
EW(h_fmax, 2, return mkBin(K::FMax, a[0], a[1]))
EW(h_fma, 3, return mkBin(K::FAdd, mkBin(K::FMul, a[0], a[1]), a[2]))
EW(h_copysign, 2, uint64_t sb = 1ull << (w - 1); return mkBin(K::Or, mkBin(K::And, mkConst(maskw(w) ^ sb, w), a[0]), mkBin(K::And, mkConst(sb, w), a[1])))
static E fun(const std::string &n, const std::vector<E> &a, uint32_t w) { return mkFUn(ufId(w == 32 ? n + "f" : n), a[0], a.size() > 1 ? a[1] : nullptr, w); }
#define FU(nm, n) EW(h_##nm, n, return fun(#nm, a, w))
FU(exp, 1) FU(exp2, 1) FU(log, 1) FU(log2, 1) FU(log10, 1) FU(sin, 1) FU(cos, 1) FU(tan, 1) FU(asin, 1) FU(acos, 1) FU(atan, 1) FU(pow, 2) FU(atan2, 2) FU(fmod, 2)
EW(h_isnan, 1, return mkZExt(mkBin(K::FUno, a[0], a[0]), 32))
EW(h_lround, 1, return mkFConv(K::FToSI, mkF1(K::FRound, a[0], RM_NEAREST_AWAY), 64))
EW(h_toupper, 1, E lo = mkBin(K::Sub, a[0], mkConst('a', 32)); return ite(mkBin(K::Ult, lo, mkConst(26, 32)), mkBin(K::Sub, a[0], mkConst(32, 32)), a[0]))
EW(h_tolower, 1, E lo = mkBin(K::Sub, a[0], mkConst('A', 32)); return ite(mkBin(K::Ult, lo, mkConst(26, 32)), mkBin(K::Add, a[0], mkConst(32, 32)), a[0]))
EW(h_isdigit, 1, return mkZExt(mkBin(K::Ult, mkBin(K::Sub, a[0], mkConst('0', 32)), mkConst(10, 32)), 32))

static void ovf(Executor &X, State &s, DI &d, K k, bool sgn) {
  uint32_t w = argW(d, 0); E a = toE(A(X, s, d, 0), w), b = toE(A(X, s, d, 1), w);
  E r = mkBin(k, a, b), o;
  if (k == K::Add && !sgn) o = mkBin(K::Ult, r, a);
  else if (k == K::Sub && !sgn) o = mkBin(K::Ult, a, b);
  else if (k == K::Mul && !sgn) {
    if (w > 64) X.giveUp(s, "wide umul");
    if (isC(b) && !isC(a)) std::swap(a, b);
    if (isC(a) && a->imm) o = mkBin(K::Ult, mkConst(maskw(w) / a->imm, w), b);
    else if (isC(a)) o = mkConst(0, 1);
    else o = mkBin(K::Xor, mkConst(1, 1), mkBin(K::Eq, mkConst(0, w), mkExtract(mkBin(K::Mul, mkZExt(a, 2 * w), mkZExt(b, 2 * w)), w, w)));
  } else { // signed via widening
    E x = mkBin(k, mkSExt(a, w * 2), mkSExt(b, w * 2));
    o = mkNot(mkBin(K::Eq, mkSExt(r, w * 2), x));
  }
  Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(VE(r)); v.agg->push_back(VE(o)); fin(X, s, d, v);
}
static void h_uaddo(Executor &X, State &s, DI &d) { ovf(X, s, d, K::Add, false); }
static void h_usubo(Executor &X, State &s, DI &d) { ovf(X, s, d, K::Sub, false); }
static void h_umulo(Executor &X, State &s, DI &d) { ovf(X, s, d, K::Mul, false); }
static void h_saddo(Executor &X, State &s, DI &d) { ovf(X, s, d, K::Add, true); }
static void h_ssubo(Executor &X, State &s, DI &d) { ovf(X, s, d, K::Sub, true); }
static void h_smulo(Executor &X, State &s, DI &d) { ovf(X, s, d, K::Mul, true); }
static void h_isconst(Executor &X, State &s, DI &d) { fin(X, s, d, Val(0)); }
static void h_objsize(Executor &X, State &s, DI &d) { fin(X, s, d, Val(~0ull)); }
static void h_trap(Executor &X, State &s, DI &d) { X.violation(s, "abort", "trap", nullptr); throw PathEnd(); }
static void h_typeidfor(Executor &X, State &s, DI &d) { uint64_t t = A(X, s, d, 0).c; if (!X.tiIndex.count(t)) { int n = X.tiIndex.size() + 1; X.tiIndex[t] = n; } fin(X, s, d, Val(X.tiIndex[t])); }
static void h_classify(Executor &X, State &s, DI &d) {
  uint32_t w = argW(d, 0); E x = toE(A(X, s, d, 0), w); uint64_t mask = A(X, s, d, 1).c;
  // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -zero 6 +zero 7 +subnormal 8 +normal 9 +inf
  uint32_t mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11;
  E man = mkExtract(x, 0, mb), ex = mkExtract(x, mb, eb), sg = mkExtract(x, w - 1, 1);
  E mz = mkBin(K::Eq, mkConst(0, mb), man), e0 = mkBin(K::Eq, mkConst(0, eb), ex), e1 = mkBin(K::Eq, mkConst(maskw(eb), eb), ex);
  E q = mkExtract(man, mb - 1, 1), r = mkConst(0, 1);
  auto AND = [](E a, E b) { return mkBin(K::And, a, b); }; auto add = [&](int bit, E c) { if (mask >> bit & 1) r = mkBin(K::Or, r, c); };
  E ns = mkNot(sg);
  add(0, AND(e1, AND(mkNot(mz), mkNot(q)))); add(1, AND(e1, AND(mkNot(mz), q)));
  add(2, AND(sg, AND(e1, mz))); add(9, AND(ns, AND(e1, mz)));
  E nrm = AND(mkNot(e0), mkNot(e1)); add(3, AND(sg, nrm)); add(8, AND(ns, nrm));
  add(4, AND(sg, AND(e0, mkNot(mz)))); add(7, AND(ns, AND(e0, mkNot(mz)))); add(5, AND(sg, AND(e0, mz))); add(6, AND(ns, AND(e0, mz)));
  fin(X, s, d, VE(r));
}
static void h_assume(Executor &X, State &s, DI &d) { fin(X, s, d); }
static void h_dynstack(Executor &X, State &s, DI &d) { fin(X, s, d, Val(0)); }

// --- exceptions ---
static void h_exalloc(Executor &X, State &s, DI &d) { uint64_t n = A(X, s, d, 0).c; uint64_t a = X.alloc(s, n, OK_Heap, 0xBE, d.I, 9); s.exc[a] = ExcObj{a, 0, 0, 0, a}; fin(X, s, d, Val(a)); }
static void h_exfree(Executor &X, State &s, DI &d) { uint64_t a = A(X, s, d, 0).c; s.exc.erase(a); s.mem.set(AO(a), tomb()); fin(X, s, d); }
static void h_throw(Executor &X, State &s, DI &d) {
  uint64_t a = A(X, s, d, 0).c; auto &e = s.exc[a]; e.obj = a; e.type = A(X, s, d, 1).c; e.dtor = A(X, s, d, 2).c;
  s.notes.push_back("throw " + X.gname(e.type));
  X.throwExc(s, a);
}
static void h_rethrow(Executor &X, State &s, DI &d) {
  auto &c = s.th[s.cur].caught; if (c.empty()) X.memError(s, "rethrow without exception (terminate)", nullptr);
  uint64_t a = c.back(); s.exc[a].handlers = -std::abs(s.exc[a].handlers); X.throwExc(s, a);
}
static void h_begincatch(Executor &X, State &s, DI &d) { uint64_t a = A(X, s, d, 0).c; auto &e = s.exc[a]; e.handlers = std::abs(e.handlers) + 1; s.th[s.cur].caught.push_back(a); fin(X, s, d, Val(e.adjusted)); }
static void h_getexptr(Executor &X, State &s, DI &d) { fin(X, s, d, A(X, s, d, 0)); }
static void h_endcatch(Executor &X, State &s, DI &d) {
  auto &c = s.th[s.cur].caught; if (c.empty()) { fin(X, s, d); return; }
  uint64_t a = c.back(); c.pop_back(); auto &e = s.exc[a];
  bool rethrown = e.handlers < 0;
  if (rethrown) { e.handlers++; e.handlers = -e.handlers; if (e.handlers > 0) e.handlers = -e.handlers; fin(X, s, d); return; }
  e.handlers--;
  uint64_t dtor = e.dtor; bool kill = e.handlers == 0;
  fin(X, s, d);
  if (kill && dtor) { auto it = X.gobj.find(AO(dtor)); if (it != X.gobj.end()) { auto *F = const_cast<Function *>(cast<Function>(it->second)); if (!F->isDeclaration()) X.pushCall(s, F, {Val(a)}, true); } }
}
static void h_terminate(Executor &X, State &s, DI &d) { X.violation(s, "abort", "std::terminate", nullptr); throw PathEnd(); }
static void h_abort(Executor &X, State &s, DI &d) { X.violation(s, "abort", "abort()", nullptr); throw PathEnd(); }
static void h_exit(Executor &X, State &s, DI &d) { throw PathEnd(); }
static void h_purevirt(Executor &X, State &s, DI &d) { X.memError(s, "pure virtual call", nullptr); }
static void h_assertfail(Executor &X, State &s, DI &d) { std::string m = X.readStr(s, A(X, s, d, 0)); X.violation(s, "abort", "assertion in the code failed: " + m, nullptr); throw PathEnd(); }
static void h_dyncast(Executor &X, State &s, DI &d) {
  uint64_t p = X.concretize(s, A(X, s, d, 0), 64, "dynamic_cast operand"), dstTi = A(X, s, d, 2).c;
  if (!p) { fin(X, s, d, Val(0)); return; }
  uint64_t vt = X.concretize(s, X.loadRaw(s, Val(p), 8), 64, "vptr");
  uint64_t top = X.loadRaw(s, Val(vt - 16), 8).c, ti = X.loadRaw(s, Val(vt - 8), 8).c;
  uint64_t full = p + top; int64_t off = 0;
  if (X.baseOf(s, ti, dstTi, off, full)) fin(X, s, d, Val(full + off)); else fin(X, s, d, Val(0));
}
static void h_guardacq(Executor &X, State &s, DI &d) {
  Val p = A(X, s, d, 0); Val v = X.loadRaw(s, p, 1); if (v.c) { X.acquire(s, p.c); fin(X, s, d, Val(0)); return; }
  uint64_t own = X.loadRaw(s, padd(p, 1), 1).c;
  if (own && own != (uint64_t)s.cur + 1) { s.th[s.cur].status = 1; s.th[s.cur].waitOn = p.c; if (!X.switchAway(s)) throw PathEnd(); throw Retry(); }
  X.storeRaw(s, padd(p, 1), Val(s.cur + 1), 1);
  fin(X, s, d, Val(1)); }
static void h_guardrel(Executor &X, State &s, DI &d) { Val p = A(X, s, d, 0); X.storeRaw(s, p, Val(1), 1); X.storeRaw(s, padd(p, 1), Val(0), 1); X.release(s, p.c);
  for (auto &t : s.th) if (t.status == 1 && t.waitOn == p.c) t.status = 0;
  fin(X, s, d); }

// --- threads: pthread mutex {owner+1 : 4, count : 4, kind at 16} ---
static void h_mtxinit(Executor &X, State &s, DI &d) {
  Val p = A(X, s, d, 0); X.storeRaw(s, p, Val(0), 8); uint64_t k = 0;
  if (d.ops.size() > 1) { uint64_t at = A(X, s, d, 1).c; if (at) k = X.loadRaw(s, Val(at), 4).c & 0x7f; }
  X.storeRaw(s, padd(p, 16), Val(k), 4); fin(X, s, d, Val(0)); }
static void h_attrinit(Executor &X, State &s, DI &d) { X.storeRaw(s, A(X, s, d, 0), Val(0), 4); fin(X, s, d, Val(0)); }
static void h_attrtype(Executor &X, State &s, DI &d) { X.storeRaw(s, A(X, s, d, 0), Val(A(X, s, d, 1).c), 4); fin(X, s, d, Val(0)); }
static void h_lock(Executor &X, State &s, DI &d) {
  X.schedPoint(s);
  uint64_t p = A(X, s, d, 0).c;
  uint64_t own = X.loadRaw(s, Val(p), 4).c, kind = X.loadRaw(s, Val(p + 16), 4).c;
  if (own == 0) { X.acquire(s, p); X.storeRaw(s, Val(p), Val(s.cur + 1), 4); X.storeRaw(s, Val(p + 4), Val(1), 4); fin(X, s, d, Val(0)); return; }
  if (own == (uint64_t)s.cur + 1 && kind == 1) { uint64_t c = X.loadRaw(s, Val(p + 4), 4).c; X.storeRaw(s, Val(p + 4), Val(c + 1), 4); fin(X, s, d, Val(0)); return; }
  if (own == (uint64_t)s.cur + 1) { X.violation(s, "deadlock", "thread locks a mutex it already holds", nullptr); throw PathEnd(); }
  s.th[s.cur].status = 1; s.th[s.cur].waitOn = p;
  if (!X.switchAway(s)) throw PathEnd();
  throw Retry();
}
static void h_trylock(Executor &X, State &s, DI &d) {
  X.schedPoint(s);
  uint64_t p = A(X, s, d, 0).c; uint64_t own = X.loadRaw(s, Val(p), 4).c;
  if (own == 0) { X.acquire(s, p); X.storeRaw(s, Val(p), Val(s.cur + 1), 4); X.storeRaw(s, Val(p + 4), Val(1), 4); fin(X, s, d, Val(0)); } else fin(X, s, d, Val(16));
}
static void h_unlock(Executor &X, State &s, DI &d) {
  uint64_t p = A(X, s, d, 0).c; uint64_t own = X.loadRaw(s, Val(p), 4).c, c = X.loadRaw(s, Val(p + 4), 4).c;
  if (own != (uint64_t)s.cur + 1) X.memError(s, "unlock of a mutex not held by this thread", nullptr);
  if (c <= 1) { X.release(s, p); X.storeRaw(s, Val(p), Val(0), 8); for (auto &t : s.th) if (t.status == 1 && t.waitOn == p) t.status = 0; }
  else X.storeRaw(s, Val(p + 4), Val(c - 1), 4);
  fin(X, s, d, Val(0));
}
static void h_thcreate(Executor &X, State &s, DI &d) { // int sym_thread_create(fn, arg)
  uint64_t fn = A(X, s, d, 0).c; Val arg = A(X, s, d, 1);
  auto *F = const_cast<Function *>(cast<Function>(X.gobj[AO(fn)]));
  int me = s.cur; s.th.emplace_back(); int id = s.th.size() - 1;
  if (s.solo) { s.solo = false; s.shadow.clear(); s.sync.clear(); s.slots = 1; s.th[me].rs = 0; s.th[me].vc.assign(1, 1); }
  int ns = s.slots++; s.th[id].rs = ns; auto &mv = s.th[me].vc; mv.resize(s.slots); if (!mv[s.th[me].rs]) mv[s.th[me].rs] = 1;
  s.th[id].vc = mv; s.th[id].vc[ns] = 1; mv[s.th[me].rs]++;
  s.cur = id; X.pushCall(s, F, {arg}, false); s.cur = me;
  X.threadsMax = std::max<uint64_t>(X.threadsMax, s.th.size());
  fin(X, s, d, Val(id));
}
static void h_thjoin(Executor &X, State &s, DI &d) {
  int id = (int)A(X, s, d, 0).c;
  if (s.th[id].status == 3) { vcJoin(s.th[s.cur].vc, s.th[id].vc);
    if (!s.solo) { auto &mv = s.th[s.cur].vc; bool solo = true; for (auto &o : s.th) if (&o != &s.th[s.cur] && o.rs != s.th[s.cur].rs && o.rs < s.slots) { if (o.status != 3) solo = false; else for (size_t k = 0; k < o.vc.size(); k++) if (o.vc[k] > (k < mv.size() ? mv[k] : 0)) solo = false; }
      if (solo) { s.solo = true; s.shadow.clear(); s.sync.clear(); for (auto &o : s.th) { o.rs = 1 << 30; o.vc.clear(); } s.th[s.cur].rs = 0; } }
     s.th[s.cur].schedDone = false; fin(X, s, d); return; }
  // wait: runs other threads; this thread stays blocked until id is done
  s.th[s.cur].status = 2; s.th[s.cur].waitOn = id;
  if (!X.switchAway(s)) throw PathEnd();
  throw Retry();
}
static void h_thself(Executor &X, State &s, DI &d) { fin(X, s, d, Val(s.cur)); }
static void h_yield(Executor &X, State &s, DI &d) { X.schedPoint(s); fin(X, s, d); }

// --- harness primitives ---
static void h_symbits(Executor &X, State &s, DI &d) { // uint64_t sym_bits(unsigned width, const char* name)
  uint32_t w = (uint32_t)A(X, s, d, 0).c; std::string n = X.readStr(s, A(X, s, d, 1));
  // one variable per (name, occurrence): identical across paths
  uint64_t k = s.kv["sym:" + n]++;
  static std::map<std::string, E> vars; std::string key = n + "#" + std::to_string(k) + ":" + std::to_string(w);
  E &v = vars[key]; if (!v) v = mkVar(n + (k ? "_" + std::to_string(k) : ""), w);
  s.inputs.push_back({n, VE(v)}); s.inputW.push_back(w);
  fin(X, s, d, VE(mkZExt(v, 64)));
}
static void h_assumeH(Executor &X, State &s, DI &d) {
  Val c = A(X, s, d, 0); E e;
  if (c.e) e = mkNot(mkBin(K::Eq, mkConst(0, c.e->w), c.e)); else e = mkConst((c.c & 0xff) != 0 || c.c != 0, 1);
  if (isFalse(e)) throw PathEnd();
  if (!isTrue(e)) { std::shared_ptr<Model> m; if (!X.mayBeTrue(s, e, &m)) throw PathEnd(); X.addC(s, e); s.model = m; }
  fin(X, s, d);
}
static void h_assertH(Executor &X, State &s, DI &d) {
  Val c = A(X, s, d, 0); std::string lab = X.readStr(s, A(X, s, d, 1));
  X.asserted.insert(lab); X.reached["assert:" + lab]++; X.assertQ++;
  E e; if (c.e) e = mkNot(mkBin(K::Eq, mkConst(0, c.e->w), c.e)); else e = mkConst(c.c != 0, 1);
  if (!isTrue(e)) {
    E ne = mkNot(e); std::shared_ptr<Model> m;
    auto k = s.known.find(e->id);
    bool may = k != s.known.end() ? !k->second : X.mayBeTrue(s, ne, &m);
    if (may) {
      X.violation(s, "assert", lab, ne);
      std::shared_ptr<Model> m2;
      if (isFalse(e) || !X.mayBeTrue(s, e, &m2)) throw PathEnd();
      X.addC(s, e); s.model = m2;
    } else s.known[e->id] = 1;
  }
  fin(X, s, d);
}
static void h_reach(Executor &X, State &s, DI &d) { X.reached[X.readStr(s, A(X, s, d, 0))]++; fin(X, s, d); }
static void h_conc(Executor &X, State &s, DI &d) { uint64_t v = X.concretize(s, A(X, s, d, 0), 64, "sym_concretize"); fin(X, s, d, Val(v)); }
static void h_engine(Executor &X, State &s, DI &d) { fin(X, s, d, Val(1)); }
static void h_issym(Executor &X, State &s, DI &d) { fin(X, s, d, Val(A(X, s, d, 0).e ? 1 : 0)); }
static void h_fpmode(Executor &X, State &s, DI &d) { fin(X, s, d, Val(g_fpMode)); }
static void h_debug(Executor &X, State &s, DI &d) { Val v = A(X, s, d, 1); fprintf(stderr, "[dbg] %s = %s\n", X.readStr(s, A(X, s, d, 0)).c_str(), v.e ? show(v.e, 8).c_str() : std::to_string((int64_t)v.c).c_str()); fin(X, s, d); }
static void h_giveup(Executor &X, State &s, DI &d) { X.giveUp(s, X.readStr(s, A(X, s, d, 0))); }
static void h_objsizeof(Executor &X, State &s, DI &d) { uint64_t a = X.concretize(s, A(X, s, d, 0), 64, "ptr"); MemObj *o = s.mem.rd(AO(a)); fin(X, s, d, Val(o && o->kind != OK_Freed && a >= 0x10000 ? o->size - OFF(a) : 0)); }
static void h_heapbytes(Executor &X, State &s, DI &d) { // live heap objects
  uint64_t n = 0; for (uint32_t i = 1; i < s.mem.n; i++) { MemObj *o = s.mem.rd(i); if (o && o->kind == OK_Heap) n++; } fin(X, s, d, Val(n)); }
static void h_snprintf(Executor &X, State &s, DI &d) { // minimal: writes empty string
  uint64_t n = A(X, s, d, 1).c; if (n) X.storeRaw(s, A(X, s, d, 0), Val(0), 1); fin(X, s, d, Val(0)); }
static void h_vastart(Executor &X, State &s, DI &d) { X.giveUp(s, "va_start"); }
// exact fold of IEEE ordering without branching: |a-b| etc. are left to harness code

struct Init { Init() {
  auto R = [&](std::initializer_list<const char *> ns, Handler h) { for (auto n : ns) H[n] = h; };
  R({"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"}, h_memcpy);
  R({"llvm.memset", "memset"}, h_memset);
  R({"memcmp", "bcmp"}, h_memcmp); R({"memchr"}, h_memchr); R({"strlen"}, h_strlen); R({"strcmp"}, h_strcmp); R({"strncmp"}, h_strncmp);
  R({"malloc"}, h_malloc); R({"calloc"}, h_calloc); R({"realloc"}, h_realloc); R({"free"}, h_free);
  R({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}, h_new); R({"_Znam"}, h_newa); R({"_ZnamRKSt9nothrow_t"}, h_newan);
  R({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, h_del); R({"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}, h_dela);
  R({"llvm.smax"}, h_smax); R({"llvm.smin"}, h_smin); R({"llvm.umax"}, h_umax); R({"llvm.umin"}, h_umin); R({"llvm.abs"}, h_abs); R({"abs", "labs"}, h_iabs);
  R({"llvm.usub.sat"}, h_usubsat); R({"llvm.uadd.sat"}, h_uaddsat); R({"llvm.bswap"}, h_bswap); R({"llvm.ctpop"}, h_ctpop); R({"llvm.ctlz"}, h_ctlz); R({"llvm.cttz"}, h_cttz);
  R({"llvm.fshl"}, h_fshl); R({"llvm.fshr"}, h_fshr); R({"llvm.bitreverse"}, h_bitreverse);
  R({"llvm.fabs", "fabs", "fabsf"}, h_fabs); R({"llvm.sqrt", "sqrt", "sqrtf"}, h_sqrt); R({"llvm.floor", "floor", "floorf"}, h_floor); R({"llvm.ceil", "ceil", "ceilf"}, h_ceil);
  R({"llvm.trunc", "trunc", "truncf"}, h_trunc); R({"llvm.rint", "llvm.nearbyint", "rint", "rintf", "nearbyint"}, h_rint); R({"llvm.round", "round", "roundf"}, h_round);
  R({"llvm.minnum", "fmin", "fminf", "llvm.minimum"}, h_fmin); R({"llvm.maxnum", "fmax", "fmaxf", "llvm.maximum"}, h_fmax); R({"llvm.fma", "llvm.fmuladd"}, h_fma); R({"llvm.copysign", "copysign"}, h_copysign);
  R({"exp", "expf", "llvm.exp"}, h_exp); R({"exp2", "exp2f", "llvm.exp2"}, h_exp2); R({"log", "logf", "llvm.log"}, h_log); R({"log2", "log2f", "llvm.log2"}, h_log2); R({"log10", "llvm.log10"}, h_log10);
  R({"sin", "sinf", "llvm.sin"}, h_sin); R({"cos", "cosf", "llvm.cos"}, h_cos); R({"tan", "tanf"}, h_tan); R({"asin"}, h_asin); R({"acos"}, h_acos); R({"atan"}, h_atan); R({"pow", "powf", "llvm.pow"}, h_pow); R({"atan2"}, h_atan2); R({"fmod", "fmodf"}, h_fmod);
  R({"lround", "lroundf"}, h_lround); R({"toupper"}, h_toupper); R({"tolower"}, h_tolower); R({"isdigit"}, h_isdigit); R({"isnan", "__isnan", "__isnanf"}, h_isnan);
  R({"llvm.uadd.with.overflow"}, h_uaddo); R({"llvm.usub.with.overflow"}, h_usubo); R({"llvm.umul.with.overflow"}, h_umulo);
  R({"llvm.sadd.with.overflow"}, h_saddo); R({"llvm.ssub.with.overflow"}, h_ssubo); R({"llvm.smul.with.overflow"}, h_smulo);
  R({"llvm.lifetime.start", "llvm.lifetime.end", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.stackrestore", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.va_end", "llvm.sideeffect"}, h_nop);
  R({"llvm.assume"}, h_assume); R({"llvm.stacksave"}, h_dynstack);
  R({"llvm.expect", "llvm.ptrmask", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.threadlocal.address"}, h_retarg0);
  R({"llvm.is.constant"}, h_isconst); R({"llvm.objectsize"}, h_objsize); R({"llvm.trap", "llvm.ubsantrap", "llvm.debugtrap"}, h_trap); R({"llvm.eh.typeid.for"}, h_typeidfor); R({"llvm.is.fpclass"}, h_classify); R({"llvm.va_start"}, h_vastart);
  R({"__cxa_allocate_exception"}, h_exalloc); R({"__cxa_free_exception"}, h_exfree); R({"__cxa_throw"}, h_throw); R({"__cxa_rethrow"}, h_rethrow); R({"__cxa_begin_catch"}, h_begincatch); R({"__cxa_get_exception_ptr"}, h_getexptr); R({"__cxa_end_catch"}, h_endcatch);
  R({"_ZSt9terminatev", "__clang_call_terminate", "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_throw_bad_array_new_length"}, h_terminate); R({"abort"}, h_abort); R({"exit", "_exit"}, h_exit); R({"__cxa_pure_virtual"}, h_purevirt); R({"__assert_fail"}, h_assertfail); R({"__dynamic_cast"}, h_dyncast);
  R({"__cxa_guard_acquire"}, h_guardacq); R({"__cxa_guard_release"}, h_guardrel); R({"__cxa_guard_abort"}, h_nop); R({"__cxa_atexit", "atexit", "__cxa_thread_atexit"}, h_ret0);
  R({"pthread_mutex_init"}, h_mtxinit); R({"pthread_mutex_destroy", "pthread_mutexattr_destroy"}, h_ret0); R({"pthread_mutexattr_init"}, h_attrinit); R({"pthread_mutexattr_settype"}, h_attrtype);
  R({"pthread_mutex_lock"}, h_lock); R({"pthread_mutex_trylock"}, h_trylock); R({"pthread_mutex_unlock"}, h_unlock);
  R({"pthread_cond_init", "pthread_cond_destroy", "pthread_condattr_init", "pthread_condattr_setclock", "pthread_condattr_destroy", "pthread_cond_signal", "pthread_cond_broadcast"}, h_ret0);
  R({"sym_thread_create"}, h_thcreate); R({"sym_thread_join"}, h_thjoin); R({"pthread_self", "sym_thread_self"}, h_thself); R({"sym_yield"}, h_yield);
  R({"sym_bits"}, h_symbits); R({"sym_assume_"}, h_assumeH); R({"sym_assert_"}, h_assertH); R({"sym_reach"}, h_reach); R({"sym_conc"}, h_conc); R({"sym_in_engine"}, h_engine); R({"sym_is_symbolic"}, h_issym); R({"sym_fpmode"}, h_fpmode); R({"sym_debug"}, h_debug); R({"sym_giveup"}, h_giveup);
  R({"sym_objsize"}, h_objsizeof); R({"sym_live_objects"}, h_heapbytes);
  R({"printf", "fprintf", "puts", "putchar", "fflush", "fputs", "fputc", "fwrite", "usleep", "sleep", "getenv", "setenv", "unlink", "remove", "time", "getpid", "perror", "vprintf"}, h_ret0);
  R({"snprintf"}, h_snprintf);
} } g_init;
