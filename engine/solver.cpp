#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>

SolverStats g_ss;
unsigned g_queryTimeoutMs = 60000;
std::string g_dumpDir;
static Z3_context C;
static std::unordered_map<uint32_t, Z3_ast> g_bv, g_fp, g_real; // expr id -> ast
static std::unordered_map<uint32_t, Z3_ast> g_varAst, g_varReal;
static std::unordered_map<std::string, Z3_func_decl> g_uf;
static bool g_z3err = false;

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); g_z3err = true;
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_global_param_set("memory_max_size", "6000");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, errh);
  Z3_del_config(cfg);
}
static Z3_sort bvS(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_sort fpS(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, bvS(w)); }

static Z3_ast toBV(E e);
static Z3_ast toFP(E e);
static Z3_ast toReal(E e);
static Z3_ast toBool(E e);

static Z3_ast uf(const std::string &name, std::vector<Z3_ast> args, std::vector<unsigned> ws, unsigned rw) {
  std::string key = name;
  for (unsigned w : ws) key += "_" + std::to_string(w);
  key += "_r" + std::to_string(rw);
  auto it = g_uf.find(key);
  if (it == g_uf.end()) {
    std::vector<Z3_sort> s; for (unsigned w : ws) s.push_back(bvS(w));
    it = g_uf.emplace(key, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, key.c_str()), s.size(), s.data(), bvS(rw))).first;
  }
  return Z3_mk_app(C, it->second, args.size(), args.data());
}
static Z3_ast ufReal(const std::string &name, std::vector<Z3_ast> args) {
  std::string key = "R_" + name + std::to_string(args.size());
  auto it = g_uf.find(key);
  Z3_sort R = Z3_mk_real_sort(C);
  if (it == g_uf.end()) {
    std::vector<Z3_sort> s(args.size(), R);
    it = g_uf.emplace(key, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, key.c_str()), s.size(), s.data(), R)).first;
  }
  return Z3_mk_app(C, it->second, args.size(), args.data());
}
static const char *opn(K k) {
  switch (k) { case K::FAdd: return "fadd"; case K::FSub: return "fsub"; case K::FMul: return "fmul"; case K::FDiv: return "fdiv";
  case K::FSqrt: return "fsqrt"; case K::FRound: return "fround"; case K::FMin: return "fmin"; case K::FMax: return "fmax";
  case K::FOeq: return "foeq"; case K::FOlt: return "folt"; case K::FOle: return "fole"; case K::FUno: return "funo";
  case K::FExt: return "fext"; case K::FTrunc: return "ftrunc"; case K::FToSI: return "ftosi"; case K::FToUI: return "ftoui";
  case K::SIToF: return "sitof"; case K::UIToF: return "uitof"; default: return "fop"; }
}
static bool isFPOp(K k) {
  switch (k) { case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FSqrt: case K::FAbs: case K::FNeg: case K::FRound:
  case K::FMin: case K::FMax: case K::FExt: case K::FTrunc: case K::SIToF: case K::UIToF: return true; default: return false; }
}
static Z3_ast rne() { return Z3_mk_fpa_rne(C); }

static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, bvc(1, 1), bvc(0, 1)); }

static Z3_ast toFPNode(E e) {
  switch (e->k) {
  case K::FAdd: return Z3_mk_fpa_add(C, rne(), toFP(e->o[0]), toFP(e->o[1]));
  case K::FSub: return Z3_mk_fpa_sub(C, rne(), toFP(e->o[0]), toFP(e->o[1]));
  case K::FMul: return Z3_mk_fpa_mul(C, rne(), toFP(e->o[0]), toFP(e->o[1]));
  case K::FDiv: return Z3_mk_fpa_div(C, rne(), toFP(e->o[0]), toFP(e->o[1]));
  case K::FMin: return Z3_mk_fpa_min(C, toFP(e->o[0]), toFP(e->o[1]));
  case K::FMax: return Z3_mk_fpa_max(C, toFP(e->o[0]), toFP(e->o[1]));
  case K::FSqrt: return Z3_mk_fpa_sqrt(C, rne(), toFP(e->o[0]));
  case K::FAbs: return Z3_mk_fpa_abs(C, toFP(e->o[0]));
  case K::FNeg: return Z3_mk_fpa_neg(C, toFP(e->o[0]));
  case K::FRound: {
    Z3_ast rm = e->imm == RM_FLOOR ? Z3_mk_fpa_rtn(C) : e->imm == RM_CEIL ? Z3_mk_fpa_rtp(C) : e->imm == RM_TRUNC ? Z3_mk_fpa_rtz(C)
              : e->imm == RM_NEAREST_EVEN ? rne() : Z3_mk_fpa_rna(C);
    return Z3_mk_fpa_round_to_integral(C, rm, toFP(e->o[0])); }
  case K::FExt: case K::FTrunc: return Z3_mk_fpa_to_fp_float(C, rne(), toFP(e->o[0]), fpS(e->w));
  case K::SIToF: return Z3_mk_fpa_to_fp_signed(C, rne(), toBV(e->o[0]), fpS(e->w));
  case K::UIToF: return Z3_mk_fpa_to_fp_unsigned(C, rne(), toBV(e->o[0]), fpS(e->w));
  case K::Ite: return Z3_mk_ite(C, toBool(e->o[0]), toFP(e->o[1]), toFP(e->o[2]));
  default: return Z3_mk_fpa_to_fp_bv(C, toBV(e), fpS(e->w));
  }
}
static Z3_ast toFP(E e) {
  auto it = g_fp.find(e->id);
  if (it != g_fp.end()) return it->second;
  Z3_ast r = toFPNode(e);
  g_fp[e->id] = r; return r;
}

static Z3_ast rnum(double d) {
  // exact rational of a double
  int ex; double m = frexp(d, &ex); // d = m*2^ex
  long long mi = (long long)ldexp(m, 53); ex -= 53;
  Z3_sort R = Z3_mk_real_sort(C);
  Z3_ast a = Z3_mk_int64(C, mi, R);
  if (ex == 0) return a;
  std::string p = "1"; // 2^|ex| as decimal through z3 power is awkward: multiply
  Z3_ast two = Z3_mk_int(C, 2, R);
  Z3_ast pw = Z3_mk_int(C, 1, R);
  int n = ex < 0 ? -ex : ex;
  // build decimal string by repeated doubling
  std::vector<int> dg{1};
  for (int i = 0; i < n; i++) { int c = 0; for (auto &x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dg.push_back(c); }
  std::string s; for (int i = (int)dg.size() - 1; i >= 0; i--) s += char('0' + dg[i]);
  (void)two; (void)pw;
  pw = Z3_mk_numeral(C, s.c_str(), R);
  Z3_ast aa[2] = {a, pw};
  return Z3_simplify(C, ex < 0 ? Z3_mk_div(C, a, pw) : Z3_mk_mul(C, 2, aa));
}
static Z3_ast toRealNode(E e) {
  Z3_ast a[2];
  switch (e->k) {
  case K::Const: { double d = e->w == 32 ? (double)bits2f(e->imm) : bits2d(e->imm);
    if (!std::isfinite(d)) { return ufReal("nonfinite" + std::to_string(e->imm), {rnum(0)}); }
    return rnum(d); }
  case K::FAdd: a[0] = toReal(e->o[0]); a[1] = toReal(e->o[1]); return Z3_mk_add(C, 2, a);
  case K::FSub: a[0] = toReal(e->o[0]); a[1] = toReal(e->o[1]); return Z3_mk_sub(C, 2, a);
  case K::FMul: a[0] = toReal(e->o[0]); a[1] = toReal(e->o[1]); return Z3_mk_mul(C, 2, a);
  case K::FDiv: return Z3_mk_div(C, toReal(e->o[0]), toReal(e->o[1]));
  case K::FMin: a[0] = toReal(e->o[0]); a[1] = toReal(e->o[1]); return Z3_mk_ite(C, Z3_mk_le(C, a[0], a[1]), a[0], a[1]);
  case K::FMax: a[0] = toReal(e->o[0]); a[1] = toReal(e->o[1]); return Z3_mk_ite(C, Z3_mk_le(C, a[0], a[1]), a[1], a[0]);
  case K::FAbs: { Z3_ast x = toReal(e->o[0]); return Z3_mk_ite(C, Z3_mk_le(C, x, rnum(0)), Z3_mk_unary_minus(C, x), x); }
  case K::FNeg: return Z3_mk_unary_minus(C, toReal(e->o[0]));
  case K::FExt: case K::FTrunc: return toReal(e->o[0]);
  case K::FSqrt: return ufReal("sqrt", {toReal(e->o[0])});
  case K::FUn: { std::string n = g_ufNames[e->imm]; if (e->o[1]) return ufReal(n, {toReal(e->o[0]), toReal(e->o[1])}); return ufReal(n, {toReal(e->o[0])}); }
  case K::FRound: { Z3_ast x = toReal(e->o[0]);
    Z3_ast fl = Z3_mk_int2real(C, Z3_mk_real2int(C, x));
    if (e->imm == RM_FLOOR) return fl;
    Z3_ast nx = Z3_mk_unary_minus(C, x);
    Z3_ast ce = Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, nx)));
    if (e->imm == RM_CEIL) return ce;
    return Z3_mk_ite(C, Z3_mk_ge(C, x, rnum(0)), fl, ce); }
  case K::SIToF: return Z3_mk_int2real(C, Z3_mk_bv2int(C, toBV(e->o[0]), true));
  case K::UIToF: return Z3_mk_int2real(C, Z3_mk_bv2int(C, toBV(e->o[0]), false));
  case K::Ite: return Z3_mk_ite(C, toBool(e->o[0]), toReal(e->o[1]), toReal(e->o[2]));
  case K::Var: { auto it = g_varReal.find(e->imm); if (it != g_varReal.end()) return it->second;
    Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, ("r" + std::to_string(e->imm) + "_" + g_vars[e->imm].name).c_str()), Z3_mk_real_sort(C));
    g_varReal[e->imm] = v; return v; }
  default: { // opaque bits
    Z3_ast v = Z3_mk_fresh_const(C, "opq", Z3_mk_real_sort(C)); return v; }
  }
}
static Z3_ast toReal(E e) {
  auto it = g_real.find(e->id);
  if (it != g_real.end()) return it->second;
  Z3_ast r = toRealNode(e);
  g_real[e->id] = r; return r;
}

// boolean-sorted ast for width-1 exprs
static std::unordered_map<uint32_t, Z3_ast> g_bool;
static Z3_ast toBoolNode(E e) {
  Z3_ast a[2];
  switch (e->k) {
  case K::Const: return e->imm ? Z3_mk_true(C) : Z3_mk_false(C);
  case K::And: a[0] = toBool(e->o[0]); a[1] = toBool(e->o[1]); return Z3_mk_and(C, 2, a);
  case K::Or: a[0] = toBool(e->o[0]); a[1] = toBool(e->o[1]); return Z3_mk_or(C, 2, a);
  case K::Xor: if (isTrue(e->o[0])) return Z3_mk_not(C, toBool(e->o[1])); return Z3_mk_xor(C, toBool(e->o[0]), toBool(e->o[1]));
  case K::Eq: if (e->o[0]->w == 1) return Z3_mk_iff(C, toBool(e->o[0]), toBool(e->o[1])); return Z3_mk_eq(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Ult: return Z3_mk_bvult(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Ule: return Z3_mk_bvule(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Slt: return Z3_mk_bvslt(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Sle: return Z3_mk_bvsle(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Ite: return Z3_mk_ite(C, toBool(e->o[0]), toBool(e->o[1]), toBool(e->o[2]));
  case K::FOeq: case K::FOlt: case K::FOle: case K::FUno:
    if (g_fpMode == 2) {
      if (e->k == K::FUno) return Z3_mk_false(C);
      Z3_ast x = toReal(e->o[0]), y = toReal(e->o[1]);
      return e->k == K::FOeq ? Z3_mk_eq(C, x, y) : e->k == K::FOlt ? Z3_mk_lt(C, x, y) : Z3_mk_le(C, x, y);
    }
    if (g_fpMode == 1) {
      unsigned w = e->o[0]->w;
      return Z3_mk_eq(C, uf(opn(e->k), {toBV(e->o[0]), toBV(e->o[1])}, {w, w}, 1), bvc(1, 1));
    }
    if (e->k == K::FUno) { a[0] = Z3_mk_fpa_is_nan(C, toFP(e->o[0])); a[1] = Z3_mk_fpa_is_nan(C, toFP(e->o[1])); return Z3_mk_or(C, 2, a); }
    if (e->k == K::FOeq) return Z3_mk_fpa_eq(C, toFP(e->o[0]), toFP(e->o[1]));
    if (e->k == K::FOlt) return Z3_mk_fpa_lt(C, toFP(e->o[0]), toFP(e->o[1]));
    return Z3_mk_fpa_leq(C, toFP(e->o[0]), toFP(e->o[1]));
  default: return Z3_mk_eq(C, toBV(e), bvc(1, 1));
  }
}
static Z3_ast toBool(E e) {
  auto it = g_bool.find(e->id);
  if (it != g_bool.end()) return it->second;
  Z3_ast r = toBoolNode(e);
  g_bool[e->id] = r; return r;
}

static Z3_ast toBVNode(E e) {
  switch (e->k) {
  case K::Const: return bvc(e->imm, e->w);
  case K::Var: { auto it = g_varAst.find(e->imm); if (it != g_varAst.end()) return it->second;
    Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(e->imm) + "_" + g_vars[e->imm].name).c_str()), bvS(e->w));
    g_varAst[e->imm] = v; return v; }
  case K::Add: return Z3_mk_bvadd(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Sub: return Z3_mk_bvsub(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Mul: return Z3_mk_bvmul(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::UDiv: return Z3_mk_bvudiv(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::SDiv: return Z3_mk_bvsdiv(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::URem: return Z3_mk_bvurem(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::SRem: return Z3_mk_bvsrem(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Shl: return Z3_mk_bvshl(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::LShr: return Z3_mk_bvlshr(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::AShr: return Z3_mk_bvashr(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::And: if (e->w == 1) break; return Z3_mk_bvand(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Or: if (e->w == 1) break; return Z3_mk_bvor(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Xor: if (e->w == 1) break; return Z3_mk_bvxor(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Ite: return Z3_mk_ite(C, toBool(e->o[0]), toBV(e->o[1]), toBV(e->o[2]));
  case K::Concat: return Z3_mk_concat(C, toBV(e->o[0]), toBV(e->o[1]));
  case K::Extract: return Z3_mk_extract(C, e->imm + e->w - 1, e->imm, toBV(e->o[0]));
  case K::ZExt: return Z3_mk_zero_ext(C, e->w - e->o[0]->w, toBV(e->o[0]));
  case K::SExt: return Z3_mk_sign_ext(C, e->w - e->o[0]->w, toBV(e->o[0]));
  case K::FAbs: return Z3_mk_bvand(C, toBV(e->o[0]), bvc(maskw(e->w) >> 1, e->w));
  case K::FNeg: return Z3_mk_bvxor(C, toBV(e->o[0]), bvc(1ull << (e->w - 1), e->w));
  case K::FUn: { std::string n = "fn_" + g_ufNames[e->imm];
    if (e->o[1]) return uf(n, {toBV(e->o[0]), toBV(e->o[1])}, {e->o[0]->w, e->o[1]->w}, e->w);
    return uf(n, {toBV(e->o[0])}, {e->o[0]->w}, e->w); }
  case K::FToSI: case K::FToUI:
    if (g_fpMode == 1) return uf(opn(e->k), {toBV(e->o[0])}, {e->o[0]->w}, e->w);
    if (g_fpMode == 2) {
      Z3_ast x = toReal(e->o[0]);
      Z3_ast fl = Z3_mk_real2int(C, x);
      Z3_ast tr = Z3_mk_ite(C, Z3_mk_ge(C, x, rnum(0)), fl, Z3_mk_unary_minus(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x))));
      return Z3_mk_int2bv(C, e->w, tr);
    }
    {
      Z3_ast x = toFP(e->o[0]);
      unsigned cw = e->w <= 32 ? 32 : 64;
      bool uns64 = e->k == K::FToUI && cw == 64;
      if (e->k == K::FToUI && cw == 32) cw = 64; // cvttss2si r64
      double lo = -std::ldexp(1.0, cw - 1), hi = std::ldexp(1.0, cw - 1);
      Z3_sort s = fpS(e->o[0]->w);
      if (uns64) { // approximate: in-range unsigned conversion, else 2^63
        Z3_ast in[2] = {Z3_mk_fpa_geq(C, x, Z3_mk_fpa_numeral_double(C, 0.0, s)), Z3_mk_fpa_lt(C, x, Z3_mk_fpa_numeral_double(C, 18446744073709551616.0, s))};
        Z3_ast neg[2] = {Z3_mk_fpa_lt(C, x, Z3_mk_fpa_numeral_double(C, 0.0, s)), Z3_mk_fpa_geq(C, x, Z3_mk_fpa_numeral_double(C, lo, s))};
        return Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), x, 64),
               Z3_mk_ite(C, Z3_mk_and(C, 2, neg), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), x, 64), bvc(1ull << 63, 64)));
      }
      // in range iff lo-1 < x < hi  (trunc); using >= lo-ish: for cw=32 double: x > lo-1
      Z3_ast in[2];
      if (cw == 32 && e->o[0]->w == 64) in[0] = Z3_mk_fpa_gt(C, x, Z3_mk_fpa_numeral_double(C, lo - 1.0, s));
      else in[0] = Z3_mk_fpa_geq(C, x, Z3_mk_fpa_numeral_double(C, lo, s));
      in[1] = Z3_mk_fpa_lt(C, x, Z3_mk_fpa_numeral_double(C, hi, s));
      Z3_ast r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), x, cw), bvc(1ull << (cw - 1), cw));
      if (e->w < cw) r = Z3_mk_extract(C, e->w - 1, 0, r);
      return r;
    }
  default: break;
  }
  if (isFPOp(e->k)) {
    if (g_fpMode == 1) {
      std::string n = opn(e->k); if (e->k == K::FRound) n += std::to_string(e->imm);
      if (e->o[1]) return uf(n, {toBV(e->o[0]), toBV(e->o[1])}, {e->o[0]->w, e->o[1]->w}, e->w);
      return uf(n, {toBV(e->o[0])}, {e->o[0]->w}, e->w);
    }
    if (g_fpMode == 2) return Z3_mk_fresh_const(C, "opqbv", bvS(e->w));
    return Z3_mk_fpa_to_ieee_bv(C, toFP(e));
  }
  if (e->w == 1) return b2bv(toBool(e));
  fprintf(stderr, "toBV: unhandled %s\n", show(e).c_str()); abort();
}
static Z3_ast toBV(E e) {
  auto it = g_bv.find(e->id);
  if (it != g_bv.end()) return it->second;
  Z3_ast r = toBVNode(e);
  g_bv[e->id] = r; return r;
}

void relevantSlice(const std::vector<E> &pc, E extra, std::vector<E> &out) {
  std::vector<char> used(pc.size(), 0);
  std::unordered_set<uint32_t> vs(varsOf(extra).begin(), varsOf(extra).end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      const auto &v = varsOf(pc[i]);
      bool hit = false;
      for (uint32_t x : v) if (vs.count(x)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true;
      vs.insert(v.begin(), v.end());
    }
  }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}

struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = h * 1099511628211ull ^ x; return h; } };
struct CacheEnt { SR r; std::shared_ptr<Model> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> g_cache;
static bool hasFP(E e, std::unordered_map<uint32_t, bool> &memo) {
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->k >= K::FAdd;
  for (int i = 0; i < 3 && !r; i++) if (e->o[i]) r = hasFP(e->o[i], memo);
  return memo[e->id] = r;
}
static std::unordered_map<uint32_t, bool> g_hasfp, g_hasuf;
static bool hasUF(E e) {
  auto it = g_hasuf.find(e->id); if (it != g_hasuf.end()) return it->second;
  bool r = e->k == K::FUn;
  for (int i = 0; i < 3 && !r; i++) if (e->o[i]) r = hasUF(e->o[i]);
  return g_hasuf[e->id] = r;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

SR solverCheck(const std::vector<E> &cons0, Model *model) {
  g_ss.queries++;
  std::vector<E> cons;
  for (E e : cons0) { if (isFalse(e)) { g_ss.unsat++; return SR::Unsat; } if (!isTrue(e)) cons.push_back(e); }
  if (cons.empty()) { g_ss.sat++; if (model) { model->m.clear(); model->valid = true; model->memo.clear(); } return SR::Sat; }
  std::vector<uint32_t> key; for (E e : cons) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == SR::Sat) { g_ss.sat++; if (model) { model->m = it->second.m->m; model->valid = it->second.m->valid; model->memo.clear(); } }
    else g_ss.unsat++;
    return it->second.r;
  }
  g_ss.smt++;
  double t0 = now();
  bool fp = false; for (E e : cons) if (hasFP(e, g_hasfp)) fp = true;
  bool realm = fp && g_fpMode == 2;
  Z3_solver s;
  if (realm) s = Z3_mk_solver(C);
  else if (fp && g_fpMode == 1) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_UFBV"));
  else if (fp) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BVFP"));
  else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (E e : cons) Z3_solver_assert(C, s, toBool(e));
  if (!g_dumpDir.empty()) { char b[300]; snprintf(b, 300, "%s/q%06lu.smt2", g_dumpDir.c_str(), (unsigned long)g_ss.smt); FILE *f = fopen(b, "w"); fputs(Z3_solver_to_string(C, s), f); fclose(f); }
  Z3_lbool r = Z3_solver_check(C, s);
  SR res = r == Z3_L_TRUE ? SR::Sat : r == Z3_L_FALSE ? SR::Unsat : SR::Unknown;
  if (g_z3err) { g_z3err = false; res = SR::Unknown; }
  auto mm = std::make_shared<Model>();
  if (res == SR::Sat) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    std::unordered_set<uint32_t> vs; for (E e : cons) { auto &v = varsOf(e); vs.insert(v.begin(), v.end()); }
    for (uint32_t v : vs) {
      Z3_ast o;
      auto f = g_varAst.find(v);
      auto fr = g_varReal.find(v);
      if (realm && fr != g_varReal.end()) {
        if (Z3_model_eval(C, m, fr->second, true, &o)) {
          std::string ds = Z3_get_numeral_decimal_string(C, o, 20);
          if (!ds.empty() && ds.back() == '?') ds.pop_back();
          double d = atof(ds.c_str());
          mm->m[v] = g_vars[v].w == 32 ? f2bits((float)d) : d2bits(d);
        }
      } else if (f != g_varAst.end() && g_vars[v].w <= 64) {
        uint64_t val = 0;
        if (Z3_model_eval(C, m, f->second, true, &o) && Z3_get_numeral_uint64(C, o, &val)) mm->m[v] = val;
      }
    }
    Z3_model_dec_ref(C, m);
    // self check: does the model satisfy the constraints under native evaluation?
    if (realm || (fp && g_fpMode == 1)) mm->valid = false;
    else {
      Model chk; chk.m = mm->m;
      for (E e : cons) { u128 o; if (!evalE(e, chk, o) || o != 1) {
        mm->valid = false;
        if (!hasUF(e)) { // z3 and the native evaluator disagree: never trust the answer
          static int warned = 0; if (warned++ < 3) fprintf(stderr, "warning: model does not evaluate natively: %s\n", show(e, 8).c_str());
          res = SR::Unknown; }
        break; } }
    }
  }
  Z3_solver_dec_ref(C, s);
  double dt = now() - t0; g_ss.seconds += dt; if (dt > g_ss.maxSeconds) g_ss.maxSeconds = dt;
  if (getenv("SYM_SLOW") && dt > atof(getenv("SYM_SLOW"))) { fprintf(stderr, "slow query %.2fs res %d\n", dt, (int)res); for (E e : cons) fprintf(stderr, "   %s\n", show(e, 6).c_str()); }
  if (res == SR::Unknown) { g_ss.unknown++; return res; }
  if (res == SR::Sat) g_ss.sat++; else g_ss.unsat++;
  g_cache[key] = {res, mm};
  if (res == SR::Sat && model) { model->m = mm->m; model->valid = mm->valid; model->memo.clear(); }
  return res;
}
