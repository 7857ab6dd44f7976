// Hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>
#include <algorithm>
#include <cassert>

typedef unsigned __int128 u128;

enum class K : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt,
  FAdd, FSub, FMul, FDiv, FSqrt, FAbs, FNeg, FRound, FMin, FMax,
  FOeq, FOlt, FOle, FUno,
  FExt, FTrunc, FToSI, FToUI, SIToF, UIToF,
  FUn        // uninterpreted function of 1 or 2 arguments, imm = function id
};

struct Expr {
  K k; uint32_t w; uint32_t id; uint64_t imm;
  const Expr *o[3];
  mutable const std::vector<uint32_t> *vars; // cached sorted variable-id set
};
typedef const Expr *E;

struct VarInfo { std::string name; uint32_t w; E e; };

inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, uint32_t w) {
  if (w >= 64) return (int64_t)v;
  uint64_t s = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ s) - s);
}
inline double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline float bits2f(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
inline uint32_t f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

// FRound modes
enum { RM_FLOOR = 0, RM_CEIL = 1, RM_TRUNC = 2, RM_NEAREST_EVEN = 3, RM_NEAREST_AWAY = 4 };

extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufNames;
unsigned ufId(const std::string &name);

E mkConst(uint64_t v, uint32_t w);
E mkVar(const std::string &name, uint32_t w);
E mkBin(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, uint32_t off, uint32_t w);
E mkZExt(E a, uint32_t w);
E mkSExt(E a, uint32_t w);
E mkNot(E a);
E mkF1(K k, E a, uint64_t imm = 0);          // FSqrt FAbs FNeg FRound
E mkFConv(K k, E a, uint32_t w);             // FExt FTrunc FToSI ...
E mkFUn(unsigned fid, E a, E b, uint32_t w);
inline bool isC(E e) { return e->k == K::Const; }
inline bool isTrue(E e) { return e->k == K::Const && e->imm == 1; }
inline bool isFalse(E e) { return e->k == K::Const && e->imm == 0; }

// native evaluation of one operator on concrete operands (w <= 64)
bool evalOp(K k, uint32_t w, uint64_t imm, const uint64_t *v, const uint32_t *vw, uint64_t &out);
double callUF(unsigned fid, double a, double b, bool &ok);

const std::vector<uint32_t> &varsOf(E e);

struct Model { std::unordered_map<uint32_t, uint64_t> m; // var id -> value (default 0)
  bool valid = true; // satisfies its constraints under native evaluation
  mutable std::unordered_map<uint32_t, u128> memo; };
// returns false if not evaluable
bool evalE(E e, const Model &m, u128 &out);
std::string show(E e, int depth = 6);
extern uint32_t g_nextExprId;
extern int g_fpMode; // 0 ieee, 1 uf, 2 real
