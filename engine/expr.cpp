#include "expr.h"
#include <sstream>
#include <deque>

std::vector<VarInfo> g_vars;
std::vector<std::string> g_ufNames;
uint32_t g_nextExprId = 0;
int g_fpMode = 0;
static std::deque<Expr> g_pool;

struct EH { size_t operator()(E e) const {
  size_t h = (size_t)e->k * 0x9E3779B97F4A7C15ull ^ e->w;
  h = h * 1099511628211ull ^ e->imm;
  for (int i = 0; i < 3; i++) h = h * 1099511628211ull ^ (e->o[i] ? e->o[i]->id + 1 : 0);
  return h ^ (h >> 29); } };
struct EQ_ { bool operator()(E a, E b) const {
  return a->k == b->k && a->w == b->w && a->imm == b->imm && a->o[0] == b->o[0] && a->o[1] == b->o[1] && a->o[2] == b->o[2]; } };
static std::unordered_set<E, EH, EQ_> g_tab;

unsigned ufId(const std::string &n) {
  for (unsigned i = 0; i < g_ufNames.size(); i++) if (g_ufNames[i] == n) return i;
  g_ufNames.push_back(n); return g_ufNames.size() - 1;
}

static E intern(K k, uint32_t w, uint64_t imm, E a = nullptr, E b = nullptr, E c = nullptr) {
  Expr t; t.k = k; t.w = w; t.imm = imm; t.o[0] = a; t.o[1] = b; t.o[2] = c; t.vars = nullptr; t.id = 0;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  t.id = g_nextExprId++;
  g_pool.push_back(t);
  E e = &g_pool.back();
  g_tab.insert(e);
  return e;
}

E mkConst(uint64_t v, uint32_t w) {
  if (w > 64) return mkConcat(mkConst(0, w - 64), mkConst(v, 64));
  return intern(K::Const, w, v & maskw(w));
}
E mkVar(const std::string &name, uint32_t w) {
  uint32_t vid = g_vars.size();
  E e = intern(K::Var, w, vid);
  g_vars.push_back({name, w, e});
  return e;
}

static double roundMode(double x, int m) {
  switch (m) {
  case RM_FLOOR: return std::floor(x);
  case RM_CEIL: return std::ceil(x);
  case RM_TRUNC: return std::trunc(x);
  case RM_NEAREST_EVEN: return std::nearbyint(x);
  default: return std::round(x);
  }
}
double callUF(unsigned fid, double a, double b, bool &ok) {
  const std::string &n = g_ufNames[fid]; ok = true;
  if (n == "exp") return std::exp(a);
  if (n == "expf") return std::exp((float)a);
  if (n == "pow") return std::pow(a, b);
  if (n == "powf") return std::pow((float)a, (float)b);
  if (n == "tan") return std::tan(a);
  if (n == "sin") return std::sin(a);
  if (n == "cos") return std::cos(a);
  if (n == "sinf") return std::sin((float)a);
  if (n == "cosf") return std::cos((float)a);
  if (n == "log") return std::log(a);
  if (n == "logf") return std::log((float)a);
  if (n == "log2") return std::log2(a);
  if (n == "exp2") return std::exp2(a);
  if (n == "exp2f") return std::exp2((float)a);
  if (n == "atan2") return std::atan2(a, b);
  if (n == "atan") return std::atan(a);
  if (n == "asin") return std::asin(a);
  if (n == "acos") return std::acos(a);
  if (n == "fmod") return std::fmod(a, b);
  if (n == "fmodf") return std::fmod((float)a, (float)b);
  ok = false; return 0;
}

static inline double rd(uint64_t v, uint32_t w) { return w == 32 ? (double)bits2f((uint32_t)v) : bits2d(v); }

bool evalOp(K k, uint32_t w, uint64_t imm, const uint64_t *v, const uint32_t *vw, uint64_t &out) {
  uint64_t a = v[0], b = v[1], c = v[2];
  uint32_t aw = vw[0];
  switch (k) {
  case K::Add: out = a + b; break;
  case K::Sub: out = a - b; break;
  case K::Mul: out = a * b; break;
  case K::UDiv: out = b ? a / b : ~0ull; break;
  case K::SDiv: { int64_t x = sextw(a, w), y = sextw(b, w);
      if (y == 0) out = x < 0 ? 1 : ~0ull; else if (y == -1) out = 0 - (uint64_t)x; else out = (uint64_t)(x / y); break; }
  case K::URem: out = b ? a % b : a; break;
  case K::SRem: { int64_t x = sextw(a, w), y = sextw(b, w);
      if (y == 0) out = a; else if (y == -1) out = 0; else out = (uint64_t)(x % y); break; }
  case K::And: out = a & b; break;
  case K::Or: out = a | b; break;
  case K::Xor: out = a ^ b; break;
  case K::Shl: out = b >= w ? 0 : a << b; break;
  case K::LShr: out = b >= w ? 0 : (a & maskw(w)) >> b; break;
  case K::AShr: { int64_t x = sextw(a, w); out = (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : x >> b); break; }
  case K::Eq: out = a == b; break;
  case K::Ult: out = a < b; break;
  case K::Ule: out = a <= b; break;
  case K::Slt: out = sextw(a, aw) < sextw(b, aw); break;
  case K::Sle: out = sextw(a, aw) <= sextw(b, aw); break;
  case K::Ite: out = a ? b : c; break;
  case K::Concat: out = (a << vw[1]) | b; break;
  case K::Extract: out = a >> imm; break;
  case K::ZExt: out = a; break;
  case K::SExt: out = (uint64_t)sextw(a, aw); break;
  case K::FAdd: out = w == 32 ? f2bits(bits2f(a) + bits2f(b)) : d2bits(bits2d(a) + bits2d(b)); break;
  case K::FSub: out = w == 32 ? f2bits(bits2f(a) - bits2f(b)) : d2bits(bits2d(a) - bits2d(b)); break;
  case K::FMul: out = w == 32 ? f2bits(bits2f(a) * bits2f(b)) : d2bits(bits2d(a) * bits2d(b)); break;
  case K::FDiv: out = w == 32 ? f2bits(bits2f(a) / bits2f(b)) : d2bits(bits2d(a) / bits2d(b)); break;
  case K::FMin: out = w == 32 ? f2bits(std::fmin(bits2f(a), bits2f(b))) : d2bits(std::fmin(bits2d(a), bits2d(b))); break;
  case K::FMax: out = w == 32 ? f2bits(std::fmax(bits2f(a), bits2f(b))) : d2bits(std::fmax(bits2d(a), bits2d(b))); break;
  case K::FSqrt: out = w == 32 ? f2bits(std::sqrt(bits2f(a))) : d2bits(std::sqrt(bits2d(a))); break;
  case K::FAbs: out = a & (maskw(w) >> 1); break;
  case K::FNeg: out = a ^ (1ull << (w - 1)); break;
  case K::FRound: out = w == 32 ? f2bits((float)roundMode(bits2f(a), imm)) : d2bits(roundMode(bits2d(a), imm)); break;
  case K::FOeq: out = rd(a, aw) == rd(b, aw); break;
  case K::FOlt: out = rd(a, aw) < rd(b, aw); break;
  case K::FOle: out = rd(a, aw) <= rd(b, aw); break;
  case K::FUno: out = std::isnan(rd(a, aw)) || std::isnan(rd(b, aw)); break;
  case K::FExt: out = d2bits((double)bits2f(a)); break;
  case K::FTrunc: out = f2bits((float)bits2d(a)); break;
  case K::FToSI: { // x86 semantics: out of range -> most negative value
      double x = std::trunc(rd(a, aw));
      uint32_t cw = w <= 32 ? 32 : 64;
      double lo = -std::ldexp(1.0, cw - 1), hi = std::ldexp(1.0, cw - 1);
      if (!(x >= lo && x < hi)) out = 1ull << (cw - 1); else out = (uint64_t)(int64_t)x;
      break; }
  case K::FToUI: { double x = std::trunc(rd(a, aw));
      uint32_t cw = w <= 32 ? 32 : 64;
      if (cw == 32) { if (x > -9.2e18 && x < 9.2e18) out = (uint64_t)(int64_t)x; else out = 0; }
      else { if (x >= 0 && x < 18446744073709551616.0) out = (uint64_t)x; else if (x > -9.2e18 && x < 0) out = (uint64_t)(int64_t)x; else out = 1ull << 63; }
      break; }
  case K::SIToF: { int64_t x = sextw(a, aw); out = w == 32 ? f2bits((float)x) : d2bits((double)x); break; }
  case K::UIToF: { uint64_t x = a & maskw(aw); out = w == 32 ? f2bits((float)x) : d2bits((double)x); break; }
  case K::FUn: { bool ok; double r = callUF(imm, rd(a, aw), vw[1] ? rd(b, vw[1]) : 0, ok); if (!ok) return false;
      out = w == 32 ? f2bits((float)r) : d2bits(r); break; }
  default: return false;
  }
  out &= maskw(w);
  return true;
}

static E fold(K k, uint32_t w, uint64_t imm, E a, E b, E c) {
  if (w > 64 || a->w > 64) return nullptr;
  uint64_t v[3] = {a->imm, b ? b->imm : 0, c ? c->imm : 0};
  uint32_t vw[3] = {a->w, b ? b->w : 0, c ? c->w : 0};
  uint64_t out;
  if (!evalOp(k, w, imm, v, vw, out)) return nullptr;
  return mkConst(out, w);
}

E mkNot(E a) { return mkBin(K::Xor, a, mkConst(1, 1)); }

static bool commut(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq || k == K::FAdd || k == K::FMul || k == K::FOeq; }
static bool isCmp(K k) { return (k >= K::Eq && k <= K::Sle) || (k >= K::FOeq && k <= K::FUno); }
static bool isIteConst(E e) { return e->k == K::Ite && isC(e->o[1]) && isC(e->o[2]); }

// ---- signed interval of an integer expression (structural, memoised) ----
struct Rng { int64_t lo, hi; };
static std::vector<Rng> g_rng; static std::vector<char> g_rngDone;
static Rng fullR(uint32_t w) { return w >= 64 ? Rng{INT64_MIN, INT64_MAX} : Rng{-(int64_t)(1ull << (w - 1)), (int64_t)((1ull << (w - 1)) - 1)}; }
static bool fitsS(__int128 lo, __int128 hi, uint32_t w) { Rng f = fullR(w); return lo >= f.lo && hi <= f.hi; }
static Rng rng(E e, int depth = 0) {
  uint32_t w = e->w;
  if (w > 64) return fullR(64);
  if (e->k == K::Const) { int64_t v = sextw(e->imm, w); return {v, v}; }
  if (e->id < g_rngDone.size() && g_rngDone[e->id]) return g_rng[e->id];
  Rng f = fullR(w), r = f;
  if (depth > 40) return f;
  auto R = [&](int i) { return rng(e->o[i], depth + 1); };
  switch (e->k) {
  case K::ZExt: { Rng a = R(0); uint32_t bw = e->o[0]->w; if (a.lo >= 0) r = a; else r = {0, (int64_t)maskw(bw)}; break; }
  case K::SExt: r = R(0); break;
  case K::Add: { Rng a = R(0), b = R(1); __int128 lo = (__int128)a.lo + b.lo, hi = (__int128)a.hi + b.hi; if (fitsS(lo, hi, w)) r = {(int64_t)lo, (int64_t)hi}; break; }
  case K::Sub: { Rng a = R(0), b = R(1); __int128 lo = (__int128)a.lo - b.hi, hi = (__int128)a.hi - b.lo; if (fitsS(lo, hi, w)) r = {(int64_t)lo, (int64_t)hi}; break; }
  case K::Mul: { Rng a = R(0), b = R(1); __int128 c[4] = {(__int128)a.lo * b.lo, (__int128)a.lo * b.hi, (__int128)a.hi * b.lo, (__int128)a.hi * b.hi};
    __int128 lo = c[0], hi = c[0]; for (auto x : c) { if (x < lo) lo = x; if (x > hi) hi = x; } if (fitsS(lo, hi, w)) r = {(int64_t)lo, (int64_t)hi}; break; }
  case K::Ite: { Rng a = R(1), b = R(2); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
  case K::Concat: { uint32_t lw = e->o[1]->w; if (lw >= 63) break; Rng a = R(0); Rng b = R(1); if (b.lo < 0) b = {0, (int64_t)maskw(lw)};
    __int128 lo = ((__int128)a.lo << lw) + b.lo, hi = ((__int128)a.hi << lw) + b.hi; 
    // o[0]'s signed value is the signed top part
    if (e->o[0]->k == K::ZExt || a.lo >= 0 || true) { if (fitsS(lo, hi, w)) r = {(int64_t)lo, (int64_t)hi}; } break; }
  case K::Extract: { Rng a = e->o[0]->w <= 64 ? R(0) : fullR(64); if (e->o[0]->w > 64) break; if (e->imm == 0) { if (fitsS(a.lo, a.hi, w)) r = a; }
    else { int64_t lo = a.lo >> e->imm, hi = a.hi >> e->imm; if (fitsS(lo, hi, w)) r = {lo, hi}; } break; }
  case K::And: { Rng a = R(0), b = R(1); if (a.lo >= 0 && b.lo >= 0) r = {0, std::min(a.hi, b.hi)}; else if (a.lo >= 0) r = {0, a.hi}; else if (b.lo >= 0) r = {0, b.hi}; break; }
  case K::SDiv: { Rng a = R(0); if (isC(e->o[1])) { int64_t c = sextw(e->o[1]->imm, w); if (c > 0) r = {a.lo / c, a.hi / c}; } break; }
  case K::UDiv: { Rng a = R(0); if (isC(e->o[1])) { int64_t c = sextw(e->o[1]->imm, w); if (c > 0 && a.lo >= 0) r = {a.lo / c, a.hi / c}; } break; }
  case K::URem: { Rng a = R(0); if (isC(e->o[1])) { int64_t c = sextw(e->o[1]->imm, w); if (c > 0) r = {0, a.lo >= 0 ? std::min(a.hi, c - 1) : c - 1}; } break; }
  case K::Xor: if (isC(e->o[0]) && e->o[0]->imm == maskw(w)) { Rng a = R(1); r = {-1 - a.hi, -1 - a.lo}; } break;
  case K::SRem: { Rng a = R(0); if (isC(e->o[1])) { int64_t c = sextw(e->o[1]->imm, w); if (c > 0) r = {a.lo >= 0 ? 0 : std::max(a.lo, -(c - 1)), a.hi < 0 ? 0 : std::min(a.hi, c - 1)}; } break; }
  default: break;
  }
  if (r.lo < f.lo) r.lo = f.lo; if (r.hi > f.hi) r.hi = f.hi;
  if (e->id >= g_rngDone.size()) { g_rngDone.resize(e->id + 1024, 0); g_rng.resize(e->id + 1024); }
  g_rngDone[e->id] = 1; g_rng[e->id] = r;
  return r;
}
// ---- linear normal form of sums ----
struct Lin { std::vector<std::pair<E, uint64_t>> t; uint64_t c = 0; };
static bool linCollect(E e, uint64_t k, Lin &L, int &budget) {
  if (--budget < 0) return false;
  switch (e->k) {
  case K::Const: L.c += k * e->imm; return true;
  case K::Add: return linCollect(e->o[0], k, L, budget) && linCollect(e->o[1], k, L, budget);
  case K::Sub: return linCollect(e->o[0], k, L, budget) && linCollect(e->o[1], 0 - k, L, budget);
  case K::Xor: if (e->w > 1 && e->w <= 64 && isC(e->o[0]) && e->o[0]->imm == maskw(e->w)) { L.c -= k; return linCollect(e->o[1], 0 - k, L, budget); } break; // ~x == -1 - x
  case K::Mul: if (isC(e->o[0])) return linCollect(e->o[1], k * e->o[0]->imm, L, budget); break;
  case K::Concat: if (isC(e->o[1]) && e->o[1]->imm == 0 && e->o[1]->w < 64) { E h = e->o[0];
      if (h->k == K::Extract && h->imm == 0 && h->o[0]->w == e->w) return linCollect(h->o[0], k << e->o[1]->w, L, budget);
      if (h->k == K::Extract) break;
      return linCollect(mkZExt(h, e->w), k << e->o[1]->w, L, budget); }
    break;
  case K::ZExt: if (e->o[0]->k == K::Concat && isC(e->o[0]->o[1]) && e->o[0]->o[1]->imm == 0 && e->o[0]->o[1]->w < 64)
      return linCollect(mkZExt(e->o[0]->o[0], e->w), k << e->o[0]->o[1]->w, L, budget);
    break;
  default: break;
  }
  for (auto &p : L.t) if (p.first == e) { p.second += k; return true; }
  L.t.push_back({e, k}); return true;
}
static E linBuild(Lin &L, uint32_t w) {
  uint64_t m = maskw(w);
  std::sort(L.t.begin(), L.t.end(), [](const std::pair<E, uint64_t> &a, const std::pair<E, uint64_t> &b) { return a.first->id < b.first->id; });
  E acc = nullptr; uint64_t c = L.c & m; bool cUsed = false;
  auto term = [&](E x, uint64_t k) { return k == 1 ? x : mkBin(K::Mul, mkConst(k, w), x); };
  for (auto &p : L.t) { uint64_t k = p.second & m; if (!k || sextw(k, w) < 0) continue; E t = term(p.first, k); acc = acc ? intern(K::Add, w, 0, acc->id < t->id ? acc : t, acc->id < t->id ? t : acc) : t; }
  for (auto &p : L.t) { uint64_t k = p.second & m; if (!k || sextw(k, w) >= 0) continue; E t = term(p.first, (0 - k) & m);
    if (!acc) { acc = mkConst(c, w); cUsed = true; }
    acc = intern(K::Sub, w, 0, acc, t); }
  if (!acc) return mkConst(c, w);
  if (!cUsed && c) acc = intern(K::Add, w, 0, mkConst(c, w), acc);
  return acc;
}
static E linCombine(K k, E a, E b) {
  Lin L; int budget = 40;
  if (!linCollect(a, 1, L, budget) || !linCollect(b, k == K::Add ? 1 : ~0ull, L, budget)) return nullptr;
  return linBuild(L, a->w);
}

E mkBin(K k, E a, E b) {
  uint32_t w = isCmp(k) ? 1 : a->w;
  assert(a->w == b->w);
  if (isC(a) && isC(b)) { E f = fold(k, w, 0, a, b, nullptr); if (f) return f; }
  if (commut(k)) {
    if (k == K::FAdd || k == K::FMul || k == K::FOeq) { if (a->id > b->id) std::swap(a, b); }
    else if (isC(b) && !isC(a)) std::swap(a, b);
    else if (!isC(a) && a->id > b->id) std::swap(a, b);
  }
  if (a->w <= 64 && a->w > 1 && k >= K::Eq && k <= K::Sle && !(isC(a) && isC(b))) {
    Rng x = rng(a), y = rng(b);
    switch (k) {
    case K::Eq: if (x.hi < y.lo || y.hi < x.lo) return mkConst(0, 1); break;
    case K::Slt: if (x.hi < y.lo) return mkConst(1, 1); if (x.lo >= y.hi) return mkConst(0, 1); break;
    case K::Sle: if (x.hi <= y.lo) return mkConst(1, 1); if (x.lo > y.hi) return mkConst(0, 1); break;
    case K::Ult: case K::Ule:
      if (x.lo >= 0 && y.lo >= 0) { if (k == K::Ult) { if (x.hi < y.lo) return mkConst(1, 1); if (x.lo >= y.hi) return mkConst(0, 1); } else { if (x.hi <= y.lo) return mkConst(1, 1); if (x.lo > y.hi) return mkConst(0, 1); } }
      break;
    default: break;
    }
    // a <= b decided on the difference when it cannot overflow
    if ((k == K::Eq || k == K::Slt || k == K::Sle) && !isC(a) && !isC(b) && (a->k == K::Add || a->k == K::Sub || b->k == K::Add || b->k == K::Sub)) {
      __int128 lo = (__int128)x.lo - y.hi, hi = (__int128)x.hi - y.lo;
      if (k == K::Eq || fitsS(lo, hi, a->w)) {
        E d = mkBin(K::Sub, a, b);
        if (isC(d)) { int64_t v = sextw(d->imm, d->w); return mkConst(k == K::Eq ? v == 0 : k == K::Slt ? v < 0 : v <= 0, 1); }
        Rng z = rng(d);
        if (fitsS(lo, hi, a->w)) {
          if (k == K::Eq && (z.lo > 0 || z.hi < 0)) return mkConst(0, 1);
          if (k == K::Slt) { if (z.hi < 0) return mkConst(1, 1); if (z.lo >= 0) return mkConst(0, 1); }
          if (k == K::Sle) { if (z.hi <= 0) return mkConst(1, 1); if (z.lo > 0) return mkConst(0, 1); }
        }
        // fewer leaves: compare the difference with its constant part
        Lin L; int bd = 40;
        if (linCollect(d, 1, L, bd) && L.t.size() < 2 + (size_t)0) {
          if (L.t.size() == 1 && fitsS(lo, hi, a->w)) {
            uint64_t kf = L.t[0].second & maskw(a->w); E x0 = L.t[0].first; Rng rx = rng(x0); int64_t c0 = sextw(L.c, a->w);
            if (kf == 1 && fitsS((__int128)rx.lo + c0, (__int128)rx.hi + c0, a->w) && fitsS(-(__int128)c0, -(__int128)c0, a->w)) return mkBin(k, x0, mkConst((uint64_t)-c0, a->w));
            if (kf == maskw(a->w) && fitsS((__int128)c0 - rx.hi, (__int128)c0 - rx.lo, a->w)) return mkBin(k, mkConst((uint64_t)c0, a->w), x0);
            if (k == K::Eq && kf == 1) return mkBin(k, x0, mkConst(0 - L.c, a->w));
            if (k == K::Eq && kf == maskw(a->w)) return mkBin(k, mkConst(L.c, a->w), x0);
          }
        }
      }
    }
    if ((k == K::Slt || k == K::Sle) && (isC(a) || isC(b))) { // c0 + x < c1  ->  x < c1 - c0 without overflow
      E n = isC(a) ? b : a; int64_t c1 = sextw((isC(a) ? a : b)->imm, a->w);
      if (n->k == K::Add && isC(n->o[0])) { int64_t c0 = sextw(n->o[0]->imm, a->w); Rng rx = rng(n->o[1]);
        if (fitsS((__int128)rx.lo + c0, (__int128)rx.hi + c0, a->w) && fitsS((__int128)c1 - c0, (__int128)c1 - c0, a->w))
          return isC(a) ? mkBin(k, mkConst((uint64_t)(c1 - c0), a->w), n->o[1]) : mkBin(k, n->o[1], mkConst((uint64_t)(c1 - c0), a->w)); }
    }
  }
  if (w <= 64 && a->w <= 64) switch (k) {
  case K::Add:
    if (isC(a) && a->imm == 0) return b;
    if (w > 1) if (E r = linCombine(k, a, b)) return r;
    break;
  case K::Sub:
    if (a == b) return mkConst(0, w);
    if (isC(b) && b->imm == 0) return a;
    if (w > 1) if (E r = linCombine(k, a, b)) return r;
    break;
  case K::Mul:
    if (isC(a)) { if (a->imm == 0) return a; if (a->imm == 1) return b;
      if ((a->imm & (a->imm - 1)) == 0) return mkBin(K::Shl, b, mkConst(__builtin_ctzll(a->imm), w)); }
    break;
  case K::UDiv: if (isC(b) && b->imm == 1) return a; 
    if (isC(b) && b->imm && (b->imm & (b->imm - 1)) == 0) return mkBin(K::LShr, a, mkConst(__builtin_ctzll(b->imm), w));
    break;
  case K::URem: if (isC(b) && b->imm && (b->imm & (b->imm - 1)) == 0) return mkBin(K::And, mkConst(b->imm - 1, w), a); break;
  case K::SDiv: if (isC(b) && b->imm == 1) return a; break;
  case K::And:
    if (a == b) return a;
    if (isC(a)) { if (a->imm == 0) return a; if (a->imm == maskw(w)) return b;
      if (b->k == K::And && isC(b->o[0])) return mkBin(K::And, mkConst(a->imm & b->o[0]->imm, w), b->o[1]);
      // low mask -> zext(extract)
      if ((a->imm & (a->imm + 1)) == 0) { uint32_t n = __builtin_popcountll(a->imm); return mkZExt(mkExtract(b, 0, n), w); } }
    if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
    break;
  case K::Or:
    if (a == b) return a;
    if (isC(a)) { if (a->imm == 0) return b; if (a->imm == maskw(w)) return a; }
    // disjoint zext | shl  -> concat  (typical of byte assembly)
    if (!isC(a)) {
      E x = a, y = b;
      for (int t = 0; t < 2; t++, std::swap(x, y)) {
        if (x->k == K::ZExt && y->k == K::Shl && isC(y->o[1]) && y->o[1]->imm >= x->o[0]->w && y->o[1]->imm < w) {
          uint32_t s = y->o[1]->imm;
          E hi = mkExtract(y->o[0], 0, w - s);
          E lo = mkZExt(x->o[0], s);
          return mkConcat(hi, lo);
        }
        if (x->k == K::ZExt && y->k == K::Concat && isC(y->o[1]) && y->o[1]->imm == 0 && y->o[1]->w >= x->o[0]->w)
          return mkConcat(y->o[0], mkZExt(x->o[0], y->o[1]->w));
      }
    }
    break;
  case K::Xor:
    if (a == b) return mkConst(0, w);
    if (isC(a)) { if (a->imm == 0) return b;
      if (b->k == K::Xor && isC(b->o[0])) return mkBin(K::Xor, mkConst(a->imm ^ b->o[0]->imm, w), b->o[1]); }
    if (w == 1 && isC(a) && a->imm == 1) {
      if (b->k == K::Ult) return mkBin(K::Ule, b->o[1], b->o[0]);
      if (b->k == K::Ule) return mkBin(K::Ult, b->o[1], b->o[0]);
      if (b->k == K::Slt) return mkBin(K::Sle, b->o[1], b->o[0]);
      if (b->k == K::Sle) return mkBin(K::Slt, b->o[1], b->o[0]);
      if (b->k == K::Ite) return mkIte(b->o[0], mkNot(b->o[1]), mkNot(b->o[2]));
    }
    break;
  case K::Shl:
    if (isC(b)) { if (b->imm == 0) return a; if (b->imm >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - b->imm), mkConst(0, b->imm)); }
    if (isC(a) && a->imm == 0) return a;
    break;
  case K::LShr:
    if (isC(b)) { if (b->imm == 0) return a; if (b->imm >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, b->imm, w - b->imm), w); }
    if (isC(a) && a->imm == 0) return a;
    break;
  case K::AShr:
    if (isC(b)) { if (b->imm == 0) return a; uint64_t s = std::min<uint64_t>(b->imm, w - 1);
      return mkSExt(mkExtract(a, s, w - s), w); }
    break;
  case K::Eq:
    if (a == b) return mkConst(1, 1);
    if (isC(a)) {
      if (a->w == 1) return a->imm ? b : mkNot(b);
      if (b->k == K::ZExt) { uint32_t bw = b->o[0]->w; if (a->imm >> bw) return mkConst(0, 1); return mkBin(K::Eq, mkConst(a->imm, bw), b->o[0]); }
      if (b->k == K::SExt) { uint32_t bw = b->o[0]->w; if ((uint64_t)(sextw(a->imm, bw)) != (uint64_t)sextw(a->imm, a->w)) return mkConst(0, 1); return mkBin(K::Eq, mkConst(a->imm, bw), b->o[0]); }
      if (b->k == K::Add && isC(b->o[0])) return mkBin(K::Eq, mkConst(a->imm - b->o[0]->imm, a->w), b->o[1]);
      if (b->k == K::Sub) return mkBin(K::Eq, b->o[1], mkBin(K::Sub, b->o[0], a));
      if (b->k == K::Concat && b->w <= 64) { uint32_t lw = b->o[1]->w;
        return mkBin(K::And, mkBin(K::Eq, mkConst(a->imm >> lw, b->o[0]->w), b->o[0]), mkBin(K::Eq, mkConst(a->imm, lw), b->o[1])); }
      if (b->k == K::Ite && (isC(b->o[1]) || isC(b->o[2])))
        return mkIte(b->o[0], mkBin(K::Eq, a, b->o[1]), mkBin(K::Eq, a, b->o[2]));
    } else {
      if (a->k == K::ZExt && b->k == K::ZExt && a->o[0]->w == b->o[0]->w) return mkBin(K::Eq, a->o[0], b->o[0]);
      if (a->k == K::SExt && b->k == K::SExt && a->o[0]->w == b->o[0]->w) return mkBin(K::Eq, a->o[0], b->o[0]);
      if (a->k == K::Add && b->k == K::Add && isC(a->o[0]) && isC(b->o[0])) return mkBin(K::Eq, mkBin(K::Add, mkConst(b->o[0]->imm - a->o[0]->imm, a->w), b->o[1]), a->o[1]);
      if (a->k == K::Ite && b->k == K::Ite && a->o[0] == b->o[0]) return mkIte(a->o[0], mkBin(K::Eq, a->o[1], b->o[1]), mkBin(K::Eq, a->o[2], b->o[2]));
    }
    break;
  case K::Ult:
    if (a == b) return mkConst(0, 1);
    if (isC(b)) { if (b->imm == 0) return mkConst(0, 1); if (b->imm == 1) return mkBin(K::Eq, mkConst(0, a->w), a);
      if (a->k == K::ZExt) { uint32_t aw = a->o[0]->w; if (b->imm > maskw(aw)) return mkConst(1, 1); return mkBin(K::Ult, a->o[0], mkConst(b->imm, aw)); }
      if (isIteConst(a)) return mkIte(a->o[0], mkBin(k, a->o[1], b), mkBin(k, a->o[2], b)); }
    if (isC(a)) { if (a->imm == maskw(a->w)) return mkConst(0, 1);
      if (b->k == K::ZExt) { uint32_t bw = b->o[0]->w; if (a->imm >= maskw(bw)) return mkConst(0, 1); return mkBin(K::Ult, mkConst(a->imm, bw), b->o[0]); }
      if (isIteConst(b)) return mkIte(b->o[0], mkBin(k, a, b->o[1]), mkBin(k, a, b->o[2])); }
    break;
  case K::Ule:
    if (a == b) return mkConst(1, 1);
    if (isC(a) && a->imm == 0) return mkConst(1, 1);
    if (isC(b) && b->imm == maskw(b->w)) return mkConst(1, 1);
    if (isC(b) && a->k == K::ZExt) { uint32_t aw = a->o[0]->w; if (b->imm >= maskw(aw)) return mkConst(1, 1); return mkBin(K::Ule, a->o[0], mkConst(b->imm, aw)); }
    if (isC(a) && b->k == K::ZExt) { uint32_t bw = b->o[0]->w; if (a->imm > maskw(bw)) return mkConst(0, 1); return mkBin(K::Ule, mkConst(a->imm, bw), b->o[0]); }
    break;
  case K::Slt:
    if (a == b) return mkConst(0, 1);
    if (a->k == K::SExt && b->k == K::SExt && a->o[0]->w == b->o[0]->w) return mkBin(K::Slt, a->o[0], b->o[0]);
    if (a->k == K::ZExt && b->k == K::ZExt && a->o[0]->w == b->o[0]->w) return mkBin(K::Ult, a->o[0], b->o[0]);
    if (isC(b) && a->k == K::ZExt) { int64_t c = sextw(b->imm, b->w); if (c <= 0) return mkConst(0, 1); return mkBin(K::Ult, a, b); }
    if (isC(a) && b->k == K::ZExt) { int64_t c = sextw(a->imm, a->w); if (c < 0) return mkConst(1, 1); return mkBin(K::Ult, a, b); }
    if (isC(b) && isIteConst(a)) return mkIte(a->o[0], mkBin(k, a->o[1], b), mkBin(k, a->o[2], b));
    if (isC(a) && isIteConst(b)) return mkIte(b->o[0], mkBin(k, a, b->o[1]), mkBin(k, a, b->o[2]));
    break;
  case K::Sle:
    if (a == b) return mkConst(1, 1);
    if (a->k == K::SExt && b->k == K::SExt && a->o[0]->w == b->o[0]->w) return mkBin(K::Sle, a->o[0], b->o[0]);
    if (isC(b) && a->k == K::ZExt) { int64_t c = sextw(b->imm, b->w); if (c < 0) return mkConst(0, 1); return mkBin(K::Ule, a, b); }
    if (isC(a) && b->k == K::ZExt) { int64_t c = sextw(a->imm, a->w); if (c <= 0) return mkConst(1, 1); return mkBin(K::Ule, a, b); }
    break;
  case K::FMul:
    if (g_fpMode != 1) {
      if (isC(a) && (w == 64 ? a->imm == d2bits(1.0) : a->imm == f2bits(1.0f))) return b;
      if (isC(b) && (w == 64 ? b->imm == d2bits(1.0) : b->imm == f2bits(1.0f))) return a;
      if (g_fpMode == 2) {
        if (isC(a) && (a->imm & (maskw(w) >> 1)) == 0) return mkConst(0, w);
        if (isC(b) && (b->imm & (maskw(w) >> 1)) == 0) return mkConst(0, w);
      }
    }
    break;
  case K::FAdd:
    if (g_fpMode != 1) { // x + (-0.0) == x exactly; in real mode also +0
      uint64_t nz = 1ull << (w - 1);
      if (isC(a) && (a->imm == nz || (g_fpMode == 2 && a->imm == 0))) return b;
      if (isC(b) && (b->imm == nz || (g_fpMode == 2 && b->imm == 0))) return a;
    }
    break;
  case K::FSub:
    if (g_fpMode != 1 && isC(b) && (b->imm == 0 || (g_fpMode == 2 && b->imm == (1ull << (w - 1))))) return a;
    break;
  case K::FDiv:
    if (g_fpMode != 1 && isC(b) && (w == 64 ? b->imm == d2bits(1.0) : b->imm == f2bits(1.0f))) return a;
    break;
  default: break;
  } else {
    if (k == K::Eq && a == b) return mkConst(1, 1);
    // wide: eq on concats split
    if (k == K::Eq && a->k == K::Concat && b->k == K::Concat && a->o[1]->w == b->o[1]->w)
      return mkBin(K::And, mkBin(K::Eq, a->o[0], b->o[0]), mkBin(K::Eq, a->o[1], b->o[1]));
    if (k == K::LShr && b->k == K::Concat && isC(b->o[1]) ) { uint64_t s = b->o[1]->imm; if (s == 0) return a; if (s < w) return mkZExt(mkExtract(a, s, w - s), w); }
    if (k == K::Shl && b->k == K::Concat && isC(b->o[1]) ) { uint64_t s = b->o[1]->imm; if (s == 0) return a; if (s < w) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
    if (k == K::Or) {
      E x = a, y = b;
      for (int t = 0; t < 2; t++, std::swap(x, y)) {
        if (x->k == K::ZExt && y->k == K::Concat && y->o[1]->w >= x->o[0]->w && isC(y->o[1]) && y->o[1]->imm == 0)
          return mkConcat(y->o[0], mkZExt(x->o[0], y->o[1]->w));
      }
    }
  }
  // push through ite with constant arms
  if (isC(a) && b->k == K::Ite && w <= 64 && isIteConst(b) && k < K::Eq) return mkIte(b->o[0], mkBin(k, a, b->o[1]), mkBin(k, a, b->o[2]));
  if (isC(b) && a->k == K::Ite && w <= 64 && isIteConst(a) && k < K::Eq) return mkIte(a->o[0], mkBin(k, a->o[1], b), mkBin(k, a->o[2], b));
  return intern(k, w, 0, a, b);
}

E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->imm ? a : b;
  if (a == b) return a;
  if (c->k == K::Xor && isC(c->o[0]) && c->o[0]->imm == 1) return mkIte(c->o[1], b, a);
  if (a->w == 1) {
    if (isTrue(a)) return mkBin(K::Or, c, b);
    if (isFalse(a)) return mkBin(K::And, mkNot(c), b);
    if (isTrue(b)) return mkBin(K::Or, mkNot(c), a);
    if (isFalse(b)) return mkBin(K::And, c, a);
  }
  if (a->w <= 64 && isC(a) && isC(b) && a->imm == 1 && b->imm == 0) return mkZExt(c, a->w);
  if (a->k == K::Ite && a->o[0] == c) return mkIte(c, a->o[1], b);
  if (b->k == K::Ite && b->o[0] == c) return mkIte(c, a, b->o[2]);
  return intern(K::Ite, a->w, 0, c, a, b);
}

E mkConcat(E hi, E lo) {
  uint32_t w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 64) return mkConst((hi->imm << lo->w) | lo->imm, w);
  // merge adjacent extracts
  if (hi->k == K::Extract && lo->k == K::Extract && hi->o[0] == lo->o[0] && lo->imm + lo->w == hi->imm)
    return mkExtract(hi->o[0], lo->imm, w);
  // hi extract adjacent with source whole lo: (extract x [n..], then ...) handled above; also lo concat's top
  if (lo->k == K::Concat) {
    E m = lo->o[0];
    if (hi->k == K::Extract && m->k == K::Extract && hi->o[0] == m->o[0] && m->imm + m->w == hi->imm)
      return mkConcat(mkExtract(hi->o[0], m->imm, hi->w + m->w), lo->o[1]);
    if (isC(hi) && isC(m) && hi->w + m->w <= 64)
      return mkConcat(mkConcat(hi, m), lo->o[1]);
  }
  if (w <= 64 && isC(hi) && hi->imm == 0) return mkZExt(lo, w);
  if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->o[0], lo), w);
  if (hi->k == K::Ite && lo->k == K::Ite && hi->o[0] == lo->o[0])
    return mkIte(hi->o[0], mkConcat(hi->o[1], lo->o[1]), mkConcat(hi->o[2], lo->o[2]));
  // right-assoc normal form
  if (hi->k == K::Concat) return mkConcat(hi->o[0], mkConcat(hi->o[1], lo));
  return intern(K::Concat, w, 0, hi, lo);
}

E mkExtract(E a, uint32_t off, uint32_t w) {
  assert(off + w <= a->w);
  if (w == a->w) return a;
  switch (a->k) {
  case K::Const: return mkConst(a->imm >> off, w);
  case K::Extract: return mkExtract(a->o[0], a->imm + off, w);
  case K::Concat: {
    uint32_t lw = a->o[1]->w;
    if (off + w <= lw) return mkExtract(a->o[1], off, w);
    if (off >= lw) return mkExtract(a->o[0], off - lw, w);
    return mkConcat(mkExtract(a->o[0], 0, off + w - lw), mkExtract(a->o[1], off, lw - off));
  }
  case K::ZExt: {
    uint32_t iw = a->o[0]->w;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->o[0], off, w);
    return mkZExt(mkExtract(a->o[0], off, iw - off), w);
  }
  case K::SExt: {
    uint32_t iw = a->o[0]->w;
    if (off + w <= iw) return mkExtract(a->o[0], off, w);
    if (off < iw) return mkSExt(mkExtract(a->o[0], off, iw - off), w);
    break;
  }
  case K::Ite: return mkIte(a->o[0], mkExtract(a->o[1], off, w), mkExtract(a->o[2], off, w));
  case K::And: case K::Or: case K::Xor: return mkBin(a->k, mkExtract(a->o[0], off, w), mkExtract(a->o[1], off, w));
  case K::Add: case K::Mul: case K::Sub:
    if (off == 0 && w < 64 && (a->o[0]->k == K::SExt || a->o[0]->k == K::ZExt || isC(a->o[0])) &&
        (a->o[1]->k == K::SExt || a->o[1]->k == K::ZExt || isC(a->o[1])))
      return mkBin(a->k, mkExtract(a->o[0], 0, w), mkExtract(a->o[1], 0, w));
    break;
  default: break;
  }
  return intern(K::Extract, w, off, a);
}
// extension of a sum that provably does not overflow distributes over the sum
static E pushExt(E a, uint32_t w, bool sgn) {
  if (a->k != K::Add && a->k != K::Sub && a->k != K::Mul && !(a->k == K::Concat && isC(a->o[1]) && a->o[1]->imm == 0) && !(sgn && a->k == K::Ite)) return nullptr;
  if (!sgn && rng(a).lo < 0) return nullptr;
  if (a->k == K::Ite) return nullptr;
  if (a->k == K::Concat) { // shl by constant
    E h = a->o[0]; uint32_t s = a->o[1]->w; E src = h->k == K::Extract && h->imm == 0 ? h->o[0] : nullptr;
    if (!src || src->w != a->w || s >= 63) return nullptr;
    Rng r = rng(src); if (!fitsS((__int128)r.lo << s, (__int128)r.hi << s, a->w)) return nullptr;
    return mkBin(K::Mul, mkConst(1ull << s, w), mkSExt(src, w));
  }
  Rng x = rng(a->o[0]), y = rng(a->o[1]); __int128 lo, hi;
  if (a->k == K::Add) { lo = (__int128)x.lo + y.lo; hi = (__int128)x.hi + y.hi; }
  else if (a->k == K::Sub) { lo = (__int128)x.lo - y.hi; hi = (__int128)x.hi - y.lo; }
  else { __int128 c[4] = {(__int128)x.lo * y.lo, (__int128)x.lo * y.hi, (__int128)x.hi * y.lo, (__int128)x.hi * y.hi}; lo = hi = c[0]; for (auto v : c) { if (v < lo) lo = v; if (v > hi) hi = v; } }
  if (!fitsS(lo, hi, a->w)) return nullptr;
  return mkBin(a->k, mkSExt(a->o[0], w), mkSExt(a->o[1], w));
}
E mkZExt(E a, uint32_t w) {
  if (w == a->w) return a;
  if (isC(a) && w <= 64) return mkConst(a->imm, w);
  if (w > 64) { if (a->k == K::ZExt) return mkZExt(a->o[0], w); return intern(K::ZExt, w, 0, a); }
  if (a->k == K::ZExt) return mkZExt(a->o[0], w);
  if (w <= 64 && a->w > 1) { if (E r = pushExt(a, w, false)) return r; }
  if (isIteConst(a)) return mkIte(a->o[0], mkZExt(a->o[1], w), mkZExt(a->o[2], w));
  return intern(K::ZExt, w, 0, a);
}
E mkSExt(E a, uint32_t w) {
  if (w == a->w) return a;
  if (isC(a) && w <= 64) return mkConst((uint64_t)sextw(a->imm, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->o[0], w);
  if (a->k == K::ZExt) return mkZExt(a->o[0], w);
  if (w <= 64 && a->w > 1) { if (E r = pushExt(a, w, true)) return r; }
  if (isIteConst(a)) return mkIte(a->o[0], mkSExt(a->o[1], w), mkSExt(a->o[2], w));
  if (w <= 64 && rng(a).lo >= 0) return intern(K::ZExt, w, 0, a);
  return intern(K::SExt, w, 0, a);
}
E mkF1(K k, E a, uint64_t imm) {
  if (isC(a)) { E f = fold(k, a->w, imm, a, nullptr, nullptr); if (f) return f; }
  if (k == K::FNeg && a->k == K::FNeg) return a->o[0];
  if (k == K::FRound && (a->k == K::SIToF || a->k == K::UIToF || a->k == K::FRound)) return a; // already integral
  return intern(k, a->w, imm, a);
}
E mkFConv(K k, E a, uint32_t w) {
  if (isC(a)) { E f = fold(k, w, 0, a, nullptr, nullptr); if (f) return f; }
  if (k == K::FTrunc && a->k == K::FExt) return a->o[0];
  return intern(k, w, 0, a);
}
E mkFUn(unsigned fid, E a, E b, uint32_t w) {
  if (isC(a) && (!b || isC(b))) { E f = fold(K::FUn, w, fid, a, b, nullptr); if (f) return f; }
  return intern(K::FUn, w, fid, a, b);
}

static std::vector<std::unique_ptr<std::vector<uint32_t>>> g_varsets;
static const std::vector<uint32_t> g_emptyVars;
const std::vector<uint32_t> &varsOf(E e) {
  if (e->vars) return *e->vars;
  // iterative post-order
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    if (x->k == K::Const) { x->vars = &g_emptyVars; st.pop_back(); continue; }
    if (x->k == K::Var) { auto p = std::make_unique<std::vector<uint32_t>>(); p->push_back((uint32_t)x->imm); x->vars = p.get(); g_varsets.push_back(std::move(p)); st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < 3; i++) if (x->o[i] && !x->o[i]->vars) { st.push_back(x->o[i]); ready = false; }
    if (!ready) continue;
    const std::vector<uint32_t> *cur = &g_emptyVars;
    for (int i = 0; i < 3; i++) if (x->o[i]) {
      const std::vector<uint32_t> *n = x->o[i]->vars;
      if (n->empty() || n == cur) continue;
      if (cur->empty()) { cur = n; continue; }
      if (std::includes(cur->begin(), cur->end(), n->begin(), n->end())) continue;
      if (std::includes(n->begin(), n->end(), cur->begin(), cur->end())) { cur = n; continue; }
      auto p = std::make_unique<std::vector<uint32_t>>();
      std::set_union(cur->begin(), cur->end(), n->begin(), n->end(), std::back_inserter(*p));
      cur = p.get(); g_varsets.push_back(std::move(p));
    }
    x->vars = cur; st.pop_back();
  }
  return *e->vars;
}

static inline u128 mask128(uint32_t w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
bool evalE(E root, const Model &m, u128 &out) {
  std::vector<E> st{root};
  auto &memo = m.memo;
  while (!st.empty()) {
    E x = st.back();
    if (memo.count(x->id)) { st.pop_back(); continue; }
    if (x->w > 128) return false;
    if (x->k == K::Const) { memo[x->id] = x->imm; st.pop_back(); continue; }
    if (x->k == K::Var) { auto it = m.m.find((uint32_t)x->imm); memo[x->id] = it == m.m.end() ? 0 : it->second; st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < 3; i++) if (x->o[i] && !memo.count(x->o[i]->id)) { st.push_back(x->o[i]); ready = false; }
    if (!ready) continue;
    u128 v[3] = {0, 0, 0}; uint32_t vw[3] = {0, 0, 0};
    bool wide = x->w > 64;
    for (int i = 0; i < 3; i++) if (x->o[i]) { v[i] = memo[x->o[i]->id]; vw[i] = x->o[i]->w; if (vw[i] > 64) wide = true; }
    u128 r;
    if (!wide) {
      uint64_t vv[3] = {(uint64_t)v[0], (uint64_t)v[1], (uint64_t)v[2]}; uint64_t o;
      if (!evalOp(x->k, x->w, x->imm, vv, vw, o)) return false;
      r = o;
    } else switch (x->k) {
      case K::Add: r = v[0] + v[1]; break; case K::Sub: r = v[0] - v[1]; break; case K::Mul: r = v[0] * v[1]; break;
      case K::And: r = v[0] & v[1]; break; case K::Or: r = v[0] | v[1]; break; case K::Xor: r = v[0] ^ v[1]; break;
      case K::UDiv: r = v[1] ? v[0] / v[1] : ~(u128)0; break; case K::URem: r = v[1] ? v[0] % v[1] : v[0]; break;
      case K::Shl: r = v[1] >= x->w ? 0 : v[0] << (unsigned)v[1]; break;
      case K::LShr: r = v[1] >= x->w ? 0 : v[0] >> (unsigned)v[1]; break;
      case K::Eq: r = v[0] == v[1]; break; case K::Ult: r = v[0] < v[1]; break; case K::Ule: r = v[0] <= v[1]; break;
      case K::Ite: r = v[0] ? v[1] : v[2]; break;
      case K::Concat: r = (v[0] << vw[1]) | v[1]; break;
      case K::Extract: r = v[0] >> x->imm; break;
      case K::ZExt: r = v[0]; break;
      case K::SExt: { u128 s = (u128)1 << (vw[0] - 1); r = (v[0] ^ s) - s; break; }
      default: return false;
    }
    memo[x->id] = r & mask128(x->w);
    st.pop_back();
  }
  out = memo[root->id];
  return true;
}

static const char *kn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
 "=","u<","u<=","s<","s<=","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","fsqrt","fabs","fneg","fround","fmin","fmax",
 "f=","f<","f<=","funo","fext","ftrunc","ftosi","ftoui","sitof","uitof","fun"};
std::string show(E e, int d) {
  std::ostringstream o;
  if (e->k == K::Const) { o << "#" << (e->w <= 64 ? (long long)sextw(e->imm, e->w) : -1) << ":" << e->w; return o.str(); }
  if (e->k == K::Var) return g_vars[e->imm].name;
  if (d == 0) return "...";
  o << "(" << kn[(int)e->k];
  if (e->k == K::Extract) o << "[" << e->imm << "," << e->w << "]";
  for (int i = 0; i < 3; i++) if (e->o[i]) o << " " << show(e->o[i], d - 1);
  o << ")"; return o.str();
}
