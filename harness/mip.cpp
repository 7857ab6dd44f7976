// C15 MIP geometry, C16 resampling, C34 worker threads, C35 min/max reductions
#include <cfloat>
#include <boost/utility.hpp>
#include "MIPField.h"
#include "MIPUtil.h"
#include "MinMaxUtil.h"
#include "h.h"
#ifndef SPARSE
#define SPARSE 0
#endif
#ifndef ELEM
#define ELEM float
#endif
#ifndef NONNEG
#define NONNEG 1
#endif
typedef ELEM T;
#if SPARSE
typedef SparseField<T> F; typedef MIPSparseField<T> MF;
#else
typedef DenseField<T> F; typedef MIPDenseField<T> MF;
#endif
#ifndef FILT
#define FILT BoxFilter
#endif
#ifndef ORDER
#define ORDER 1
#endif
#ifndef THREADS
#define THREADS 1
#endif
static int fdiv(int a, int b) { int q = a / b; return q - ((a % b) < 0 ? 1 : 0); }
// the per-axis filter footprint, written from the documentation: coarse voxel c of a level whose finer level starts at odd/even offset covers fine 2c-add .. 2c+1-add
static V3i halved(const V3i &res, const V3i &off) { V3i r; for (int a = 0; a < 3; a++) { int add = off[a] & 1; r[a] = (res[a] + 1) / 2 + add; } return r; }
static V3i halfOff(const V3i &o) { return V3i(fdiv(o.x, 2), fdiv(o.y, 2), fdiv(o.z, 2)); }
// single-level resolution rule for any base resolution
extern "C" int mip_res() {
  int r = sym_range(1, 1 << 20, "r"); int level = sym_pick(0, 12, "level"); int add = sym_range(0, 1, "add");
  V3i m = Field3D::detail::mipResolution(V3i(r, 1, 1), level, V3i(add, 0, 0));
  int s = 1 << level;
  sym_assert(m.x == ((r + s - 1) >> level) + add, "halving rule");
  sym_assert((m.x >= 1) & (m.y == 1) & (m.z == 1), "positive size");
  sym_reach("end"); return 0;
}
static F::Ptr mkBase(const V3i &res) {
  F::Ptr f(new F); f->setMapping(tmap());
#if SPARSE
  f->setBlockOrder(ORDER);
#endif
  f->setSize(res); return f;
}
#ifndef MMX
#define MMX 6
#endif
#ifndef NMULT
#define NMULT 5
#endif
#ifndef LO
#define LO 3
#define HI 9
#define RYL 3
#define RYH 4
#define RZL 2
#define RZH 3
#endif
// level chain: sizes, offsets, windows, count, coverage
extern "C" int mip_levels() {
  int rx = sym_pick(LO, HI, "rx"), ry = sym_pick(RYL, RYH, "ry"), rz = sym_pick(RZL, RZH, "rz");
  V3i res(rx, ry, rz), off(sym_pick(-3, 3, "ox"), sym_pick(0, 1, "oy"), 0);
  int minSize = sym_pick(1, 4, "minSize");
  F::Ptr b = mkBase(res); b->name = "n"; b->attribute = "a"; b->clear(Sym<T>::of(1.5f));
  MF::Ptr m = makeMIP<MF, FILT>(*b, minSize, off, (size_t)1);
  sym_assert(m, "built");
  V3i r = res, o = off; size_t l = 0, n = m->numLevels();
  for (;;) {
    sym_assert(l < n, "level exists");
    V3i lr = m->mipResolution(l); F::Ptr lf = m->concreteMipLevel(l);
    Box3i dw = lf->dataWindow();
    sym_assert((lr.x == r.x) & (lr.y == r.y) & (lr.z == r.z), "level resolution follows the halving rule");
    sym_assert(eqBox(dw, Box3i(V3i(0), r - V3i(1))) & eqBox(lf->extents(), dw), "level window");
    sym_assert((r.x > 0) & (r.y > 0) & (r.z > 0), "positive size");
    for (int a = 0; a < 3; a++) { int s = 1 << l, lo = o[a] * s, hi = (o[a] + r[a]) * s; sym_assert((lo <= off[a]) & (hi >= off[a] + res[a]), "level covers the base window"); }
    V3f p; m->getVsMIPCoord(V3f(1.25f, 0.5f, 2.0f), l, p); V3d w((1.25 + off.x) / (1 << l) - o.x, (0.5 + off.y) / (1 << l) - o.y, (2.0 + off.z) / (1 << l) - o.z);
    sym_assert((fabs(p.x - w.x) < 1e-4) & (fabs(p.y - w.y) < 1e-4) & (fabs(p.z - w.z) < 1e-4), "level coordinates");
    if (!((r.x > minSize || r.y > minSize || r.z > minSize) && (r.x > 2 && r.y > 2 && r.z > 2))) break;
    r = halved(r, o); o = halfOff(o); l++;
  }
  sym_assert(n == l + 1, "stops at the requested floor");
  sym_assert((m->mipOffset() == off) & (m->metadata().vecIntMetadata("mipoffset", V3i(77)) == off) & (m->name == "n") & (m->attribute == "a"), "offset and naming recorded");
  sym_assert(eqBox(m->dataWindow(), b->dataWindow()) & eqBox(m->extents(), b->extents()), "base window");
  sym_reach("end"); return 0;
}
// any offset: sizes and offsets of the chain
extern "C" int mip_offsets() {
  V3i res(5 + 4 * sym_pick(0, 1, "big"), 5, 4), off(0); int ax = sym_pick(0, 2, "axis");
  off[ax] = sym_pick(-70, 70, "off") + (sym_pick(0, 1, "far") ? -100000 : 0);
  F::Ptr b = mkBase(res); b->clear(Sym<T>::of(1.5f));
  MF::Ptr m = makeMIP<MF, FILT>(*b, 1, off, (size_t)1);
  sym_assert(m, "built");
  int r = res[ax], o = off[ax];
  for (size_t l = 0; l < m->numLevels(); l++) {
    sym_assert(m->mipResolution(l)[ax] == r, "level resolution follows the halving rule");
    sym_assert(m->concreteMipLevel(l)->dataWindow().max[ax] == r - 1, "level window");
    long s = 1L << l, lo = o * s, hi = ((long)o + r) * s; sym_assert((lo <= off[ax]) & (hi >= (long)off[ax] + res[ax]), "level covers the base window");
    r = (r + 1) / 2 + (o & 1); o = o >> 1;
  }
  sym_assert(m->mipOffset() == off, "offset recorded");
  sym_reach("end"); return 0;
}
#ifndef VEC
// C35: the min and max pyramids keep the field's minimum and maximum at every level
extern "C" int minmax() {
  int ax = sym_pick(0, 2, "axis"), n = sym_pick(2, MMX, "n"), o = sym_pick(0, 2, "o"); V3i res(3), at(o); res[ax] = n; at[ax] = sym_pick(0, n - 1, "at");
  static const float mults[] = {1.0f, 0.5f, 0.75f, 0.4f, 0.3f, 2.0f};
  float mult = mults[sym_pick(0, NMULT - 1, "mult")];
  F::Ptr b = mkBase(res);
  float lo = sym_f32("lo"), hi = sym_f32("hi"); sym_assume_((uint64_t)((lo < hi) & (lo > -1e30f) & (hi < 1e30f)));
  int which = sym_pick(0, 1, "which"); // the odd voxel is the smallest, or the largest
  b->clear(T(which ? lo : hi)); b->lvalue(at.x, at.y, at.z) = T(which ? hi : lo);
  std::pair<MF::Ptr, MF::Ptr> p = makeMinMax<MF>(*b, mult, (size_t)1);
  sym_assert(p.first && p.second, "built");
  MF::Ptr m = which ? p.second : p.first; float odd = which ? hi : lo, rest = which ? lo : hi;
  for (size_t l = 0; l < m->numLevels(); l++) {
    F::Ptr f = m->concreteMipLevel(l); Box3i dw = f->dataWindow(); bool has = false, only = true;
    for (int k = dw.min.z; k <= dw.max.z; k++) for (int j = dw.min.y; j <= dw.max.y; j++) for (int i = dw.min.x; i <= dw.max.x; i++) { float v = f->fastValue(i, j, k); has = has | (v == odd); only = only & ((v == odd) | (v == rest)); }
    sym_assert(has, "extreme value present at every level"); sym_assert(only, "levels hold only values of the field");
  }
  m = which ? p.first : p.second;
  for (size_t l = 0; l < m->numLevels(); l++) {
    F::Ptr f = m->concreteMipLevel(l); Box3i dw = f->dataWindow(); bool has = false, only = true;
    for (int k = dw.min.z; k <= dw.max.z; k++) for (int j = dw.min.y; j <= dw.max.y; j++) for (int i = dw.min.x; i <= dw.max.x; i++) { float v = f->fastValue(i, j, k); has = has | (v == rest); only = only & ((v == odd) | (v == rest)); }
    sym_assert(has & only, "the other extreme is kept too");
  }
  sym_reach("end"); return 0;
}
#endif
#ifndef RXS
#define RXS 7
#endif
#ifndef SORDER
#define SORDER 1
#endif
#ifndef VEC
// C34: the result of a level computed by several workers, under every schedule, equals that of one worker
extern "C" int mip_threads() {
  V3i res(3); int ax = sym_pick(0, 2, "axis"); res[ax] = RXS;
  F::Ptr b(new F); b->setMapping(tmap());
#if SPARSE
  b->setBlockOrder(SORDER);
#endif
  b->setSize(res); b->clear(T(0));
  for (int i = 0; i < RXS; i += 2) { V3i p(i & 1, 1, 1); p[ax] = i; b->lvalue(p.x, p.y, p.z) = T(float(i + 1)); }
  float v = sym_f32("v"); sym_assume_((uint64_t)((v >= 1.0f) & (v <= 2.0f)));
  V3i q(0); q[ax] = RXS - 1; b->lvalue(q.x, q.y, q.z) = T(v);
  F::Ptr t1(new F), t2(new F);
  Field3D::detail::mipResample(*b, *b, *t1, 1, V3i(0), FILT(), (size_t)1);
  Field3D::detail::mipResample(*b, *b, *t2, 1, V3i(0), FILT(), (size_t)THREADS);
  Box3i dw = t1->dataWindow(); sym_assert(eqBox(dw, t2->dataWindow()), "same window");
  for (int k = dw.min.z; k <= dw.max.z; k++) for (int j = dw.min.y; j <= dw.max.y; j++) for (int i = dw.min.x; i <= dw.max.x; i++)
    sym_assert(t1->fastValue(i, j, k) == t2->fastValue(i, j, k), "same values as one worker");
  sym_reach("end"); return 0;
}
#endif
#ifndef NMAX
#define NMAX 5
#endif
#ifndef OMAX
#define OMAX 3
#endif
#ifndef MMAX
#define MMAX 7
#endif
#ifndef FARGS
#define FARGS
#endif
static bool nearly(double a, double b, double m = 0.002) { double d = a - b; return (d <= m) & (d >= -m); }
static bool nearV(float a, float b) { return nearly(a, b); }
static bool nearV(half a, half b) { return nearly(float(a), float(b), 1.0); }
static bool nearV(const V3f &a, const V3f &b) { return nearly(a.x, b.x) & nearly(a.y, b.y) & nearly(a.z, b.z); }
static bool nearV(const V3d &a, const V3d &b) { return nearly(a.x, b.x) & nearly(a.y, b.y) & nearly(a.z, b.z); }
template <class X> struct Val { static X make(const char *n) { return X(sym_fin32(1000, n)); } };
template <> struct Val<V3f> { static V3f make(const char *n) { float a = sym_fin32(1000, n), b = sym_fin32(1000, n), c = sym_fin32(1000, n); return V3f(a, b, c); } };
template <> struct Val<V3d> { static V3d make(const char *n) { double a = sym_fin64(1000, n), b = sym_fin64(1000, n), c = sym_fin64(1000, n); return V3d(a, b, c); } };

static void sizes(V3i &res, V3i &nres, int &ax) { ax = sym_pick(0, 2, "axis"); int o = sym_pick(2, OMAX, "o"); res = V3i(o); nres = V3i(o); res[ax] = sym_pick(2, NMAX, "n"); nres[ax] = sym_pick(1, MMAX, "m"); }
// C16: a constant field stays constant, the window is the requested one, names and metadata follow
extern "C" int res_const() {
  V3i res, nres; int ax; sizes(res, nres, ax);
  F::Ptr b = mkBase(res); T v = Val<T>::make("v"); b->clear(v); b->name = "n"; b->attribute = "at"; b->metadata().setIntMetadata("k", 5);
  F t; t.setMapping(tmap());
  bool ok = resample(*b, t, nres, FILT(FARGS));
  sym_assert(ok, "resampled");
  Box3i dw = t.dataWindow(); sym_assert(eqBox(dw, Box3i(V3i(0), nres - V3i(1))) & eqBox(t.extents(), dw), "result has the requested window");
  sym_assert((t.name == "n") & (t.attribute == "at") & (t.metadata().intMetadata("k", 0) == 5), "name, attribute and metadata follow");
  for (int k = 0; k < nres.z; k++) for (int j = 0; j < nres.y; j++) for (int i = 0; i < nres.x; i++) sym_assert(nearV(t.fastValue(i, j, k), v), "a constant field keeps its value");
  sym_reach("end"); return 0;
}
#ifndef VEC
// normalised filter weight of source voxel p for target voxel t along one axis of n -> m voxels; -1 where rounding decides
static double weightOf(int n, int m, int t, int p, double &tot) {
  FILT f = FILT(FARGS); double w = -1; tot = 0; bool up = m > n;
  for (int s = 0; s < n; s++) {
    double d = up ? fabs((t + 0.5) * n / m - (s + 0.5)) : fabs((s + 0.5) * m / n - (t + 0.5));
    if (fabs(d - f.support()) < 1e-4) { if (f.eval(f.support() * 0.9999f) > 0.01f) return -1; continue; }
    double e = d > f.support() ? 0 : f.eval((float)d); tot += e; if (s == p) w = e;
  }

  return w;
}
// C16: every result voxel is the normalised filter-weighted blend of the source voxels
extern "C" int res_blend() {
  V3i res, nres; int ax; sizes(res, nres, ax);
  V3i p(0); p[ax] = sym_pick(0, res[ax] - 1, "p");
  F::Ptr b = mkBase(res); float x = sym_fin32(1000, "x"), y = NONNEG ? sym_fin32(1000, "y") : 0; sym_assume_((uint64_t)((x >= 1) & ((y >= 1) | (y == 0)))); b->clear(T(y)); b->lvalue(p.x, p.y, p.z) = T(x);
  F t; t.setMapping(tmap());
  sym_assert(resample(*b, t, nres, FILT(FARGS)), "resampled");
  for (int k = 0; k < nres.z; k++) for (int j = 0; j < nres.y; j++) for (int i = 0; i < nres.x; i++) {
    V3i q(i, j, k); double w = 1; bool sure = true;
    for (int a = 0; a < 3; a++) { double tot = 0, e = weightOf(res[a], nres[a], q[a], p[a], tot); if (e == -1 || tot <= 0) sure = false; else w *= e / tot; }
    double got = t.fastValue(i, j, k);
    if (NONNEG) sym_assert((got >= (x < y ? x : y) - 0.01) & (got <= (x < y ? y : x) + 0.01), "non-negative filters stay between the source values");
    if (sure) sym_assert(nearly(got, y + (double(x) - y) * w, 0.05), "weights are the filter's, normalised");
  }
  sym_reach("end"); return 0;
}
#endif
#if SPARSE
// C16: sparse and dense fields with the same contents filter to the same values
extern "C" int sparse_dense() {
  typedef DenseField<T> DF;
  V3i res(sym_pick(3, RXS, "nx"), 3, 3); int ax = sym_pick(0, 2, "axis"); std::swap(res[0], res[ax]); int order = sym_pick(0, SORDER, "order");
  F s; s.setMapping(tmap()); s.setBlockOrder(order); s.setSize(res); DF d; d.setMapping(tmap()); d.setSize(res);
  s.clear(T(0)); d.clear(T(0));
  float v = sym_f32("v"); sym_assume_((uint64_t)((v >= 1.0f) & (v <= 2.0f)));
  V3i p(sym_pick(0, 1, "p1")); p[ax] = sym_pick(0, res[ax] - 1, "p"); 
  if (sym_pick(0, 1, "how")) { s.lvalue(p.x, p.y, p.z) = T(v); d.lvalue(p.x, p.y, p.z) = T(v); }
  else { // a block's empty value instead of a voxel
    int bi, bj, bk; s.getBlockCoord(p.x, p.y, p.z, bi, bj, bk); s.setBlockEmptyValue(bi, bj, bk, T(v));
    for (int k = 0; k < res.z; k++) for (int j = 0; j < res.y; j++) for (int i = 0; i < res.x; i++) d.lvalue(i, j, k) = s.fastValue(i, j, k);
  }
  V3i off(0); off[ax] = sym_pick(0, 1, "off");
  F st; DF dt; st.setBlockOrder(order);
  if (sym_pick(0, 1, "kind")) { Field3D::detail::mipResample(s, s, st, 1, off, FILT(FARGS), (size_t)1); Field3D::detail::mipResample(d, d, dt, 1, off, FILT(FARGS), (size_t)1); }
  else { V3i n = res; n[ax] = 4; sym_assert(resample(s, st, n, FILT(FARGS)) & resample(d, dt, n, FILT(FARGS)), "resampled"); }
  Box3i dw = dt.dataWindow(); sym_assert(eqBox(dw, st.dataWindow()), "same window");
  for (int k = 0; k <= dw.max.z; k++) for (int j = 0; j <= dw.max.y; j++) for (int i = 0; i <= dw.max.x; i++) sym_assert(st.fastValue(i, j, k) == dt.fastValue(i, j, k), "sparse and dense results agree");
  sym_reach("end"); return 0;
}
#endif
