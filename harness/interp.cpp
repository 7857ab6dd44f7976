// C11 linear and C12 cubic interpolation
#include <cfloat>
#include <boost/utility.hpp>
#include "FieldInterp.h"
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
#include "MIPField.h"
#include "MIPInterp.h"
#include "FieldInterp.h"
#include "h.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef ELEM
#define ELEM float
#endif
typedef ELEM T;
#if KIND == 0
typedef DenseField<T> F;
#elif KIND == 1
typedef SparseField<T> F;
#else
typedef MACField<T> F;
#endif
#ifndef BIG
#define BIG 0
#endif
template <class X> struct Val { static X of(double a) { return X(a); } static X at(double a, int) { return X(a); } static double get(const X &v, int) { return v; } enum { N = 1 }; };
template <> struct Val<half> { static half of(double a) { return half((float)a); } static half at(double a, int) { return of(a); } static double get(const half &v, int) { return float(v); } enum { N = 1 }; };
// component c of a vector holds the value, the others multiples of it
template <class B> struct Val<Imath::Vec3<B> > { static Imath::Vec3<B> of(double a) { return Imath::Vec3<B>(B((float)a), B((float)(a * 2)), B((float)(a * -1))); } static double get(const Imath::Vec3<B> &v, int c) { return (double)(c == 0 ? v.x : c == 1 ? v.y : v.z); } enum { N = 3 }; };
static const double comp[3] = {1, 2, -1};
static bool close(double a, double b, double m = 0.004) { double d = a - b; return (d <= m) & (d >= -m); }
#ifdef EXACT
static bool agree(double a, double b) { return sym_in_engine() ? a == b : close(a, b); }
#else
static bool agree(double a, double b) { return close(a, b, sizeof(ELEM) == 2 || sizeof(ELEM) == 6 ? 1.0 : 0.004); }
#endif
#ifdef SHAPES
static const int S[][3] = {SHAPES};
#else
static const int S[][3] = {{3, 2, 1}, {1, 3, 2}, {2, 1, 3}, {1, 1, 1}};
#endif
#ifndef NS
#define NS 4
#endif
#ifndef OLO
#define OLO 0
#define OHI 2
#endif
#ifndef LMAX
#define LMAX 5
#endif
#ifndef NLINE
#define NLINE 3
#endif
static const int O[][3] = {{0, 0, 0}, {-5, -3, -2}, {3, 4, 7}};
static Box3i window(F &f) {
  int s = sym_pick(0, NS - 1, "shape"), o = sym_pick(OLO, OHI, "origin");
  Box3i dw(V3i(O[o][0], O[o][1], O[o][2]), V3i(O[o][0] + S[s][0] - 1, O[o][1] + S[s][1] - 1, O[o][2] + S[s][2] - 1));
  f.setMapping(tmap());
#if KIND == 1
  f.setBlockOrder(sym_pick(0, 2, "order"));
#endif
  f.setSize(dw); return dw;
}
// weight of voxel h along one axis for a sample in cell c (between centres c and c+1), fraction t
static double lin(int lo, int hi, int c, double t, int h) {
  int a = std::min(std::max(c, lo), hi), b = std::min(std::max(c + 1, lo), hi);
  return (a == h ? 1 - t : 0.0) + (b == h ? t : 0.0);
}
// VALUES: fixed fractions, any values; otherwise any fractions, fixed values
static double any01() { double t = sym_f64("t"); sym_assume_((uint64_t)((t >= 0) & (t < 1))); return t; }
static double frac() {
#if defined(VALUES)
  return sym_pick(0, 1, "q") * 0.375;
#else
  return any01();
#endif
}
static int cell(int lo, int hi, const char *n) { return sym_pick(lo - 2, hi + 1, n); }
#if KIND < 2
extern "C" int linear_blend() {
  F f; Box3i dw = window(f);
  V3i h, c; double t[3], w = 1;
  
  for (int a = 0; a < 3; a++) {
    h[a] = sym_pick(dw.min[a], dw.max[a], "h"); c[a] = cell(dw.min[a], dw.max[a], "c");
    t[a] = frac();
    w *= lin(dw.min[a], dw.max[a], c[a], t[a], h[a]);
  }
#ifdef VALUES
  double x = sym_fin32(1000, "x"), y = sym_fin32(1000, "y");
#else
  double x = 5, y = 2;
#endif
  f.clear(Val<T>::of(y)); f.lvalue(h.x, h.y, h.z) = Val<T>::of(x);
  V3d p(c.x + 0.5 + t[0], c.y + 0.5 + t[1], c.z + 0.5 + t[2]);
  LinearFieldInterp<T> li; F::LinearInterp fi; LinearGenericFieldInterp<F> gi;
  T r1 = li.sample(f, p), r2 = fi.sample(f, p), r3 = gi.sample(f, p);
  double want = y + (x - y) * w;
  for (int k = 0; k < Val<T>::N; k++) {
    sym_assert(agree(Val<T>::get(r1, k), want * comp[k]), "base class variant: clamped trilinear blend");
    sym_assert(agree(Val<T>::get(r2, k), want * comp[k]), "the field's own variant: clamped trilinear blend");
    sym_assert(agree(Val<T>::get(r3, k), want * comp[k]), "generic variant: clamped trilinear blend");
  }
  sym_reach("end"); return 0;
}
#else
extern "C" int linear_mac() {
  F f; Box3i dw = window(f);
  int comp = sym_pick(0, 2, "component");
  V3i hi = dw.max; hi[comp]++; // faces of this component
  V3i h, c; double t[3], w = 1; V3d p; int free = sym_pick(0, 2, "free"); (void)free;
  for (int a = 0; a < 3; a++) {
    h[a] = sym_pick(dw.min[a], hi[a], "h");
#ifdef VALUES
    c[a] = cell(dw.min[a], hi[a], "c"); t[a] = frac();
#else
    if (a == free) { c[a] = cell(dw.min[a], hi[a], "c"); t[a] = frac(); } else { c[a] = sym_pick(dw.min[a] - 1, hi[a], "c"); t[a] = 0.375; }
#endif
    w *= lin(dw.min[a], hi[a], c[a], t[a], h[a]);
    p[a] = c[a] + t[a] + (a == comp ? 0 : 0.5);
  }
  
#ifdef VALUES
  double x = sym_fin32(1000, "x"), y = sym_fin32(1000, "y"), z = 7;
#else
  double x = 5, y = 2, z = 7;
#endif
  T bg(z); bg[comp] = y; f.clear(bg);
  (comp == 0 ? f.u(h.x, h.y, h.z) : comp == 1 ? f.v(h.x, h.y, h.z) : f.w(h.x, h.y, h.z)) = x;
  F::LinearInterp fi; T r = fi.sample(f, p);
  double want = y + (x - y) * w;
  for (int k = 0; k < 3; k++) sym_assert(agree(r[k], k == comp ? want : z), "staggered variant: clamped trilinear blend of the component's faces");
  MACComponent mc = comp == 0 ? MACCompU : comp == 1 ? MACCompV : MACCompW;
  sym_assert(agree(fi.sample(f, mc, p), want), "one component of a staggered field");
  // through the base class the field is cell centred
  LinearFieldInterp<T> li; V3i v; for (int a = 0; a < 3; a++) v[a] = std::min(std::max(h[a], dw.min[a]), dw.max[a]);
  T cv = f.value(v.x, v.y, v.z), q = li.sample(f, V3d(v.x + 0.5, v.y + 0.5, v.z + 0.5));
  for (int k = 0; k < 3; k++) sym_assert(agree(q[k], cv[k]), "base class variant gives the cell value at its centre");
  sym_reach("end"); return 0;
}
#endif
// reads stay in the window for any position at all
extern "C" int interp_inside() {
  F f; Box3i dw = window(f); f.clear(Val<T>::of(3));
  V3d p(0.5); int ax = sym_pick(0, 2, "axis"); for (int a = 0; a < 3; a++) p[a] = dw.min[a] + 0.25;
  p[ax] = sym_f64("p"); sym_assume_((uint64_t)((p[ax] >= -1e6) & (p[ax] <= 1e6)));
#ifdef CUBIC
  F::CubicInterp fi; CubicFieldInterp<T> li;
#else
  F::LinearInterp fi; LinearFieldInterp<T> li;
#endif
  T a = fi.sample(f, p), b = li.sample(f, p);
  for (int k = 0; k < Val<T>::N; k++) sym_assert(agree(Val<T>::get(a, k), 3 * comp[k]) & agree(Val<T>::get(b, k), 3 * comp[k]), "a constant field is reproduced");
  sym_reach("end"); return 0;
}
// cubic: Hermite segment between the bracketing samples with central-difference slopes, flat between equal samples
static double herm(double f1, double f2, double f3, double f4, double t) {
  double d1 = (f3 - f1) * 0.5, d2 = (f4 - f2) * 0.5; if (f3 == f2) d1 = d2 = 0;
  return (2 * t * t * t - 3 * t * t + 1) * f2 + (t * t * t - 2 * t * t + t) * d1 + (3 * t * t - 2 * t * t * t) * f3 + (t * t * t - t * t) * d2;
}
#if KIND < 2
#define HI(a) dw.max[a]
#define OFF(a) 0.5
#else
#define HI(a) (dw.max[a] + (a == mc ? 1 : 0))
#define OFF(a) (a == mc ? 0.0 : 0.5)
#endif
// along each axis, for fields that vary along that axis only
extern "C" int cubic_line() {
  F f; f.setMapping(tmap());
#if KIND == 1
  f.setBlockOrder(sym_pick(0, 2, "order"));
#endif
  int ax = sym_pick(0, 2, "axis"), o = sym_pick(OLO, OHI, "origin"), n = sym_pick(1, LMAX, "n");
#if KIND == 2
  int mc = sym_pick(0, 2, "component");
#else
  int mc = 0;
#endif
  (void)mc;
  V3i d(2, 1, 2); if (ax == 1) d.x = 1; d[ax] = n;
  Box3i dw(V3i(O[o][0], O[o][1], O[o][2]), V3i(O[o][0] + d.x - 1, O[o][1] + d.y - 1, O[o][2] + d.z - 1)); f.setSize(dw);
  static const double line[3][6] = {{1, 2, 4, 3, 3, 7}, {0, 0, 5, -1, 2, 2}, {-3, 8, 1, 1, 6, 0}}; const double *L = line[sym_pick(0, NLINE - 1, "line")];
#if KIND == 2
  f.clear(T(9));
#endif
  for (int k = dw.min.z; k <= HI(2); k++) for (int j = dw.min.y; j <= HI(1); j++) for (int i = dw.min.x; i <= HI(0); i++) {
    V3i q(i, j, k); double v = L[q[ax] - dw.min[ax]];
#if KIND == 2
    (mc == 0 ? f.u(i, j, k) : mc == 1 ? f.v(i, j, k) : f.w(i, j, k)) = v;
#else
    f.lvalue(i, j, k) = Val<T>::of(v);
#endif
  }
  int lo = dw.min[ax], hi = HI(ax), c = sym_pick(lo - 2, hi + 1, "c"); double t = sym_f64("t"); sym_assume_((uint64_t)((t >= 0) & (t < 1)));
  V3d p; for (int a = 0; a < 3; a++) p[a] = dw.min[a] + OFF(a) + sym_pick(-1, 1, "q") * 0.5;
  p[ax] = c + OFF(ax) + t;
  double v[4]; for (int s = 0; s < 4; s++) v[s] = L[std::min(std::max(c - 1 + s, lo), hi) - lo];
  double want = c < lo ? v[1] : herm(v[0], v[1], v[2], v[3], t);
  F::CubicInterp fi; T r = fi.sample(f, p);
#if KIND == 2
  sym_assert(agree(r[mc], want), "cubic segment between the bracketing faces"); for (int k = 0; k < 3; k++) if (k != mc) sym_assert(agree(r[k], 9), "other components");
#else
  CubicFieldInterp<T> li; T r2 = li.sample(f, p);
  for (int k = 0; k < Val<T>::N; k++) { sym_assert(agree(Val<T>::get(r, k), want * comp[k]), "the field's own variant: cubic segment"); sym_assert(agree(Val<T>::get(r2, k), want * comp[k]), "base class variant: cubic segment"); }
#endif
  sym_reach("end"); return 0;
}
// the stored value at every voxel (face) centre; both variants agree anywhere
extern "C" int cubic_agree() {
  F f; Box3i dw = window(f);
#if KIND == 2
  int mc = sym_pick(0, 2, "component");
#else
  int mc = 0;
#endif
  (void)mc;
  V3i h; V3d p; bool centre = true; int ff = sym_pick(0, 1, "kind");
  for (int a = 0; a < 3; a++) { h[a] = sym_pick(dw.min[a], HI(a), "h"); p[a] = h[a] + OFF(a); if (ff) { int q = sym_pick(-3, 2, "off"); p[a] += q * 0.375; if (q) centre = false; } }
  double x = sym_fin32(1000, "x"), y = 2; sym_assume_((uint64_t)(x >= 3));
  f.clear(Val<T>::of(y));
#if KIND == 2
  (mc == 0 ? f.u(h.x, h.y, h.z) : mc == 1 ? f.v(h.x, h.y, h.z) : f.w(h.x, h.y, h.z)) = x;
  F::CubicInterp fi; T r = fi.sample(f, p);
  if (centre) sym_assert(agree(r[mc], x), "stored value at face centres");
#else
  f.lvalue(h.x, h.y, h.z) = Val<T>::of(x);
  F::CubicInterp fi; T r = fi.sample(f, p); CubicFieldInterp<T> li; T r2 = li.sample(f, p);
  for (int k = 0; k < Val<T>::N; k++) {
    if (centre) sym_assert(agree(Val<T>::get(r, k), x * comp[k]), "stored value at voxel centres");
    sym_assert(agree(Val<T>::get(r, k), Val<T>::get(r2, k)), "variants agree");
  }
#endif
  sym_reach("end"); return 0;
}
#if KIND < 2 && !defined(VEC)
// wsSample goes through the mapping; MIP interpolation blends the two levels around the spot size
extern "C" int mip_interp() {
  typedef MIPField<F> MF;
  F::Ptr a(new F), b(new F); 
#if KIND == 1
  a->setBlockOrder(1); b->setBlockOrder(1);
#endif
  FieldMapping::Ptr m(new MatrixFieldMapping); 
  a->setMapping(m); a->setSize(V3i(4, 4, 4)); b->setMapping(m->clone()); b->setSize(V3i(2, 2, 2));
  double x = sym_fin32(1000, "x"), y = sym_fin32(1000, "y");
  a->clear(T(0)); b->clear(T(0));
  V3i h(sym_pick(0, 3, "hx"), 1, 2), g(sym_pick(0, 1, "gx"), 1, 0); a->lvalue(h.x, h.y, h.z) = x; b->lvalue(g.x, g.y, g.z) = y;
  std::vector<F::Ptr> v; v.push_back(a); v.push_back(b);
  MF mf; mf.setup(v);
  MIPLinearInterp<MF> mi(mf); LinearFieldInterp<T> li;
  V3d p(sym_pick(-1, 17, "px") * 0.25, 1.75, 2.25); int s8 = sym_pick(0, 5, "spot"); float spot = 0.25f * s8 * 0.5f; // voxel sizes are 0.25 and 0.5
  double want, l0 = li.sample(*a, p), l1 = li.sample(*b, p * 0.5);
  if (spot <= 0.25f) want = l0; else if (spot >= 0.5f) want = l1; else want = l0 + (l1 - l0) * (spot - 0.25f) / 0.25f;
  sym_assert(agree(mi.sample(p, spot), want), "MIP interpolation blends the two nearest levels");
  V3d ws(p.x / 4, p.y / 4, p.z / 4); sym_assert(agree(wsSample<T>(a, li, ws), l0), "world-space sampling goes through the mapping");
  sym_reach("end"); return 0;
}
#endif
