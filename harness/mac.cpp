// C08 C09 C36: staggered fields
#include <cfloat>
#include <boost/utility.hpp>
#include "MACField.h"
#include "DenseField.h"
#include "MACFieldUtil.h"
#include "h.h"
#ifndef MAXN
#define MAXN 3
#endif
#ifndef ELEM
#define ELEM V3f
#endif
typedef ELEM T; typedef T::BaseType R;
typedef MACField<T> F;
static Box3i faces(Box3i b, int c) { b.max[c] += 1; return b; }
static R &at(F &f, int c, const Vox &v) { return c == 0 ? f.u(v.i, v.j, v.k) : c == 1 ? f.v(v.i, v.j, v.k) : f.w(v.i, v.j, v.k); }
static const R &cat(const F &f, int c, const Vox &v) { return c == 0 ? f.u(v.i, v.j, v.k) : c == 1 ? f.v(v.i, v.j, v.k) : f.w(v.i, v.j, v.k); }
extern "C" void mac_store() {
  F f; f.setMapping(tmap());
  Box3i dw = symBox(MAXN, MAXN, MAXN); f.setSize(dw);
  V3i n = dw.max - dw.min + V3i(1), cs = f.getComponentSize();
  sym_assert((cs.x == (n.x + 1) * n.y * n.z) & (cs.y == n.x * (n.y + 1) * n.z) & (cs.z == n.x * n.y * (n.z + 1)), "one more face than voxels along each axis");
  T c = Sym<T>::make("c"); f.clear(c);
  int c1 = sym_pick(0, 2, "c1"), c2 = sym_pick(0, 2, "c2"), cr = sym_pick(0, 2, "cr");
  Vox p1 = symVox(faces(dw, c1), "p1"), p2 = symVox(faces(dw, c2), "p2"), r = symVox(faces(dw, cr), "r");
  R a1 = Sym<R>::make("a1"), a2 = Sym<R>::make("a2");
  at(f, c1, p1) = a1; at(f, c2, p2) = a2;
  bool i2 = (c2 == cr) & same(p2, r), i1 = (c1 == cr) & same(p1, r) & !i2;
  const R &got = cat(f, cr, r);
  sym_assert((i2 & same(got, a2)) | (i1 & same(got, a1)) | (!i1 & !i2 & same(got, c[cr])), "each face holds what was last written to it");
  sym_assert(same(at(f, cr, r), got), "both accessors agree");
  sym_reach("end");
}
// equal up to rounding, for values up to 1000
static bool near(double a, double b, double m = 0.002) { double d = a - b; return (d <= m) & (d >= -m); }
static R val(const char *n) { R x = Sym<R>::make(n); sym_assume((x >= -1000) & (x <= 1000)); return x; }
// cell value = mean of the two faces, per component
extern "C" void mac_center() {
  F f; f.setMapping(tmap());
  Box3i dw = symBox(MAXN, MAXN, MAXN); f.setSize(dw);
  T c = Sym<T>::make("c"); f.clear(c);
  Vox v = symVox(dw, "v"); R lo[3], hi[3];
  for (int a = 0; a < 3; a++) { Vox w = v; if (a == 0) w.i++; else if (a == 1) w.j++; else w.k++; lo[a] = val("lo"); hi[a] = val("hi"); at(f, a, v) = lo[a]; at(f, a, w) = hi[a]; }
  T got = f.value(v.i, v.j, v.k), lv = f.lvalue(v.i, v.j, v.k);
  T cen(f.uCenter(v.i, v.j, v.k), f.vCenter(v.i, v.j, v.k), f.wCenter(v.i, v.j, v.k));
  for (int a = 0; a < 3; a++) {
    double m = ((double)lo[a] + hi[a]) * 0.5;
    sym_assert(near(got[a], m), "cell value is the mean of its two faces");
    sym_assert(near(cen[a], m) & near(lv[a], m), "centre accessors agree");
  }
  sym_reach("end");
}
template <class IT> static bool pos(IT &it, int i, int j, int k) { return (it.x == i) & (it.y == j) & (it.z == k); }
extern "C" void mac_iter() {
  F f; f.setMapping(tmap());
  Box3i dw = symBox(MAXN, MAXN, MAXN); f.setSize(dw);
  T c = Sym<T>::make("c"); f.clear(c);
  int comp = sym_pick(0, 2, "comp"); MACComponent mc = (MACComponent)comp;
  Vox p = symVox(faces(dw, comp), "p"); R a = Sym<R>::make("a"); at(f, comp, p) = a;
  Box3i sb = symSub(dw, "sub"); bool whole = eqBox(sb, dw) && sym_bool("whole");
  Box3i fb = faces(sb, comp);
  F::const_mac_comp_iterator it = whole ? f.cbegin_comp(mc) : f.cbegin_comp(mc, sb), e = whole ? f.cend_comp(mc) : f.cend_comp(mc, sb);
  for (int k = fb.min.z; k <= fb.max.z; k++) for (int j = fb.min.y; j <= fb.max.y; j++) for (int i = fb.min.x; i <= fb.max.x; i++) {
    sym_assert(it != e, "not at the end before the last face");
    sym_assert(pos(it, i, j, k), "coordinates in x-fastest order");
    Vox v = {i, j, k}; bool is = same(v, p);
    sym_assert((is & same(*it, a)) | (!is & same(*it, c[comp])), "value of exactly that face");
    ++it;
  }
  sym_assert(it == e, "at the end after the last face");
  sym_reach("end");
}
extern "C" void mac_iter_w() {
  F f; f.setMapping(tmap());
  Box3i dw = symBox(MAXN, MAXN, MAXN); f.setSize(dw);
  T c = Sym<T>::make("c"); f.clear(c);
  int comp = sym_pick(0, 2, "comp"), cr = sym_pick(0, 2, "cr"); MACComponent mc = (MACComponent)comp;
  Box3i sb = symSub(dw, "sub"); bool whole = eqBox(sb, dw) && sym_bool("whole");
  Box3i fb = faces(sb, comp); Vox p = symVox(fb, "p"), r = symVox(faces(dw, cr), "r"); R a = Sym<R>::make("a");
  F::mac_comp_iterator it = whole ? f.begin_comp(mc) : f.begin_comp(mc, sb), e = whole ? f.end_comp(mc) : f.end_comp(mc, sb);
  for (int k = fb.min.z; k <= fb.max.z; k++) for (int j = fb.min.y; j <= fb.max.y; j++) for (int i = fb.min.x; i <= fb.max.x; i++) {
    sym_assert(it != e, "not at the end before the last face");
    sym_assert(pos(it, i, j, k), "coordinates in x-fastest order");
    Vox v = {i, j, k}; R cur = *it; *it = same(v, p) ? a : cur;
    ++it;
  }
  sym_assert(it == e, "at the end after the last face");
  R got = at(f, cr, r); bool is = (cr == comp) & same(r, p);
  sym_assert((is & same(got, a)) | (!is & same(got, c[cr])), "a write through the iterator lands on that face only");
  sym_reach("end");
}
// cell iteration (generic iterator over value())
extern "C" void mac_cells() {
  F f; f.setMapping(tmap());
  Box3i dw = symBox(MAXN, MAXN, MAXN); f.setSize(dw);
  T c(val("c"), val("c"), val("c")); f.clear(c);
  for (int a = 0; a < 3; a++) { Vox p = symVox(faces(dw, a), "p"); at(f, a, p) = val("a"); }
  Box3i sb = symSub(dw, "sub");
  F::const_iterator it = f.cbegin(sb), e = f.cend(sb);
  for (int k = sb.min.z; k <= sb.max.z; k++) for (int j = sb.min.y; j <= sb.max.y; j++) for (int i = sb.min.x; i <= sb.max.x; i++) {
    sym_assert(it != e, "not at the end before the last cell");
    sym_assert(pos(it, i, j, k), "coordinates in x-fastest order");
    T v = *it, w = f.value(i, j, k);
    sym_assert(near(v.x, w.x) & near(v.y, w.y) & near(v.z, w.z), "value of exactly that cell");
    ++it;
  }
  sym_assert(it == e, "at the end after the last cell");
  sym_reach("end");
}
// C36
typedef DenseField<T> DF;
// no rotation: faces are exact means, boundary faces copy, cell centres are exact means of the faces
extern "C" void conv_exact() {
  DF::Ptr cc(new DF); F::Ptr mac(new F); int withM = sym_pick(0, 1, "matrix");
  if (!withM) { cc->setMapping(tmap(1)); mac->setMapping(tmap(0)); } else if (sym_pick(0, 1, "scaled")) { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); M44d s; s.setScale(V3d(2, 3, 0.5)); s[3][0] = 5; m->setLocalToWorld(s); cc->setMapping(m); }
  Box3i dw = symBox(MAXN, MAXN, MAXN);
  int pad = sym_pick(0, 1, "pad"); Box3i ext(dw.min + V3i(pad), dw.max + V3i(2 * pad, 0, 0)); 
  if (withM) { dw = Box3i(V3i(-1, 4, 2), V3i(-1, 4, 2) + dw.max - dw.min); ext = dw; }
  cc->setSize(ext, dw);
  for (int k = dw.min.z; k <= dw.max.z; k++) for (int j = dw.min.y; j <= dw.max.y; j++) for (int i = dw.min.x; i <= dw.max.x; i++) { T v; for (int a = 0; a < 3; a++) v[a] = val("v"); cc->fastLValue(i, j, k) = v; }
  convertCellCenteredToMAC<DF, T>(cc, mac);
  sym_assert(eqBox(mac->dataWindow(), dw) & eqBox(mac->extents(), ext), "windows carried over");
  sym_assert(mac->mapping()->isIdentical(cc->mapping()), "mapping carried over");
  for (int a = 0; a < 3; a++) {
    Box3i fb = faces(dw, a);
    for (int k = fb.min.z; k <= fb.max.z; k++) for (int j = fb.min.y; j <= fb.max.y; j++) for (int i = fb.min.x; i <= fb.max.x; i++) {
      Vox v = {i, j, k}; V3i lo(i, j, k), hi(i, j, k); lo[a] -= 1;
      if (lo[a] < dw.min[a]) lo[a] = dw.min[a]; if (hi[a] > dw.max[a]) hi[a] = dw.max[a];
      R x = cc->fastValue(lo.x, lo.y, lo.z)[a], y = cc->fastValue(hi.x, hi.y, hi.z)[a];
      sym_assert(near(at(*mac, a, v), ((double)x + y) * 0.5), "face is the mean of the cells on either side");
    }
  }
  DF::Ptr back(new DF); if (!withM) back->setMapping(tmap(0));
  convertMACToCellCentered<T, DF>(mac, back);
  sym_assert(eqBox(back->dataWindow(), dw) & eqBox(back->extents(), ext), "windows carried back");
  sym_assert(back->mapping()->isIdentical(cc->mapping()), "mapping carried back");
  for (int k = dw.min.z; k <= dw.max.z; k++) for (int j = dw.min.y; j <= dw.max.y; j++) for (int i = dw.min.x; i <= dw.max.x; i++) {
    T g = back->fastValue(i, j, k);
    for (int a = 0; a < 3; a++) { Vox v = {i, j, k}, w = v; if (a == 0) w.i++; else if (a == 1) w.j++; else w.k++; sym_assert(near(g[a], ((double)at(*mac, a, v) + at(*mac, a, w)) * 0.5), "cell is the mean of its faces"); }
  }
  sym_reach("end");
}
// rotated mapping: a constant field survives the round trip (values over the reals)
extern "C" void conv_rot() {
  static const double A[4][3] = {{0.3, 0, 0}, {0, 0.5, -0.7}, {0.4, 0.9, 0}, {1.1, -0.6, 0.2}};
  int s = sym_pick(0, 3, "rot"); MatrixFieldMapping::Ptr m(new MatrixFieldMapping); M44d r; r.rotate(V3d(A[s][0], A[s][1], A[s][2])); m->setLocalToWorld(r);
  DF::Ptr cc(new DF), back(new DF); F::Ptr mac(new F); cc->setMapping(m); cc->setSize(V3i(2, 1, 1));
  T c; for (int a = 0; a < 3; a++) { c[a] = val("c"); }
  cc->clear(c);
  convertCellCenteredToMAC<DF, T>(cc, mac); convertMACToCellCentered<T, DF>(mac, back);
  for (int i = 0; i < 2; i++) for (int a = 0; a < 3; a++) sym_assert(near(back->fastValue(i, 0, 0)[a], c[a], 0.02), "constant field survives the round trip");
  sym_reach("end");
}
// sizes whose face count does not fit an int: either refused, or the storage really holds every face
extern "C" void mac_huge() {
  F f; f.setMapping(tmap());
  static const int sizes[][3] = {{1290, 1290, 1290}, {1291, 1291, 1291}, {1626, 1625, 1625}, {65535, 65536, 1}, {1 << 20, 1 << 12, 1}, {2047, 2047, 1023}};
  const int *s = sizes[sym_pick(0, 5, "size")]; V3i n(s[0], s[1], s[2]);
  bool ok = true;
  try { f.setSize(n); } catch (std::exception &) { ok = false; } catch (...) { ok = false; }
  if (ok) {
    int c = sym_pick(0, 2, "c"); V3i hi = n - V3i(1); hi[c]++;
    Vox v = {hi.x, hi.y, hi.z}, z = {0, 0, 0}; R a = Sym<R>::make("a"), b = Sym<R>::make("b");
    at(f, c, z) = a; at(f, c, v) = b;
    sym_assert(same(cat(f, c, z), a) & same(cat(f, c, v), b), "first and last face have their own storage");
  }
  sym_reach("end");
}
