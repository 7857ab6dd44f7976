// C07: copies, clones and assignments are equal to and independent of their source
#include <cfloat>
#include <boost/utility.hpp>
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
#include "EmptyField.h"
#include "h.h"
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef float T; typedef DenseField<T> F;
#elif KIND == 1
typedef float T; typedef SparseField<T> F;
#elif KIND == 2
typedef V3f T; typedef MACField<T> F;
#elif KIND == 3
typedef V3h T; typedef DenseField<T> F;
#elif KIND == 4
typedef V3d T; typedef SparseField<T> F;
#elif KIND == 5
typedef double T; typedef EmptyField<T> F;
#endif
static T some(const char *n) {
#if KIND == 2
  T v; for (int a = 0; a < 3; a++) v[a] = sym_range(-8, 8, n) * 0.5f; return v; // exact in every face mean
#else
  return Sym<T>::make(n);
#endif
}
static void put(F &f, const Vox &v, const T &a) {
#if KIND == 2
  f.u(v.i, v.j, v.k) = f.u(v.i + 1, v.j, v.k) = a.x; f.v(v.i, v.j, v.k) = f.v(v.i, v.j + 1, v.k) = a.y; f.w(v.i, v.j, v.k) = f.w(v.i, v.j, v.k + 1) = a.z;
#elif KIND == 5
  f.clear(a);
#else
  f.lvalue(v.i, v.j, v.k) = a;
#endif
}
static T get(F &f, const Vox &v) {
#if KIND == 2
  return T(f.u(v.i, v.j, v.k), f.v(v.i, v.j, v.k), f.w(v.i, v.j, v.k));
#else
  return f.value(v.i, v.j, v.k);
#endif
}
static const int S[3][3] = {{2, 2, 1}, {1, 2, 3}, {3, 1, 2}};
// any voxel at a position concrete per path
static Vox spot(const Box3i &b, const char *n) { V3i d = b.max - b.min; Vox v = {b.min.x + sym_pick(0, (int)sym_conc((uint32_t)d.x), n), b.min.y + sym_pick(0, (int)sym_conc((uint32_t)d.y), n), b.min.z + sym_pick(0, (int)sym_conc((uint32_t)d.z), n)}; return v; }
struct Def { Box3i ext, dw; int tag, meta; std::string name, attr; int order; };
static const char *uniq(int tag) { return tag & 1 ? "only1" : "only2"; }
static Def make(F &f, int s, int o, int tag) {
  Def d; d.dw = Box3i(V3i(o, 3, -2), V3i(o, 3, -2) + V3i(S[s][0] - 1, S[s][1] - 1, S[s][2] - 1)); d.ext = Box3i(d.dw.min + V3i(0, 0, tag & 1), d.dw.max + V3i(1, 0, 1));
  d.tag = tag; d.meta = sym_int("meta"); d.name = tag & 1 ? "density" : "velocity_of_the_long_name"; d.attr = tag & 1 ? "a" : "bb"; d.order = tag & 1;
  f.setMapping(tmap(tag));
#if KIND == 1 || KIND == 4
  f.setBlockOrder(d.order);
#endif
  f.setSize(d.ext, d.dw); f.name = d.name; f.attribute = d.attr; f.metadata().setIntMetadata("m", d.meta); f.metadata().setStrMetadata("s", d.name);
  const char *u = uniq(tag); FieldMetadata &m = f.metadata();
  m.setIntMetadata(u, tag); m.setFloatMetadata(u, tag * 0.5f); m.setStrMetadata(u, u); m.setVecIntMetadata(u, V3i(tag, 2, 3)); m.setVecFloatMetadata(u, V3f(1, tag, 3));
  return d;
}
static void check(F &f, const Def &d) {
  sym_assert(eqBox(f.extents(), d.ext) & eqBox(f.dataWindow(), d.dw), "windows");
  TMap *m = dynamic_cast<TMap *>(f.mapping().get());
  sym_assert(m != NULL && m->tag == d.tag, "mapping");
  V3d res = V3d(d.ext.max - d.ext.min + V3i(1)), org = V3d(d.ext.min);
  sym_assert((f.mapping()->origin() == org) & (f.mapping()->resolution() == res), "mapping extents match the field's");
  sym_assert(f.name == d.name && f.attribute == d.attr, "name and attribute");
  sym_assert(f.metadata().intMetadata("m", d.meta + 1) == d.meta, "metadata");
  sym_assert(f.metadata().strMetadata("s", "none") == d.name, "string metadata");
  const char *u = uniq(d.tag), *o = uniq(d.tag + 1); FieldMetadata &a = f.metadata();
  sym_assert((a.intMetadata(u, -1) == d.tag) & (a.floatMetadata(u, -1.f) == d.tag * 0.5f) & (a.strMetadata(u, "") == u) & (a.vecIntMetadata(u, V3i(-1)) == V3i(d.tag, 2, 3)) & (a.vecFloatMetadata(u, V3f(-1)) == V3f(1, d.tag, 3)), "every kind of metadata");
  sym_assert((a.intMetadata(o, -1) == -1) & (a.floatMetadata(o, -1.f) == -1.f) & (a.strMetadata(o, "") == "") & (a.vecIntMetadata(o, V3i(-1)) == V3i(-1)) & (a.vecFloatMetadata(o, V3f(-1)) == V3f(-1)), "no metadata of the overwritten field");
#if KIND == 1 || KIND == 4
  sym_assert(f.blockOrder() == d.order, "block order");
#endif
}
extern "C" void copy_any() {
  F *src = new F; Def d = make(*src, sym_pick(0, 2, "shape"), sym_pick(-3, -2, "ox"), 1);
  T c = some("c"), a = some("a"); src->clear(c);
  Vox p = spot(d.dw, "p"), r = symVox(d.dw, "r");
  put(*src, p, a); T before = get(*src, r);
  F *dst = NULL; FieldBase::Ptr held;
  int how = sym_pick(0, 4, "how");
  if (how == 0) dst = new F(*src);
  else if (how == 1) { held = src->clone(); dst = dynamic_cast<F *>(held.get()); sym_assert(dst != NULL, "clone has the same class"); dst->ref(); }
  else if (how == 2) { dst = new F; *dst = *src; }
  else if (how == 3) { dst = new F; make(*dst, sym_pick(0, 2, "oshape"), 5, 2); dst->clear(some("oc")); Vox q = {5, 3, -2}; put(*dst, q, some("ov")); *dst = *src; }
  else { dst = new F(*src); F &me = *dst; *dst = me; }
  check(*dst, d); check(*src, d);
  sym_assert(same(get(*dst, r), before) & same(get(*src, r), before), "equal voxel values");
  // now change one of them
  F *chg = src, *oth = dst; if (sym_pick(0, 1, "changed")) { chg = dst; oth = src; }
  int op = sym_pick(0, 4, "change"); Def d2 = d; bool gone = false;
  if (op == 0) { Vox q = spot(d.dw, "q"); put(*chg, q, some("b")); }
  else if (op == 1) { chg->clear(some("b")); chg->metadata().setIntMetadata("m", d.meta + 5); chg->metadata().setStrMetadata("s", "other"); chg->name = "x"; chg->attribute = "y"; }
  else if (op == 2) { chg->setSize(Box3i(V3i(0), V3i(1, 4, 2)), Box3i(V3i(0), V3i(2, 3, 3))); chg->clear(some("b")); }
  else if (op == 3) { chg->setMapping(tmap(9)); V3d o = chg->mapping()->origin(); (void)o; chg->mapping()->setExtents(Box3i(V3i(7), V3i(9))); }
  else { gone = true; if (how == 1 && chg == dst) { dst->unref(); held = NULL; } else delete chg; }
  check(*oth, d);
  sym_assert(same(get(*oth, r), before), "the other field's values stay");
  sym_reach("end");
  (void)gone;
}
