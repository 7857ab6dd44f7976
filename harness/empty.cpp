// C30: stand-in fields answer with one constant
#include <cfloat>
#include <boost/utility.hpp>
#include "EmptyField.h"
#include "ProceduralField.h"
#include "FieldInterp.h"
#include "h.h"
#ifndef ELEM
#define ELEM float
#endif
typedef ELEM T;
extern "C" int empty_const() {
  EmptyField<T>::Ptr f(new EmptyField<T>); FieldMapping::Ptr mp = tmap(3); f->setMapping(mp);
  Box3i dw = symBox(2, 2, 3), ex = dw; ex.min -= V3i(1); ex.max += V3i(2);
  f->setSize(ex, dw);
  T v = Sym<T>::make("v"), w = Sym<T>::make("w"), x = Sym<T>::make("x");
  f->clear(v);
  Vox a = symVox(dw, "a"), b = symVox(dw, "b");
  sym_assert(eqBox(f->extents(), ex) & eqBox(f->dataWindow(), dw), "windows as given");
  sym_assert(f->mapping()->isIdentical(mp), "mapping as given");
  sym_assert(same(f->value(a.i, a.j, a.k), v) & same(f->constantvalue(), v), "constant after clear");
  f->lvalue(b.i, b.j, b.k) = w;
  sym_assert(same(f->value(a.i, a.j, a.k), v) & same(f->constantvalue(), v), "a write is ignored");
  int n = 0; for (EmptyField<T>::iterator i = f->begin(); i != f->end(); ++i, n++) *i = w;
  sym_assert(n == (dw.max.x - dw.min.x + 1) * (dw.max.y - dw.min.y + 1) * (dw.max.z - dw.min.z + 1), "iterates over every voxel");
  bool ok = true; for (EmptyField<T>::const_iterator i = f->cbegin(); i != f->cend(); ++i) ok = ok & same(*i, v);
  sym_assert(ok, "iteration reads the constant");
  f->setConstantvalue(x);
  sym_assert(same(f->constantvalue(), x) & same(f->value(a.i, a.j, a.k), v), "constantvalue is set alone");
  f->clear(w); sym_assert(same(f->value(a.i, a.j, a.k), w) & same(f->constantvalue(), w), "clear replaces the constant");
  long long m = f->memSize(); sym_assert(m < 4096, "no voxel storage");
  sym_reach("end"); return 0;
}
template <class I> static void chk(const I &in, const Field<float> &f, const V3d &p, float v, const char *l) { float d = in.sample(f, p) - v; sym_assert((d < 0.002f) & (d > -0.002f), l); }
extern "C" int empty_interp() {
  EmptyField<float>::Ptr f(new EmptyField<float>); f->setMapping(tmap());
  int n = sym_pick(1, 2, "n"), o = sym_pick(-1, 1, "o"); Box3i dw(V3i(o), V3i(o + n - 1, o + 1, o)); f->setSize(dw, dw);
  float v = sym_fin32(1000, "v"); f->clear(v);
  double x = sym_fin64(10, "x"); V3d p(x, o + 0.75, o + 0.25);
  if (sym_bool("kind")) chk(LinearFieldInterp<float>(), *f, p, v, "linear sample is the constant");
  else chk(CubicFieldInterp<float>(), *f, p, v, "cubic sample is the constant");
  sym_reach("end"); return 0;
}
// a procedural field of one constant, and one that reports where it is asked
struct Pro : public ProceduralField<float> {
  typedef ProceduralField<float> base; typedef Pro class_type; float c; mutable V3d last;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char *staticClassName() { return "Pro"; } static const char *staticClassType() { return "Pro<float>"; }
  std::string className() const override { return "Pro"; } std::string classType() const override { return "Pro<float>"; }
  float value(int, int, int) const override { return c; }
  float lsSample(const V3d &p) const override { last = p; return c; }
  FieldBase::Ptr clone() const override { return FieldBase::Ptr(new Pro(*this)); }
  size_t voxelCount() const override { return 0; }
  void size(const Box3i &e, const Box3i &d) { m_extents = e; m_dataWindow = d; }
};
extern "C" int proc_const() {
  boost::intrusive_ptr<Pro> f(new Pro); f->setMapping(tmap(1)); f->c = sym_f32("c");
  int nx = sym_pick(1, 4, "nx"), ny = sym_pick(1, 3, "ny"), nz = sym_pick(1, 2, "nz"); Box3i dw(V3i(0), V3i(nx - 1, ny - 1, nz - 1)); f->size(dw, dw);
  double x = sym_fin64(1000, "x"), y = sym_fin64(1000, "y"), z = sym_fin64(1000, "z");
  ProceduralFieldLookup<float> lk; float r = lk.sample(*f, V3d(x, y, z));
  sym_assert(same(r, f->c), "lookup returns the field's value");
  double ex = f->last.x * nx - x, ey = f->last.y * ny - y, ez = f->last.z * nz - z;
  sym_assert((ex < 1e-6) & (ex > -1e-6) & (ey < 1e-6) & (ey > -1e-6) & (ez < 1e-6) & (ez > -1e-6), "asked at the local position");
  int n = 0; bool ok = true; for (Pro::const_iterator i = f->cbegin(); i != f->cend(); ++i, n++) ok = ok & same(*i, f->c);
  sym_assert(ok & (n == nx * ny * nz), "iteration reads the constant");
  float d = sym_f32("d"); f->metadata().setFloatMetadata("m", sym_f32("m")); int i = sym_int("i"); f->metadata().setIntMetadata("k", i);
  sym_assert(same(f->typedFloatMetadata("none", d), d) & same(f->typedFloatMetadata("m", d), f->metadata().floatMetadata("m", 0)) , "typed metadata");
  sym_reach("end"); return 0;
}
