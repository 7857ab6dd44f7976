// Shared harness helpers.
#pragma once
#include "sym.h"
#include "FieldMapping.h"
#ifndef ORG
#define ORG 1000000
#endif
FIELD3D_NAMESPACE_OPEN
FIELD3D_NAMESPACE_HEADER_CLOSE
using namespace Field3D;
// A mapping without arithmetic (world == voxel space), so that storage properties do not drag matrix inversion along.
struct TMap : public FieldMapping {
  typedef boost::intrusive_ptr<TMap> Ptr;
  typedef TMap class_type; typedef FieldMapping base;
  DEFINE_FIELD_RTTI_CONCRETE_CLASS;
  static const char *staticClassType() { return "TMap"; }
  static const char *staticClassName() { return "TMap"; }
  int tag;
  TMap(int t = 0) : tag(t) {}
  FieldMapping::Ptr clone() const override { return FieldMapping::Ptr(new TMap(*this)); }
  void worldToVoxel(const V3d &a, V3d &b) const override { b = a; }
  void worldToVoxel(const V3d &a, V3d &b, float) const override { b = a; }
  void voxelToWorld(const V3d &a, V3d &b) const override { b = a; }
  void voxelToWorld(const V3d &a, V3d &b, float) const override { b = a; }
  void worldToLocal(const V3d &a, V3d &b) const override { b = a; }
  void worldToLocal(const V3d &a, V3d &b, float) const override { b = a; }
  void localToWorld(const V3d &a, V3d &b) const override { b = a; }
  void localToWorld(const V3d &a, V3d &b, float) const override { b = a; }
  V3d wsVoxelSize(int, int, int) const override { return V3d(1.0); }
  std::string className() const override { return "TMap"; }
  bool isIdentical(FieldMapping::Ptr o, double = 0.0) const override { TMap *t = dynamic_cast<TMap *>(o.get()); return t && t->tag == tag; }
};
inline FieldMapping::Ptr tmap(int tag = 0) { return FieldMapping::Ptr(new TMap(tag)); }

struct Vox { int i, j, k; };
inline bool inBox(const Vox &v, const Box3i &b) {
  return (v.i >= b.min.x) & (v.i <= b.max.x) & (v.j >= b.min.y) & (v.j <= b.max.y) & (v.k >= b.min.z) & (v.k <= b.max.z);
}
// 0..d; small when d is concrete on the path
inline int sym_off(int d, const char *n) { return sym_range(0, (int)(uint32_t)sym_conc((uint32_t)d), n); }
// any voxel of b (sides concrete per path)
inline Vox symVox(const Box3i &b, const char *n) {
  Vox v; v.i = b.min.x + sym_off(b.max.x - b.min.x, n); v.j = b.min.y + sym_off(b.max.y - b.min.y, n); v.k = b.min.z + sym_off(b.max.z - b.min.z, n);
  return v;
}
inline bool same(const Vox &a, const Vox &b) { return (a.i == b.i) & (a.j == b.j) & (a.k == b.k); }
// any box with sides in [1,max*], origin anywhere in +-ORG; sides are concrete per path
inline Box3i symBox(int mx, int my, int mz) {
  int nx = sym_pick(1, mx, "nx"), ny = sym_pick(1, my, "ny"), nz = sym_pick(1, mz, "nz");
  int ox = sym_range(-ORG, ORG, "ox"), oy = sym_range(-ORG, ORG, "oy"), oz = sym_range(-ORG, ORG, "oz");
  (void)0; return Box3i(V3i(ox, oy, oz), V3i(ox + nx - 1, oy + ny - 1, oz + nz - 1));
}
// any non-empty sub-box, offsets concrete per path
inline Box3i symSub(const Box3i &b, const char *n) {
  V3i d = b.max - b.min; Box3i s;
  int dx = (int)sym_conc((uint32_t)d.x), dy = (int)sym_conc((uint32_t)d.y), dz = (int)sym_conc((uint32_t)d.z);
  int x0 = sym_pick(0, dx, n), x1 = sym_pick(x0, dx, n), y0 = sym_pick(0, dy, n), y1 = sym_pick(y0, dy, n), z0 = sym_pick(0, dz, n), z1 = sym_pick(z0, dz, n);
  s.min = b.min + V3i(x0, y0, z0); s.max = b.min + V3i(x1, y1, z1);
  return s;
}
inline bool eqBox(const Box3i &a, const Box3i &b) {
  return (a.min.x == b.min.x) & (a.min.y == b.min.y) & (a.min.z == b.min.z) & (a.max.x == b.max.x) & (a.max.y == b.max.y) & (a.max.z == b.max.z);
}
// exact comparison of values, by bits
inline bool same(float a, float b) { return bits(a) == bits(b); }
inline bool same(double a, double b) { return bits(a) == bits(b); }
inline bool same(int a, int b) { return a == b; }
inline bool same(const V3f &a, const V3f &b) { return same(a.x, b.x) & same(a.y, b.y) & same(a.z, b.z); }
inline bool same(const V3d &a, const V3d &b) { return same(a.x, b.x) & same(a.y, b.y) & same(a.z, b.z); }
inline bool same(half a, half b) { return a.bits() == b.bits(); }
template <class T> struct Sym;
template <> struct Sym<float> { static float make(const char *n) { return sym_f32(n); } static float of(float f) { return f; } };
template <> struct Sym<double> { static double make(const char *n) { return sym_f64(n); } static double of(float f) { return f; } };
template <> struct Sym<half> { static half make(const char *n) { half h; h.setBits(sym_u16(n)); return h; } static half of(float f) { return half(f); } };
template <> struct Sym<int> { static int make(const char *n) { return sym_int(n); } static int of(float f) { return (int)f; } };
template <> struct Sym<V3f> { static V3f make(const char *n) { float x = sym_f32(n), y = sym_f32(n), z = sym_f32(n); return V3f(x, y, z); } static V3f of(float f) { return V3f(f); } };
template <> struct Sym<V3d> { static V3d make(const char *n) { double x = sym_f64(n), y = sym_f64(n), z = sym_f64(n); return V3d(x, y, z); } static V3d of(float f) { return V3d(f); } };
template <> struct Sym<V3h> { static V3h make(const char *n) { V3h v; v.x.setBits(sym_u16(n)); v.y.setBits(sym_u16(n)); v.z.setBits(sym_u16(n)); return v; } static V3h of(float f) { return V3h(half(f)); } };
inline bool same(const V3h &a, const V3h &b) { return same(a.x, b.x) & same(a.y, b.y) & same(a.z, b.z); }
