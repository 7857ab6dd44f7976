// C10: coordinate conversions and box helpers
#include <cfloat>
#include <climits>
#include <boost/utility.hpp>
#include "DenseField.h"
#include "SparseField.h"
#include "h.h"
// discrete -> continuous -> discrete is the identity, for every int
extern "C" int coord_rt() {
  int i = sym_int("i"), j = sym_int("j"), k = sym_int("k");
  sym_assert(contToDisc(discToCont(i)) == i, "scalar round trip");
  V3i a(i, j, k); V3i b = contToDisc(discToCont(a)); sym_assert((b.x == i) & (b.y == j) & (b.z == k), "V3i round trip");
  V2i c(i, j); V2i d = contToDisc(discToCont(c)); sym_assert((d.x == i) & (d.y == j), "V2i round trip");
  double x = discToCont(i); sym_assert(2.0 * x == 2.0 * (double)i + 1.0, "voxel centre");
  sym_reach("end"); return 0;
}
// every continuous coordinate lies in the unit cell of its voxel
extern "C" int coord_cell() {
  double x = sym_f64("x"); sym_assume((x >= -2147483648.0) & (x < 2147483648.0));
  int i = contToDisc(x); double di = i;
  sym_assert((di <= x) & (x < di + 1.0), "unit cell contains the coordinate");
  sym_reach("end"); return 0;
}
extern "C" int coord_cell3() {
  double x[3]; for (int a = 0; a < 3; a++) { x[a] = sym_f64("x"); sym_assume((x[a] >= -1e9) & (x[a] <= 1e9)); }
  V3i i = contToDisc(V3d(x[0], x[1], x[2])); V2i p = contToDisc(V2d(x[0], x[1]));
  for (int a = 0; a < 3; a++) sym_assert(((double)i[a] <= x[a]) & (x[a] < (double)i[a] + 1.0), "unit cell contains the coordinate");
  sym_assert((p.x == i.x) & (p.y == i.y), "2D agrees");
  sym_reach("end"); return 0;
}
static Box3i anyBox(const char *n, int m = INT_MAX) { Box3i b; for (int a = 0; a < 3; a++) { b.min[a] = sym_int(n); b.max[a] = sym_int(n); sym_assume((b.min[a] >= -m) & (b.max[a] <= m) & (b.min[a] <= m) & (b.max[a] >= -m)); } return b; }
static bool in(const V3i &v, const Box3i &b) { return (v.x >= b.min.x) & (v.x <= b.max.x) & (v.y >= b.min.y) & (v.y <= b.max.y) & (v.z >= b.min.z) & (v.z <= b.max.z); }
// clipping is intersection, for any boxes and voxel
extern "C" int box_clip() {
  Box3i a = anyBox("a"), b = anyBox("b"); V3i v(sym_int("v"), sym_int("v"), sym_int("v"));
  sym_assert(in(v, clipBounds(a, b)) == (in(v, a) & in(v, b)), "clipBounds is intersection");
  sym_assert((a.intersects(v) != 0) == in(v, a), "Box intersects is membership");
  sym_reach("end"); return 0;
}
// discrete -> continuous bounds: exactly the union of unit cells
extern "C" int box_cont() {
  Box3i b = anyBox("b"); Box3d c = continuousBounds(b); bool ok = true;
  for (int a = 0; a < 3; a++) ok = ok & (c.min[a] == (double)b.min[a]) & (c.max[a] == (double)b.max[a] + 1.0);
  sym_assert(ok, "continuous bounds are the voxels' cells");
  sym_reach("end"); return 0;
}
// continuous -> discrete bounds: every point's voxel is inside and no cell a whole voxel away is
extern "C" int box_disc() {
  Box3d b; double p = sym_f64("p"); int ax = sym_pick(0, 2, "axis");
  for (int a = 0; a < 3; a++) { b.min[a] = 0.25; b.max[a] = 7.75; }
  double lo = sym_f64("lo"), hi = sym_f64("hi"); sym_assume((lo >= -1e300) & (hi <= 1e300) & (lo <= p) & (p <= hi));
  b.min[ax] = lo; b.max[ax] = hi;
  Box3i d = discreteBounds(b);
  bool rest = true; for (int a = 0; a < 3; a++) rest = rest & ((a == ax) | ((d.min[a] == 0) & (d.max[a] == 8)) );
  sym_assert(rest, "other axes");
  if ((p >= -2147483648.0) & (p < 2147483648.0)) { int v = contToDisc(p); sym_assert((d.min[ax] <= v) & (v <= d.max[ax]), "contains every point's voxel"); }
  else sym_assert(p < 0 ? d.min[ax] == INT_MIN : d.max[ax] == INT_MAX, "out of range saturates");
  if ((lo >= -2147483648.0) & (hi < 2147483647.0)) sym_assert(((double)d.min[ax] >= lo - 1.0) & ((double)d.max[ax] <= hi + 1.0), "grows by less than a voxel");
  sym_reach("end"); return 0;
}
// linear index <-> coordinate
extern "C" int index_coord() {
  int rx = sym_pick(1, 5, "rx"), ry = sym_pick(1, 5, "ry"), rz = sym_pick(1, 5, "rz");
  int i = sym_range(0, rx - 1, "i"), j = sym_range(0, ry - 1, "j"), k = sym_range(0, rz - 1, "k");
  V3i c = indexToCoord((size_t)i + (size_t)rx * (size_t)(j + ry * k), V3i(rx, ry, rz));
  sym_assert((c.x == i) & (c.y == j) & (c.z == k), "index decodes to its coordinate");
  sym_reach("end"); return 0;
}
// FieldRes membership and local/voxel helpers
extern "C" int field_bounds() {
  DenseField<float>::Ptr f(new DenseField<float>); f->setMapping(tmap());
  Box3i dw = symBox(3, 3, 3), ex = dw; int p = sym_pick(0, 2, "pad");
  ex.min += V3i(p); ex.max -= V3i(p); if (sym_bool("grow")) { ex.min -= V3i(3); ex.max += V3i(3); }
  f->setSize(ex, dw);
  sym_assert(eqBox(f->extents(), ex) & eqBox(f->dataWindow(), dw), "windows kept");
  V3i r = f->dataResolution(); sym_assert((r.x == dw.max.x - dw.min.x + 1) & (r.y == dw.max.y - dw.min.y + 1) & (r.z == dw.max.z - dw.min.z + 1), "resolution is the window's size");
  int i = sym_int("i"), j = sym_int("j"), k = sym_int("k");
  sym_assert(f->isInBounds(i, j, k) == in(V3i(i, j, k), dw), "isInBounds is membership");

  sym_reach("end"); return 0;
}
