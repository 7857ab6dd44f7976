// C01 / C02: dense voxel storage and iteration
#include "DenseField.h"
#include "h.h"
#ifndef MAXN
#define MAXN 3
#endif
#ifndef ELEM
#define ELEM float
#endif
typedef ELEM T;
typedef DenseField<T> F;

// extents and data window chosen independently: the window may be a sub-box or a super-box of the extents
static void sized(F &f, Box3i &ext, Box3i &dw) {
  f.setMapping(tmap());
  dw = symBox(MAXN, MAXN, MAXN);
  ext = dw;
  ext.min += V3i(sym_range(-2, 2, "elo"), sym_range(-2, 2, "elo"), sym_range(-2, 2, "elo"));
  ext.max += V3i(sym_range(-2, 2, "ehi"), sym_range(-2, 2, "ehi"), sym_range(-2, 2, "ehi"));
  f.setSize(ext, dw);
}
// Two writes through any of the write paths, then a read through each read path.
extern "C" void dense_store() {
  F f; Box3i ext, dw; sized(f, ext, dw);
  sym_assert(eqBox(f.extents(), ext) & eqBox(f.dataWindow(), dw), "sizes are the requested ones");
  T c = Sym<T>::make("c"); f.clear(c);
  Vox p = symVox(dw, "p"), q = symVox(dw, "q"), r = symVox(dw, "r");
  T a = Sym<T>::make("a"), b = Sym<T>::make("b");
  int how = sym_pick(0, 2, "how");
  if (how == 0) f.lvalue(p.i, p.j, p.k) = a; else if (how == 1) f.fastLValue(p.i, p.j, p.k) = a;
  else { typename F::iterator it = f.begin(Box3i(V3i(p.i, p.j, p.k), dw.max)); *it = a; }
  WritableField<T> &w = f; ResizableField<T> &rs = f; (void)rs;
  w.lvalue(q.i, q.j, q.k) = b;
  const Field<T> &fc = f;
  bool isq = same(r, q), isp = same(r, p);
  T v1 = fc.value(r.i, r.j, r.k), v2 = f.fastValue(r.i, r.j, r.k), v3 = f.lvalue(r.i, r.j, r.k), v4 = f.fastLValue(r.i, r.j, r.k);
  bool ok1 = (isq & same(v1, b)) | (!isq & isp & same(v1, a)) | (!isq & !isp & same(v1, c));
  sym_assert(ok1, "value returns the last write");
  sym_assert(same(v2, v1), "fastValue agrees");
  sym_assert(same(v3, v1), "lvalue agrees");
  sym_assert(same(v4, v1), "fastLValue agrees");
  sym_reach("end");
}
// resizing and clearing: a resized field again has one cell per voxel of the new window
extern "C" void dense_resize() {
  F f; Box3i ext, dw; sized(f, ext, dw);
  Box3i dw2 = symBox(2, MAXN, 2);
  int how = sym_pick(0, 2, "api");
  if (how == 0) f.setSize(dw2, dw2); 
  else if (how == 1) { F g; g.setMapping(tmap()); g.setSize(dw2); f.matchDefinition(FieldRes::Ptr(new F(g))); }
  else { V3i n = dw2.max - dw2.min + V3i(1); int pad = 1; f.setSize(n, pad); dw2 = Box3i(V3i(-pad), n - V3i(1) + V3i(pad)); sym_assert(eqBox(f.extents(), Box3i(V3i(0), n - V3i(1))), "padded extents"); }
  sym_assert(eqBox(f.dataWindow(), dw2), "window");
  T c = Sym<T>::make("c"); f.clear(c);
  Vox p = symVox(dw2, "p"), r = symVox(dw2, "r"); T a = Sym<T>::make("a");
  f.lvalue(p.i, p.j, p.k) = a;
  T v = f.value(r.i, r.j, r.k);
  bool is = same(r, p); sym_assert((is & same(v, a)) | (!is & same(v, c)), "value after resize");
  sym_assert(f.memSize() >= (long long)sizeof(T) * (dw2.max.x - dw2.min.x + 1) * (dw2.max.y - dw2.min.y + 1) * (dw2.max.z - dw2.min.z + 1), "memSize covers the window");
  sym_reach("end");
}
template <class IT> static bool at(IT &it, int i, int j, int k) { return (it.x == i) & (it.y == j) & (it.z == k); }
extern "C" void dense_iter() {
  F f; f.setMapping(tmap());
  Box3i dw = symBox(MAXN, MAXN, MAXN); f.setSize(dw); T z = Sym<T>::of(0); f.clear(z);
  Vox p = symVox(dw, "p"); T a = Sym<T>::make("a");
  f.lvalue(p.i, p.j, p.k) = a;
  Box3i sb = symSub(dw, "sub");
  F::const_iterator it = f.cbegin(sb), e = f.cend(sb);
  for (int k = sb.min.z; k <= sb.max.z; k++) for (int j = sb.min.y; j <= sb.max.y; j++) for (int i = sb.min.x; i <= sb.max.x; i++) {
    sym_assert(it != e, "not at the end before the last voxel");
    sym_assert(!(it == e), "== agrees with !=");
    sym_assert(at(it, i, j, k), "coordinates in x-fastest order");
    Vox v = {i, j, k};
    bool is = same(v, p); sym_assert((is & same(*it, a)) | (!is & same(*it, z)), "value of exactly that voxel");
    ++it;
  }
  sym_assert(it == e, "at the end after the last voxel");
  sym_reach("end");
}
extern "C" void dense_iter_w() {
  F f; f.setMapping(tmap());
  Box3i dw = symBox(MAXN, MAXN, MAXN); f.setSize(dw); T z = Sym<T>::of(0); f.clear(z);
  Box3i sb = symSub(dw, "sub");
  bool whole = eqBox(sb, dw) && sym_bool("whole");
  T a = Sym<T>::make("a"); Vox p = symVox(sb, "p"), r = symVox(dw, "r");
  F::iterator it = whole ? f.begin() : f.begin(sb), e = whole ? f.end() : f.end(sb);
  for (int k = sb.min.z; k <= sb.max.z; k++) for (int j = sb.min.y; j <= sb.max.y; j++) for (int i = sb.min.x; i <= sb.max.x; i++) {
    sym_assert(it != e, "not at the end before the last voxel");
    sym_assert(at(it, i, j, k), "coordinates in x-fastest order");
    Vox v = {i, j, k}; T cur = *it; *it = same(v, p) ? a : cur;
    ++it;
  }
  sym_assert(!(it != e), "at the end after the last voxel");
  T v = f.value(r.i, r.j, r.k);
  bool is = same(r, p); sym_assert((is & same(v, a)) | (!is & same(v, z)), "write through the iterator lands on that voxel only");
  F::const_iterator c = whole ? f.cbegin() : f.cbegin(sb); 
  sym_assert(at(c, sb.min.x, sb.min.y, sb.min.z), "read-only iteration starts at the corner");
  sym_reach("end");
}
