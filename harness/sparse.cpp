// C03 C04 C05 C06: sparse fields held in memory
#include <boost/utility.hpp>
#include "SparseField.h"
#include "h.h"
#ifndef MAXN
#define MAXN 3
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef MAXORDER
#define MAXORDER 2
#endif
#ifndef NSIZES
#define NSIZES 3
#endif
#ifndef ELEM
#define ELEM float
#endif
typedef ELEM T;
typedef SparseField<T> F;
static int g_order;
static V3i blk(const Box3i &dw, const Vox &v) { return V3i((v.i - dw.min.x) >> g_order, (v.j - dw.min.y) >> g_order, (v.k - dw.min.z) >> g_order); }
static bool eq3(const V3i &a, const V3i &b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
static T sel(bool c, const T &a, const T &b) { T r; T t[2]; t[0] = b; t[1] = a; unsigned m = 0u - (unsigned)c; unsigned char *o = (unsigned char *)&r; const unsigned char *x = (const unsigned char *)&a, *y = (const unsigned char *)&b; for (unsigned i = 0; i < sizeof(T); i++) o[i] = (x[i] & m) | (y[i] & ~m); return r; }
static Box3i listed(F &f) {
  static const int S[5][3] = {{1, 3, 2}, {3, 1, 2}, {3, 2, 3}, {2, 3, 3}, {5, 2, 1}};
  f.setMapping(tmap());
  g_order = sym_pick(0, MAXORDER, "order"); f.setBlockOrder(g_order);
  int s = sym_pick(0, g_order ? NSIZES - 1 : 1, "size"); int ox = sym_range(-ORG, ORG, "ox"), oy = sym_range(-ORG, ORG, "oy"), oz = sym_range(-ORG, ORG, "oz");
  Box3i dw(V3i(ox, oy, oz), V3i(ox + S[s][0] - 1, oy + S[s][1] - 1, oz + S[s][2] - 1));
  f.setSize(dw); return dw;
}
static Box3i sized(F &f, int mx, int my, int mz) {
  f.setMapping(tmap());
  g_order = sym_pick(0, MAXORDER, "order"); f.setBlockOrder(g_order);
  Box3i dw = symBox(mx, my, mz);
  f.setSize(dw);
  return dw;
}
// any voxel, its block concrete on each path
static Vox blkVox(const Box3i &dw, const char *n) {
  V3i d = dw.max - dw.min; int bs = 1 << g_order; int v[3];
  for (int a = 0; a < 3; a++) { int da = (int)sym_conc((uint32_t)d[a]); int b = sym_pick(0, da >> g_order, n); v[a] = (b << g_order) + sym_range(0, std::min(bs - 1, da - (b << g_order)), n); }
  Vox r = {dw.min.x + v[0], dw.min.y + v[1], dw.min.z + v[2]}; return r;
}
// any sequence of NOPS writes, block empty-value changes and clears, then reads at an arbitrary voxel
extern "C" void sparse_map() {
  F f; Box3i dw = listed(f);
  T c = Sym<T>::make("c"); f.clear(c);
  Vox r = symVox(dw, "r"); V3i rb = blk(dw, r);
  T exp = c; bool alloc = false;
  for (int op = 0; op < NOPS; op++) {
    int k = sym_pick(0, 3, "op");
    T a = Sym<T>::make("a");
    if (k == 0 || k == 1) {
      Vox p = blkVox(dw, "p");
      if (k == 0) f.lvalue(p.i, p.j, p.k) = a; else { F::iterator it = f.begin(Box3i(V3i(p.i, p.j, p.k), V3i(p.i, p.j, p.k))); *it = a; }
      exp = sel(same(p, r), a, exp); alloc = alloc | eq3(blk(dw, p), rb);
    } else if (k == 2) {
      Vox p = blkVox(dw, "p"); V3i b = blk(dw, p);
      f.setBlockEmptyValue(b.x, b.y, b.z, a);
      bool s = eq3(b, rb); exp = sel(s, a, exp); alloc = alloc & !s;
    } else { f.clear(a); exp = a; alloc = false; }
    if (op + 1 < NOPS) { T mid = f.fastValue(r.i, r.j, r.k); sym_assert(same(mid, exp), "value in mid sequence"); }
  }
  sym_assert(same(f.value(r.i, r.j, r.k), exp), "value is the last write or the block's empty value");
  sym_assert(f.blockIsAllocated(rb.x, rb.y, rb.z) == alloc, "allocated exactly when written");
  sym_assert(f.voxelIsInAllocatedBlock(r.i, r.j, r.k) == alloc, "voxelIsInAllocatedBlock agrees");
  size_t vc = f.voxelCount();
  F::const_iterator it = f.cbegin(Box3i(V3i(r.i, r.j, r.k), dw.max));
  sym_assert(same(*it, exp), "iterator read agrees");
  sym_assert(f.voxelCount() == vc, "reading allocates nothing");
  sym_assert((f.blockData(rb.x, rb.y, rb.z) != NULL) == alloc, "block data exists exactly when allocated");
  sym_reach("end");
}
// block arithmetic for window sizes over the whole int range (large block order keeps the block count small)
#ifndef ORDLO
#define ORDLO 3
#define ORDHI 5
#endif
extern "C" void sparse_blocks() {
  F f; f.setMapping(tmap());
  int order = sym_pick(ORDLO, ORDHI, "order"); g_order = order;
  f.setBlockOrder(order);
  int ox = sym_range(-ORG, ORG, "ox");
  int maxn = 3 << order; if (order >= 29) maxn = 0x7fffffff - 2 * ORG - 16;
  int axis = sym_pick(0, 2, "axis");
  V3i n(1, 1, 1); n[axis] = sym_range(1, maxn, "n");
  Box3i dw(V3i(ox, -5, 7), V3i(ox, -5, 7) + n - V3i(1));
  f.setSize(dw);
  V3i br = f.blockRes();
  for (int a = 0; a < 3; a++) {
    long long bs = 1ll << order;
    sym_assert((br[a] * bs >= n[a]) & ((br[a] - 1) * bs < n[a]), "fewest blocks that cover the window");
  }
  Vox v = {dw.min.x, dw.min.y, dw.min.z}; int o = sym_int("o"); sym_assume((o >= 0) & (o < n[axis]));
  if (axis == 0) v.i += o; else if (axis == 1) v.j += o; else v.k += o;
  int i = v.i, j = v.j, k = v.k; f.applyDataWindowOffset(i, j, k);
  int bi, bj, bk, vi, vj, vk; f.getBlockCoord(i, j, k, bi, bj, bk); f.getVoxelInBlock(i, j, k, vi, vj, vk);
  sym_assert(f.blockIndexIsValid(bi, bj, bk), "block exists");
  long long B = axis == 0 ? bi : axis == 1 ? bj : bk, V = axis == 0 ? vi : axis == 1 ? vj : vk;
  sym_assert((B * (1ll << order) + V == o) & (V >= 0) & (V < (1ll << order)), "position inside the block");
  int id = f.blockId(bi, bj, bk);
  sym_assert((id >= 0) & (id < br.x * br.y * br.z), "block id in range");
  // the storage behind the id really exists, and is private to the block
  T a = Sym<T>::make("a"); f.setBlockEmptyValue(bi, bj, bk, a);
  sym_assert(same(f.value(v.i, v.j, v.k), a), "empty value readable at the voxel");
  sym_reach("end");
}
// distinct voxels have distinct (block id, position); every block id in range; small windows in 3-D
extern "C" void sparse_inject() {
  F f; Box3i dw = sized(f, 5, 5, 5);
  V3i br = f.blockRes();
  Vox p = symVox(dw, "p"), q = symVox(dw, "q");
  int id[2], pos[2]; Vox vs[2] = {p, q};
  for (int t = 0; t < 2; t++) {
    int i = vs[t].i, j = vs[t].j, k = vs[t].k, bi, bj, bk, vi, vj, vk; f.applyDataWindowOffset(i, j, k); f.getBlockCoord(i, j, k, bi, bj, bk); f.getVoxelInBlock(i, j, k, vi, vj, vk);
    sym_assert((bi >= 0) & (bj >= 0) & (bk >= 0) & (bi < br.x) & (bj < br.y) & (bk < br.z), "block exists");
    id[t] = f.blockId(bi, bj, bk); pos[t] = (((vk << g_order) + vj) << g_order) + vi;
    sym_assert((id[t] >= 0) & (id[t] < br.x * br.y * br.z) & (pos[t] >= 0) & (pos[t] < (1 << (3 * g_order))), "in range");
  }
  sym_assert(((id[0] == id[1]) & (pos[0] == pos[1])) == same(p, q), "one position per voxel");
  V3i n = dw.max - dw.min + V3i(1);
  for (int a = 0; a < 3; a++) sym_assert((br[a] << g_order) >= n[a] && ((br[a] - 1) << g_order) < n[a], "fewest blocks");
  size_t g = f.numGrains(); sym_assert(g == (size_t)br.x * br.y * br.z, "one grain per block");
  sym_reach("end");
}
template <class IT> static bool at(IT &it, int i, int j, int k) { return (it.x == i) & (it.y == j) & (it.z == k); }
extern "C" void sparse_iter() {
  F f; Box3i dw = listed(f);
  T c = Sym<T>::make("c"); f.clear(c);
  Vox p = blkVox(dw, "p"); T a = Sym<T>::make("a");
  if (sym_bool("write")) f.lvalue(p.i, p.j, p.k) = a; else a = c;
  Box3i sb = symSub(dw, "sub");
  F::const_iterator it = f.cbegin(sb), e = f.cend(sb);
  for (int k = sb.min.z; k <= sb.max.z; k++) for (int j = sb.min.y; j <= sb.max.y; j++) for (int i = sb.min.x; i <= sb.max.x; i++) {
    sym_assert(it != e, "not at the end before the last voxel");
    sym_assert(at(it, i, j, k), "coordinates in x-fastest order");
    Vox v = {i, j, k}; T got = *it;
    sym_assert(same(got, sel(same(v, p), a, c)), "value of exactly that voxel");
    ++it;
  }
  sym_assert(it == e, "at the end after the last voxel");
  sym_reach("end");
}
extern "C" void sparse_iter_w() {
  F f; Box3i dw = sized(f, MAXN, MAXN, MAXN);
  T c = Sym<T>::make("c"); f.clear(c);
  Box3i sb = symSub(dw, "sub");
  Vox r = symVox(dw, "r"); T a = Sym<T>::make("a");
  V3i n = sb.max - sb.min; Vox p = {sb.min.x + sym_pick(0, n.x, "p"), sb.min.y + sym_pick(0, n.y, "p"), sb.min.z + sym_pick(0, n.z, "p")};
  F::iterator it = f.begin(sb), e = f.end(sb);
  for (int k = sb.min.z; k <= sb.max.z; k++) for (int j = sb.min.y; j <= sb.max.y; j++) for (int i = sb.min.x; i <= sb.max.x; i++) {
    sym_assert(it != e, "not at the end before the last voxel");
    sym_assert(at(it, i, j, k), "coordinates in x-fastest order");
    if (i == p.i && j == p.j && k == p.k) *it = a;
    ++it;
  }
  sym_assert(it == e, "at the end after the last voxel");
  sym_assert(same(f.value(r.i, r.j, r.k), sel(same(r, p), a, c)), "a write through the iterator lands on that voxel only");
  sym_assert(f.voxelIsInAllocatedBlock(r.i, r.j, r.k) == eq3(blk(dw, p), blk(dw, r)), "only the written block is allocated");
  sym_reach("end");
}
extern "C" void sparse_blockiter() {
  F f; Box3i dw = sized(f, 5, 4, 3);
  V3i br = f.blockRes(); int bs = f.blockSize();
  F::block_iterator it = f.blockBegin(), e = f.blockEnd(); size_t grain = 0;
  for (int z = 0; z < br.z; z++) for (int y = 0; y < br.y; y++) for (int x = 0; x < br.x; x++) {
    sym_assert(it != e, "not at the end before the last block");
    sym_assert(at(it, x, y, z), "block coordinates");
    Box3i want; want.min = dw.min + V3i(x * bs, y * bs, z * bs); want.max = want.min + V3i(bs - 1);
    want.max = V3i(std::min(want.max.x, dw.max.x), std::min(want.max.y, dw.max.y), std::min(want.max.z, dw.max.z));
    sym_assert(eqBox(it.blockBoundingBox(), want), "voxel bounds the block really covers");
    ++it;
  }
  sym_assert(it == e, "at the end after the last block");
  for (size_t g = 0; g < f.numGrains(); g++) {
    Box3i b; bool a = f.getGrainBounds(g, b);
    int x = g % br.x, y = (g / br.x) % br.y, z = g / (br.x * br.y);
    Box3i want; want.min = dw.min + V3i(x * bs, y * bs, z * bs); want.max = want.min + V3i(bs - 1);
    want.max = V3i(std::min(want.max.x, dw.max.x), std::min(want.max.y, dw.max.y), std::min(want.max.z, dw.max.z));
    sym_assert(eqBox(b, want), "grain bounds are the block's voxels");
    sym_assert(a == eq3(want.max - want.min, V3i(bs - 1)), "full block reported");
  }
  sym_reach("end");
}
// C06
#ifdef RELEASE
#ifndef RYZ
#define RYZ 2
#endif
static bool neq(const T &a, const T &b) { return a != b; }
template <class U> static bool below(const U &a, const U &l) { return std::fabs((double)a) < (double)l; }
template <class U> static bool below(const Imath::Vec3<U> &a, const Imath::Vec3<U> &l) { return below(a.x, l.x) | below(a.y, l.y) | below(a.z, l.z); }
extern "C" void sparse_release() {
  F f; f.setMapping(tmap()); g_order = 1; f.setBlockOrder(1);
  int nx = sym_pick(1, RX, "nx"), ny = sym_pick(1, RYZ, "ny"), nz = sym_pick(1, RYZ, "nz");
  int ox = sym_range(-ORG, ORG, "ox"); Box3i dw(V3i(ox, 3, -9), V3i(ox, 3, -9) + V3i(nx - 1, ny - 1, nz - 1));
  f.setSize(dw); T c = Sym<T>::make("c"); f.clear(c);
  V3i br = f.blockRes(); int nb = br.x;
  bool alloc[4] = {false, false, false, false};
  // allocate any subset of the blocks and fill their voxels with arbitrary values
  for (int b = 0; b < nb; b++) { alloc[b] = sym_pick(0, 1, "alloc"); if (!alloc[b]) continue;
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 2 * b; i < std::min(nx, 2 * b + 2); i++) f.lvalue(ox + i, 3 + j, -9 + k) = Sym<T>::make("v"); }
  F g(f);
  Vox r = symVox(dw, "r"); int rb = (r.i - ox) >> 1;
  T before = f.value(r.i, r.j, r.k);
  int want = 0; bool rel[4];
  T lim = Sym<T>::make("lim"); int mode = sym_pick(0, 1, "crit");
  for (int b = 0; b < nb; b++) { rel[b] = alloc[b]; if (!alloc[b]) continue; T first = g.value(ox + 2 * b, 3, -9); bool ok = true;
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 2 * b; i < std::min(nx, 2 * b + 2); i++) { T x = g.value(ox + i, 3 + j, -9 + k); bool bad = mode == 0 ? neq(x, first) : below(x, lim); ok = ok & !bad; }
    if (ok) want++; else rel[b] = false; }
  int n = mode == 0 ? f.releaseBlocks(Sparse::CheckAllEqual<T>()) : f.releaseBlocks(Sparse::CheckMaxAbs<T>(lim));
  sym_assert(n == want, "count of blocks freed");
  for (int b = 0; b < nb; b++) sym_assert(f.blockIsAllocated(b, 0, 0) == (alloc[b] & !rel[b]), "released exactly when the criterion holds");
  T after = f.value(r.i, r.j, r.k);
  if (mode == 0) sym_assert(!neq(before, after) | (same(before, after)), "value unchanged by an equality release");
  bool mine = false; for (int b = 0; b < nb; b++) mine = mine | ((rb == b) & rel[b]);
  sym_assert(mine | same(before, after), "blocks not released keep their values");
  if (mode == 1) sym_assert(!mine | !below(after, lim), "released value satisfies the criterion");
  sym_reach("end");
}
#endif
// block counts and block sizes that do not fit an int: either refused, or the storage really exists
extern "C" void sparse_huge() {
  bool ok = true;
  { F f; f.setMapping(tmap());
    static const int sizes[][4] = {{0, 2048, 2048, 1024}, {0, 65536, 65536, 1}, {1, 4096, 2048, 2048}, {11, 3, 3, 3}, {12, 1, 1, 5}, {4, 70000, 1, 1}};
    const int *s = sizes[sym_pick(0, 5, "size")]; V3i n(s[1], s[2], s[3]); int w = sym_pick(0, 1, "which"); int j = 0, i = 0;
    try {
      f.setBlockOrder(s[0]); f.setSize(n);
      T a = Sym<T>::make("a");
      if (w) { i = n.x - 1; j = n.y - 1; }
      f.lvalue(i, j, w ? n.z - 1 : 0) = a;
      sym_assert(same(f.value(i, j, w ? n.z - 1 : 0), a), "the voxel has its own storage");
    } catch (std::exception &) { ok = false; }
  }
  sym_reach(ok ? "stored" : "refused");
}
