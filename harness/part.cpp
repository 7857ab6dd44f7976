// C35: grains partition a window; min/max fields reduce over every voxel
#include <cfloat>
#include <boost/utility.hpp>
#include "DenseField.h"
#include "SparseField.h"
#include "h.h"
#ifndef MX
#define MX 4
#endif
// visits every grain; counts how many contain an arbitrary voxel of the window, and their total size
template <class F> static void grains(F &f, const Box3i &dw) {
  Vox v = symVox(dw, "v"); int hits = 0; long long vol = 0; bool inside = true;
  size_t n = f.numGrains();
  for (size_t g = 0; g < n; g++) {
    Box3i b; f.getGrainBounds(g, b);
    hits += inBox(v, b);
    inside = inside & (b.min.x <= b.max.x) & (b.min.y <= b.max.y) & (b.min.z <= b.max.z) & (b.min.x >= dw.min.x) & (b.min.y >= dw.min.y) & (b.min.z >= dw.min.z) & (b.max.x <= dw.max.x) & (b.max.y <= dw.max.y) & (b.max.z <= dw.max.z);
    vol += (long long)(b.max.x - b.min.x + 1) * (b.max.y - b.min.y + 1) * (b.max.z - b.min.z + 1);
  }
  sym_assert(inside, "grains are non-empty and inside the window");
  sym_assert(hits == 1, "each voxel lies in exactly one grain");
  sym_assert(vol == (long long)(dw.max.x - dw.min.x + 1) * (dw.max.y - dw.min.y + 1) * (dw.max.z - dw.min.z + 1), "grains cover the window");
}
extern "C" int grains_dense() {
  DenseField<float>::Ptr f(new DenseField<float>); f->setMapping(tmap()); Box3i dw = symBox(MX, MX, MX); f->setSize(dw); grains(*f, dw); sym_reach("end"); return 0;
}
extern "C" int grains_sparse() {
  SparseField<float>::Ptr f(new SparseField<float>); f->setMapping(tmap()); f->setBlockOrder(sym_pick(0, 2, "order"));
  Box3i dw = symBox(MX + 1, MX, MX - 1); f->setSize(dw); grains(*f, dw);
  // a grain is reported full exactly when its block lies wholly inside the window, and its voxels are that block's
  size_t g = sym_pick(0, (int)f->numGrains() - 1, "g"); Box3i b; bool full = f->getGrainBounds(g, b); int s = f->blockSize();
  sym_assert(full == ((b.max.x - b.min.x + 1 == s) & (b.max.y - b.min.y + 1 == s) & (b.max.z - b.min.z + 1 == s)), "reports whether the block is whole");
  sym_reach("end"); return 0;
}
