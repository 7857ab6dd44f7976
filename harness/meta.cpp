// C27: metadata is a typed map
#include "DenseField.h"
#include "h.h"
struct Cb : MetadataCallback { int n; Cb() : n(0) {} void metadataHasChanged(const std::string &) override { n++; } };
static std::string key(const char *n) { // one of a few short names, prefixes of each other included
  static const char *k[] = {"", "a", "ab", "b", "a very much longer metadata name"}; return k[sym_pick(0, 4, n)];
}
struct Mod { bool hs, hi, hf, hv3, hvf; std::string s; int i; float f; V3i v3; V3f vf; Mod() : hs(0), hi(0), hf(0), hv3(0), hvf(0), i(0), f(0), v3(0), vf(0) {} };
#ifndef LEN
#define LEN 2
#endif
static std::string some(const char *n) { char b[4] = {(char)sym_u8(n), (char)sym_u8(n), 0, 0}; sym_assume((b[0] != 0) & (b[1] != 0)); return std::string(b, LEN); }
static V3i i3(const char *n) { int x = sym_int(n), y = sym_int(n), z = sym_int(n); return V3i(x, y, z); }
static void check(const FieldMetadata &m, const std::string &k, const Mod &e, const char *lbl) {
  std::string ds = some("ds"); int di = sym_int("di"); float df = sym_f32("df"); V3i d3 = i3("d3"); V3f dv = Sym<V3f>::make("dv");
  sym_assert(m.strMetadata(k, ds) == (e.hs ? e.s : ds), lbl);
  sym_assert(m.intMetadata(k, di) == (e.hi ? e.i : di), lbl);
  sym_assert(same(m.floatMetadata(k, df), e.hf ? e.f : df), lbl);
  sym_assert(m.vecIntMetadata(k, d3) == (e.hv3 ? e.v3 : d3), lbl);
  sym_assert(same(m.vecFloatMetadata(k, dv), e.hvf ? e.vf : dv), lbl);
}
#ifndef NOPS
#define NOPS 2
#endif
static void op(FieldMetadata &m, const std::string &k, Mod &e, bool hit) {
  switch (sym_pick(0, 4, "kind")) {
  case 0: { std::string v = some("s"); m.setStrMetadata(k, v); if (hit) e.hs = true, e.s = v; break; }
  case 1: { int v = sym_int("i"); m.setIntMetadata(k, v); if (hit) e.hi = true, e.i = v; break; }
  case 2: { float v = sym_f32("f"); m.setFloatMetadata(k, v); if (hit) e.hf = true, e.f = v; break; }
  case 3: { V3i v = i3("vi"); m.setVecIntMetadata(k, v); if (hit) e.hv3 = true, e.v3 = v; break; }
  default: { V3f v = Sym<V3f>::make("vf"); m.setVecFloatMetadata(k, v); if (hit) e.hvf = true, e.vf = v; break; }
  }
}
extern "C" int meta_map() {
  Cb cb; FieldMetadata m(&cb); Mod e; std::string q = key("q");
  for (int i = 0; i < NOPS; i++) { std::string k = key("k"); op(m, k, e, k == q); }
  sym_assert(cb.n == NOPS, "owner told of every change");
  check(m, q, e, "reads give the last value set, or the default");
  sym_assert(m.strMetadata().size() + m.intMetadata().size() + m.floatMetadata().size() + m.vecIntMetadata().size() + m.vecFloatMetadata().size() <= (size_t)NOPS, "no entries invented");
  sym_assert((m.strMetadata().count(q) == e.hs) & (m.intMetadata().count(q) == e.hi) & (m.floatMetadata().count(q) == e.hf) & (m.vecIntMetadata().count(q) == e.hv3) & (m.vecFloatMetadata().count(q) == e.hvf), "listed exactly when set");
  sym_reach("end"); return 0;
}
extern "C" int meta_copy() {
  DenseField<float>::Ptr a(new DenseField<float>), b(new DenseField<float>);
  Mod e, old; std::string q = key("q");
  if (sym_bool("preset")) { op(b->metadata(), "zz", old, false); }
  for (int i = 0; i < NOPS; i++) { std::string k = key("k"); op(a->metadata(), k, e, k == q); }
  DenseField<float>::Ptr c;
  switch (sym_pick(0, 2, "how")) { case 0: b->copyMetadata(*a); break; case 1: b = new DenseField<float>(*a); break; default: b->metadata() = a->metadata(); }
  check(b->metadata(), q, e, "the copy reads the same");
  sym_assert((b->metadata().strMetadata() == a->metadata().strMetadata()) & (b->metadata().intMetadata() == a->metadata().intMetadata()) & (b->metadata().vecIntMetadata() == a->metadata().vecIntMetadata()), "the copy lists the same entries");
  sym_assert((b->metadata().floatMetadata().size() == a->metadata().floatMetadata().size()) & (b->metadata().vecFloatMetadata().size() == a->metadata().vecFloatMetadata().size()), "the copy lists the same entries");
  Mod e2 = e; std::string k = key("k2"); op(a->metadata(), k, e2, k == q);
  check(b->metadata(), q, e, "the copy is independent");
  check(a->metadata(), q, e2, "the original took the change");
  sym_reach("end"); return 0;
}
