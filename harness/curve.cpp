// C13: curves stay sorted and sample inside the bracketing samples
#include <cfloat>
#include "Curve.h"
#include "h.h"
#ifndef NS
#define NS 3
#endif
static float realT(const char *n) { float t = sym_f32(n); sym_assume((t == t) & (t >= -FLT_MAX) & (t <= FLT_MAX)); return t; }
// any times (ties included) in any order: sorted without duplicates, last value wins, exact at the ends and outside
extern "C" int curve_order() {
  Curve<int> c; // T's arithmetic never runs here
  float t[NS]; int v[NS];
  for (int i = 0; i < NS; i++) { t[i] = realT("t"); v[i] = sym_int("v"); c.addSample(t[i], v[i]); }
  size_t n = c.numSamples();
  const Curve<int>::SampleVec &s = c.samples();
  sym_assert((n == s.size()) & (n >= 1) & (n <= NS), "sample count");
  bool sorted = true; for (size_t i = 1; i < n; i++) sorted = sorted & (s[i - 1].first < s[i].first);
  sym_assert(sorted, "sorted, no duplicate times");
  for (int i = 0; i < NS; i++) {
    bool last = true; for (int j = i + 1; j < NS; j++) last = last & !(t[j] == t[i]);
    bool found = false, val = false; for (size_t k = 0; k < n; k++) { bool e = s[k].first == t[i]; found = found | e; val = val | (e & (s[k].second == v[i])); }
    sym_assert(found & (!last | val), "each time keeps its latest value");
  }
  c.clear(); sym_assert((c.numSamples() == 0) & c.samples().empty(), "clear empties");
  sym_reach("end"); return 0;
}
// clamping outside, exactly, for any finite times and any value bits
extern "C" int curve_clamp() {
  Curve<float> c; float t[NS], v[NS];
  float q = realT("q");
  for (int i = 0; i < NS; i++) { t[i] = realT("t"); v[i] = sym_f32("v"); for (int j = 0; j < i; j++) sym_assume(t[j] != t[i]); c.addSample(t[i], v[i]); }
  int lo = 0, hi = 0;
  for (int i = 1; i < NS; i++) { if (t[i] < t[lo]) lo = i; if (t[i] > t[hi]) hi = i; }
  if (q < t[lo]) { sym_assert(same(c.linear(q), v[lo]), "clamped before the first sample"); sym_reach("low"); }
  if (q >= t[hi]) { sym_assert(same(c.linear(q), v[hi]), "clamped from the last sample on"); sym_reach("high"); }
  Curve<double> e; sym_assert(same(e.linear(q), 0.0), "empty curve gives the default");
  Curve<V3f> e3; sym_assert(e3.linear(q) == V3f(0), "empty curve gives the default (vector)");
  Curve<M44d> em; M44d m = em.linear(q); bool id = true; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) id = id & (m[a][b] == (a == b ? 1.0 : 0.0));
  sym_assert(id, "empty matrix curve gives the identity");
  Curve<Imath::M44f> ef; Imath::M44f mf = ef.linear(q); id = true; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) id = id & (mf[a][b] == (a == b ? 1.0f : 0.0f));
  sym_assert(id, "empty float matrix curve gives the identity");
  sym_reach("end"); return 0;
}
// linear in between: times on an integer grid (concrete per path), values symbolic, query anywhere between (quarter grid)
extern "C" int curve_lerp() {
  Curve<float> c; int t[NS]; float v[NS];
  for (int i = 0; i < NS; i++) {
    t[i] = sym_pick(-2, 2, "t"); for (int j = 0; j < i; j++) sym_assume(t[j] != t[i]);
    v[i] = sym_fin32(1000.f, "v"); c.addSample((float)t[i], v[i]);
  }
  int lo = 0, hi = 0; // the samples around q
  int q4 = sym_pick(-8, 8, "q"); float q = q4 * 0.25f;
  lo = hi = -1;
  for (int i = 0; i < NS; i++) { if (4 * t[i] <= q4 && (lo < 0 || t[i] > t[lo])) lo = i; if (4 * t[i] >= q4 && (hi < 0 || t[i] < t[hi])) hi = i; }
  sym_assume((lo >= 0) & (hi >= 0));
  float r = c.linear(q);
  double w = lo == hi ? 0.0 : (double)(q4 - 4 * t[lo]) / (double)(4 * (t[hi] - t[lo]));
  double e = (1.0 - w) * v[lo] + w * v[hi], d = r - e;
  sym_assert((d < 0.002) & (d > -0.002), "linear between the bracketing samples");
  if (lo == hi) sym_reach("at sample"); else sym_reach("between");
  sym_reach("end"); return 0;
}
// matrix samples are interpolated element by element
extern "C" int curve_mat() {
  Curve<M44d> c; M44d a, b; double x[4], y[4];
  for (int i = 0; i < 4; i++) { x[i] = sym_fin64(1000, "x"); y[i] = sym_fin64(1000, "y"); a[3 - i][i] = x[i]; b[3 - i][i] = y[i]; }
  bool swap = sym_bool("swap");
  if (swap) { c.addSample(2.f, b); c.addSample(-1.f, a); } else { c.addSample(-1.f, a); c.addSample(2.f, b); }
  int q6 = sym_pick(-6, 12, "q"); double w = (q6 + 6) / 18.0; if (q6 == 12) w = 1;
  M44d m = c.linear(q6 / 6.0f); bool ok = true;
  for (int i = 0; i < 4; i++) { double e = (1 - w) * x[i] + w * y[i], d = m[3 - i][i] - e; ok = ok & (d < 0.002) & (d > -0.002); }
  sym_assert(ok, "matrices interpolate per element");
  sym_reach("end"); return 0;
}
// A query exactly at a sample's time returns that sample, for any finite times
extern "C" int curve_at() {
  Curve<float> c; float t[NS], v[NS];
  for (int i = 0; i < NS; i++) { t[i] = sym_fin32(1e6f, "t"); v[i] = sym_fin32(1000.f, "v"); for (int j = 0; j < i; j++) sym_assume((t[i] - t[j] >= 0.001f) | (t[j] - t[i] >= 0.001f)); c.addSample(t[i], v[i]); }
  int k = sym_pick(0, NS - 1, "k"); float r = c.linear(t[k]), d = r - v[k];
  sym_assert((d < 0.002f) & (d > -0.002f), "a sample's own value at its time");
  sym_reach("end"); return 0;
}
