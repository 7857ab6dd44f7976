// C29: clamping to a narrower type
#include <cfloat>
#include "Types.h"
#include "DenseField.h"
#include "h.h"
static bool fin(float v) { return (v >= -FLT_MAX) & (v <= FLT_MAX); }
static bool fin(double v) { return (v >= -DBL_MAX) & (v <= DBL_MAX); }
template <class F> static F any(const char *n); template <> float any<float>(const char *n) { return sym_f32(n); } template <> double any<double>(const char *n) { return sym_f64(n); }
template <class F, class I> static void toInt() {
  F v = any<F>("v"); sym_assume(fin(v));
  I r = clampForType<F, I>(v); const I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
  double d = v, b = r;
  if (d < (double)lo) sym_assert(r == lo, "below the range gives the lowest value");
  else if (d > (double)hi) sym_assert(r == hi, "above the range gives the highest value");
  else sym_assert((b - d < 1.0) & (d - b < 1.0), "in range changes by less than one");
}
// the nearest half by definition, over the bit pattern of the magnitude (no use of the conversion under test)
static double halfVal(uint32_t b) { int e = (b >> 10) & 31; uint32_t m = b & 1023; uint64_t bits64; if (e == 0) { double s = (double)m; return s * 5.9604644775390625e-08; } bits64 = ((uint64_t)(e - 15 + 1023) << 52) | ((uint64_t)m << 42); double d; memcpy(&d, &bits64, 8); return d; }
template <class F> static void toHalf() {
  F v = any<F>("v"); sym_assume(fin(v));
  half r = clampForType<F, half>(v); uint32_t b = r.bits(), m = b & 0x7fff;
  uint64_t sv = sizeof(F) == 4 ? (uint64_t)(bits((float)v) >> 31) : bits((double)v) >> 63;
  sym_assert(m <= 0x7bff, "finite input stays finite");
  sym_assert((b >> 15) == sv, "the sign is kept");
  double a = v < 0 ? -(double)v : (double)v;
  if (a >= 65504.0) sym_assert(m == 0x7bff, "out of range is clamped to the largest value");
  else {
    double h = halfVal(m), up = m < 0x7bff ? halfVal(m + 1) : 65536.0, dn = m ? halfVal(m - 1) : 0.0;
    // a lies no farther than half a step from h (with slack for an intermediate rounding to float)
    double slack = sizeof(F) == 4 ? 0.0 : 1.0 / 16384.0;
    sym_assert((a <= h + (up - h) * (0.5 + slack)) & (a >= h - (h - dn) * (0.5 + slack)), "nearest representable value");
  }
}
extern "C" int clamp_d2i() { toInt<double, int>(); sym_reach("end"); return 0; }
extern "C" int clamp_f2i() { toInt<float, int>(); sym_reach("end"); return 0; }
extern "C" int clamp_f2uc() { toInt<float, unsigned char>(); sym_reach("end"); return 0; }
extern "C" int clamp_d2s() { toInt<double, short>(); sym_reach("end"); return 0; }
extern "C" int clamp_f2h() { toHalf<float>(); sym_reach("end"); return 0; }
extern "C" int clamp_d2h() { toHalf<double>(); sym_reach("end"); return 0; }
extern "C" int clamp_d2f() {
  double v = sym_f64("v"); sym_assume(fin(v));
  float r = clampForType<double, float>(v);
  sym_assert(fin(r), "finite input stays finite");
  if (v >= FLT_MAX) sym_assert(same(r, FLT_MAX), "clamped above"); else if (v <= -FLT_MAX) sym_assert(same(r, -FLT_MAX), "clamped below");
  else { sym_assert(same(r, (float)v), "nearest representable value"); }
  sym_reach("end"); return 0;
}
