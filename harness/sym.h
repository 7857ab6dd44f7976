// Harness primitives. Under the symbolic engine these are intrinsics; in the native
// replay build they are implemented by native_rt.cpp from a recorded counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
uint64_t sym_bits(unsigned width, const char *name);
void sym_assume_(uint64_t c);
void sym_assert_(uint64_t c, const char *label);
void sym_reach(const char *label);
uint64_t sym_conc(uint64_t v);           // fork over every feasible value
int sym_in_engine();
uint64_t sym_objsize(const void *p);
uint64_t sym_live_objects();
int sym_thread_create(void *(*fn)(void *), void *arg);
void sym_thread_join(int id);
void sym_yield();
void sym_debug(const char *l, uint64_t v);
void sym_giveup(const char *why);
void symfs_put(const char *path, const void *data, size_t n);  // create a file
long symfs_size(const char *path);
const char *sym_path(const char *name);                         // scratch path for a file
}
inline void sym_assume(bool c) { sym_assume_(c); }
#define sym_assert(c, label) sym_assert_((uint64_t)(bool)(c), label)
inline int sym_int(const char *n) { return (int)(uint32_t)sym_bits(32, n); }
inline uint32_t sym_u32(const char *n) { return (uint32_t)sym_bits(32, n); }
inline uint64_t sym_u64(const char *n) { return sym_bits(64, n); }
inline uint16_t sym_u16(const char *n) { return (uint16_t)sym_bits(16, n); }
inline uint8_t sym_u8(const char *n) { return (uint8_t)sym_bits(8, n); }
inline bool sym_bool(const char *n) { return sym_bits(1, n) != 0; }
inline float sym_f32(const char *n) { uint32_t b = (uint32_t)sym_bits(32, n); float f; memcpy(&f, &b, 4); return f; }
inline double sym_f64(const char *n) { uint64_t b = sym_bits(64, n); double f; memcpy(&f, &b, 8); return f; }
// any value of [lo,hi] (bounds concrete): lo plus an offset of just enough bits
inline int sym_range(int lo, int hi, const char *n) {
  uint64_t span = (uint64_t)((int64_t)hi - (int64_t)lo); unsigned k = 0; while (k < 32 && (span >> k)) k++;
  if (k == 0) return lo;
  uint64_t o = sym_bits(k, n); if (span != (1ull << k) - 1) sym_assume_(o <= span);
  return (int)(uint32_t)((uint64_t)(int64_t)lo + o);
}
// a value in [lo,hi], concrete on every path
inline int sym_pick(int lo, int hi, const char *n) { if (lo == hi) return lo; return (int)sym_conc((uint64_t)(uint32_t)sym_range(lo, hi, n)); }
// any finite double / float of magnitude at most m
inline double sym_fin64(double m, const char *n) { double v = sym_f64(n); sym_assume_((uint64_t)((v >= -m) & (v <= m))); return v; }
inline float sym_fin32(float m, const char *n) { float v = sym_f32(n); sym_assume_((uint64_t)((v >= -m) & (v <= m))); return v; }
inline uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
inline uint64_t bits(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
