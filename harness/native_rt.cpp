// Native replay of a recorded counterexample.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <pthread.h>
// Allocations above 256 MB fail, as in the engine, so that replaying a refused size does not exhaust the machine.
#include <new>
void *operator new(size_t n) { if (n > (256ull << 20)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static std::map<std::string, std::vector<uint64_t>> g_in;
static std::map<std::string, size_t> g_pos;
static bool g_loaded = false;
static void loadIn() {
  if (g_loaded) return; g_loaded = true;
  const char *p = getenv("SYM_REPLAY"); if (!p) return;
  std::ifstream f(p); std::string n; unsigned w; unsigned long long v;
  while (f >> n >> w >> v) if (n != "#schedule") g_in[n].push_back(v);
}
#define NOASAN __attribute__((no_sanitize("address")))
extern "C" {
uint64_t sym_bits(unsigned w, const char *name) {
  loadIn(); auto &v = g_in[name]; size_t &p = g_pos[name];
  uint64_t r = p < v.size() ? v[p] : 0; p++;
  return w >= 64 ? r : r & ((1ull << w) - 1);
}
void sym_assume_(uint64_t c) { if (!c) { fprintf(stderr, "SYM-ASSUME-FALSE\n"); fflush(stderr); _exit(77); } }
void sym_assert_(uint64_t c, const char *l) { if (!c) { fprintf(stderr, "SYM-ASSERT-FAIL %s\n", l); fflush(stderr); _exit(42); } }
void sym_reach(const char *) {}
uint64_t sym_conc(uint64_t v) { return v; }
int sym_in_engine() { return 0; }
uint64_t sym_objsize(const void *) { return 0; }
uint64_t sym_live_objects() { return 0; }
void sym_debug(const char *l, uint64_t v) { if (getenv("SYM_DEBUG")) fprintf(stderr, "[dbg] %s = %lld\n", l, (long long)v); }
void sym_giveup(const char *w) { fprintf(stderr, "SYM-GIVEUP %s\n", w); _exit(77); }
static std::string scratch() { const char *d = getenv("SYM_SCRATCH"); return d ? d : "."; }
const char *sym_path(const char *n) { static std::vector<std::string *> keep; keep.push_back(new std::string(scratch() + "/" + n)); return keep.back()->c_str(); }
void symfs_put(const char *p, const void *d, size_t n) { FILE *f = fopen(p, "wb"); if (!f) _exit(77); if (n) fwrite(d, 1, n, f); fclose(f); }
long symfs_size(const char *p) { struct stat st; if (stat(p, &st)) return -1; return st.st_size; }
void HARNESS_ENTRY();
}
#ifndef SYM_NATIVE_SCHED
static std::vector<pthread_t> &thr() { static std::vector<pthread_t> *v = new std::vector<pthread_t>; return *v; }
extern "C" int sym_thread_create(void *(*fn)(void *), void *arg) { pthread_t t; pthread_create(&t, 0, fn, arg); thr().push_back(t); return (int)thr().size(); }
extern "C" void sym_thread_join(int id) { pthread_join(thr()[id - 1], 0); }
extern "C" void sym_yield() { sched_yield(); }
#endif
int main() { HARNESS_ENTRY(); fprintf(stderr, "SYM-DONE\n"); fflush(stderr); _exit(0); }
