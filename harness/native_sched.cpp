// Native replay under a controlled scheduler: the library and harness are compiled with
// -fsanitize=thread (compiler pass only) and this file supplies the callbacks, so that
// exactly one thread runs at a time and control may change hands at every atomic operation,
// lock and unlock. The order is pseudo-random from SYM_SEED.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sched.h>
namespace {
enum { N = 16 };
typedef int (*MF)(pthread_mutex_t *);
MF rlock, rtry, runlock;
pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER;
volatile int cur = 0, n = 1; volatile bool done[N], waiting[N];
__thread int me = 0;
uint64_t rs = 0; unsigned prob = 4;
void init() { if (rlock) return; rtry = (MF)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); runlock = (MF)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); rlock = (MF)dlsym(RTLD_NEXT, "pthread_mutex_lock");
  const char *s = getenv("SYM_SEED"); rs = (s ? strtoull(s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull + 1; static const unsigned ps[] = {2, 3, 6, 12, 30}; prob = ps[(rs >> 20) % 5]; }
unsigned rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 33); }
// hand over to another live thread, or stay
void handover(bool force) {
  int cand[N], c = 0; for (int i = 0; i < n; i++) if (!done[i] && i != me) cand[c++] = i;
  if (!c) return;
  cur = cand[rnd() % c]; (void)force;
}
void waitTurn() { while (cur != me) sched_yield(); __sync_synchronize(); }
void point() { init(); if (n < 2) return; __sync_synchronize(); if (rnd() % prob == 0) { handover(false); waitTurn(); } }
void blocked() { if (n < 2) { sched_yield(); return; } __sync_synchronize(); handover(true); waitTurn(); }
}
extern "C" {
struct Start { void *(*fn)(void *); void *arg; int id; };
static void *tramp(void *p) { Start *s = (Start *)p; me = s->id; waitTurn(); s->fn(s->arg); done[me] = true; __sync_synchronize(); handover(true); return 0; }
static pthread_t th[N];
int pthread_mutex_lock(pthread_mutex_t *m) { init(); if (n < 2) return rlock(m); point(); for (unsigned long k = 0;; k++) { int r = rtry(m); if (r == 0) return 0; if (k > 20000000ul) { fprintf(stderr, "SYM-DEADLOCK\n"); _exit(43); } blocked(); } }
int pthread_mutex_unlock(pthread_mutex_t *m) { init(); int r = runlock(m); point(); return r; }
int sym_thread_create(void *(*fn)(void *), void *arg) { init(); Start *s = new Start; s->fn = fn; s->arg = arg; s->id = n; int id = n; n = n + 1; pthread_create(&th[id], 0, tramp, s); point(); return id; }
void sym_thread_join(int id) { while (!done[id]) blocked(); pthread_join(th[id], 0); }
void sym_yield() { point(); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *) {} void __tsan_write##n(void *) {} void __tsan_unaligned_read##n(void *) {} void __tsan_unaligned_write##n(void *) {} void __tsan_read_write##n(void *) {} void __tsan_unaligned_read_write##n(void *) {} void __tsan_volatile_read##n(void *) {} void __tsan_volatile_write##n(void *) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) {} void __tsan_write_range(void *, unsigned long) {}
void *__tsan_memcpy(void *a, const void *b, size_t n) { return memcpy(a, b, n); } void *__tsan_memmove(void *a, const void *b, size_t n) { return memmove(a, b, n); } void *__tsan_memset(void *a, int v, size_t n) { return memset(a, v, n); }
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *a, int) { point(); return __atomic_load_n(a, 5); } void __tsan_atomic##b##_store(volatile T *a, T v, int) { point(); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { point(); return __atomic_exchange_n(a, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { point(); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { point(); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { point(); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { point(); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { point(); return __atomic_fetch_xor(a, v, 5); } T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { point(); return __atomic_fetch_nand(a, v, 5); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
