// boost::mutex and friends over the engine's pthread primitives
#pragma once
#include <pthread.h>
#include <cstddef>
#include <boost/noncopyable.hpp>
namespace boost {
class noncopyable_mutex_base_ { public: noncopyable_mutex_base_() {} private: noncopyable_mutex_base_(const noncopyable_mutex_base_ &); void operator=(const noncopyable_mutex_base_ &); };
template <class M> class unique_lock {
  M *m; bool o;
public:
  explicit unique_lock(M &x) : m(&x), o(true) { x.lock(); }
  ~unique_lock() { if (o) m->unlock(); }
  void lock() { m->lock(); o = true; } void unlock() { m->unlock(); o = false; }
  bool owns_lock() const { return o; }
private: unique_lock(const unique_lock &); void operator=(const unique_lock &);
};
template <class M> class lock_guard { M &m; public: explicit lock_guard(M &x) : m(x) { m.lock(); } ~lock_guard() { m.unlock(); } private: lock_guard(const lock_guard &); };
class mutex : noncopyable_mutex_base_ {
  pthread_mutex_t m;
public:
  mutex() { pthread_mutex_init(&m, 0); } ~mutex() { pthread_mutex_destroy(&m); }
  void lock() { pthread_mutex_lock(&m); } void unlock() { pthread_mutex_unlock(&m); } bool try_lock() { return pthread_mutex_trylock(&m) == 0; }
  typedef unique_lock<mutex> scoped_lock;
};
class recursive_mutex : noncopyable_mutex_base_ {
  pthread_mutex_t m;
public:
  recursive_mutex() { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&m, &a); } ~recursive_mutex() { pthread_mutex_destroy(&m); }
  void lock() { pthread_mutex_lock(&m); } void unlock() { pthread_mutex_unlock(&m); } bool try_lock() { return pthread_mutex_trylock(&m) == 0; }
  typedef unique_lock<recursive_mutex> scoped_lock;
};
}
