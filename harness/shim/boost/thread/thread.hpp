#pragma once
#include <boost/thread/mutex.hpp>
#include <vector>
extern "C" int sym_thread_create(void *(*fn)(void *), void *arg);
extern "C" void sym_thread_join(int id);
extern "C" void sym_yield();
extern "C" unsigned sym_hw_concurrency();
namespace boost {
class thread {
  int m_id;
  struct Base { virtual ~Base() {} virtual void run() = 0; };
  template <class F> struct Impl : Base { F f; Impl(const F &x) : f(x) {} void run() { f(); } };
  static void *tramp(void *p) { Base *b = (Base *)p; b->run(); delete b; return 0; }
  thread(const thread &); void operator=(const thread &);
public:
  thread() : m_id(-1) {}
  template <class F> explicit thread(F f) : m_id(sym_thread_create(&tramp, static_cast<Base *>(new Impl<F>(f)))) {}
  void join() { if (m_id >= 0) { sym_thread_join(m_id); m_id = -1; } }
  bool joinable() const { return m_id >= 0; }
  static unsigned hardware_concurrency() { return sym_hw_concurrency(); }
};
class thread_group {
  std::vector<thread *> v; thread_group(const thread_group &);
public:
  thread_group() {} ~thread_group() { for (size_t i = 0; i < v.size(); i++) delete v[i]; }
  template <class F> thread *create_thread(F f) { thread *t = new thread(f); v.push_back(t); return t; }
  void add_thread(thread *t) { v.push_back(t); }
  void join_all() { for (size_t i = 0; i < v.size(); i++) v[i]->join(); }
  size_t size() const { return v.size(); }
};
namespace this_thread { inline void yield() { sym_yield(); } template <class D> inline void sleep(const D &) { sym_yield(); } template <class D> inline void sleep_for(const D &) { sym_yield(); } }
}
