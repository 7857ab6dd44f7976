// Models of the C++ runtime for the symbolic engine (compiled to bitcode, linked with the harness).
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <string>
#include <list>
#include <map>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <bits/stl_tree.h>
#include "symstream.h"
#include "sym.h"
#include <unordered_map>
#include <functional>
extern "C" void sym_rt_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" void __cxa_call_unexpected(void *) { std::terminate(); }

// ---- standard exceptions (out-of-line parts of libstdc++) ----
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
}
// logic_error/runtime_error hold a __cow_string: modelled as one strdup'ed pointer
static char *dupS(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
namespace std {
__cow_string::__cow_string() : _M_p(dupS("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupS(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dupS(s)) { (void)n; }
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupS(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dupS(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(dupS(o._M_p)) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dupS(o._M_p); } return *this; }
#define ERR(B) \
B::B(const string &s) : _M_msg(s) {} B::B(const char *s) : _M_msg(s, 0) {} \
B::B(const B &o) noexcept : exception(o), _M_msg(o._M_msg) {} B &B::operator=(const B &o) noexcept { _M_msg = o._M_msg; return *this; } \
B::~B() noexcept {} const char *B::what() const noexcept { return *reinterpret_cast<const char *const *>(&_M_msg); }
ERR(logic_error)
ERR(runtime_error)
#define DER(D, B) D::D(const string &s) : B(s) {} D::D(const char *s) : B(s) {} D::~D() noexcept {}
DER(domain_error, logic_error) DER(invalid_argument, logic_error) DER(length_error, logic_error) DER(out_of_range, logic_error)
DER(range_error, runtime_error) DER(overflow_error, runtime_error) DER(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }

// ---- red-black trees: an unbalanced binary search tree keeps the same observable order ----
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
static void transplant(_Rb_tree_node_base *u, _Rb_tree_node_base *v, _Rb_tree_node_base &h) {
  if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
  if (v) v->_M_parent = u->_M_parent;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  if (!z->_M_left) transplant(z, z->_M_right, h);
  else if (!z->_M_right) transplant(z, z->_M_left, h);
  else {
    _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { transplant(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    transplant(z, y, h); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else { _Rb_tree_node_base *m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m; m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &, _List_node_base &) noexcept { sym_giveup("list swap"); }
void _List_node_base::_M_reverse() noexcept { sym_giveup("list reverse"); }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = p * 2 + 1; _M_next_resize = p; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb || nb == 1) { return make_pair(true, _M_next_bkt((ne + ni) * 2 + 1)); } return make_pair(false, (size_t)0); }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i]; return h; }
ostream cout, cerr, clog; istream cin;
template class basic_string<char>;
}
// ---- in-memory files ----
namespace { struct SymFile { char name[96]; unsigned char *data; uint64_t size, cap; }; SymFile g_files[8]; int g_nfiles = 0; }
long g_symfsBudget = -1; // number of write operations that still succeed; -1: unlimited
long g_symfsWrites = 0;
extern "C" {
static int find(const char *p) { for (int i = 0; i < g_nfiles; i++) if (!strcmp(g_files[i].name, p)) return i; return -1; }
static int mk(const char *p) { int i = find(p); if (i < 0) { if (g_nfiles >= 8 || strlen(p) >= 96) sym_giveup("too many files"); i = g_nfiles++; strcpy(g_files[i].name, p); }
  g_files[i].size = 0; if (!g_files[i].data) { g_files[i].cap = 4096; g_files[i].data = (unsigned char *)malloc(4096); } return i; }
int symfs_open(const char *p, int create) { if (create) return mk(p); return find(p); }
uint64_t symfs_fdsize(int fd) { return g_files[fd].size; }
size_t symfs_read(int fd, uint64_t pos, void *b, size_t n) { SymFile &f = g_files[fd]; if (pos >= f.size) return 0; uint64_t a = f.size - pos; if (n > a) n = a; n = sym_conc(n); memcpy(b, f.data + pos, n); return n; }
int symfs_write(int fd, uint64_t pos, const void *b, size_t n) {
  SymFile &f = g_files[fd]; g_symfsWrites++;
  if (g_symfsBudget == 0) return 0; if (g_symfsBudget > 0) g_symfsBudget--;
  uint64_t e = pos + n;
  if (e > f.cap) { uint64_t c = f.cap; while (c < e) c *= 2; if (c > (1u << 24)) sym_giveup("file too large"); unsigned char *d = (unsigned char *)malloc(c); memcpy(d, f.data, f.size); free(f.data); f.data = d; f.cap = c; }
  if (pos > f.size) memset(f.data + f.size, 0, pos - f.size);
  memcpy(f.data + pos, b, n); if (e > f.size) f.size = e; return 1;
}
void symfs_put(const char *p, const void *d, size_t n) { int i = mk(p); long s = g_symfsBudget; g_symfsBudget = -1; symfs_write(i, 0, d, n); g_symfsBudget = s; }
long symfs_size(const char *p) { int i = find(p); return i < 0 ? -1 : (long)g_files[i].size; }
const char *sym_path(const char *n) { return n; }
unsigned sym_hw_concurrency() { return 2; }
int sym_atoi(const char *s) asm("atoi");
int sym_atoi(const char *s) { int sg = 1; while (*s == ' ') s++; if (*s == '-') { sg = -1; s++; } else if (*s == '+') s++; long v = 0; while (*s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); s++; } return (int)(sg * v); }
// zlib replaced by its contract: an invertible transformation, identity plus a length byte prefix
unsigned long compressBound(unsigned long n) { return n + 16; }
int compress2(unsigned char *d, unsigned long *dl, const unsigned char *s, unsigned long n, int) { if (*dl < n + 8) return -5; uint64_t m = n; memcpy(d, &m, 8); memcpy(d + 8, s, n); *dl = n + 8; return 0; }
int compress(unsigned char *d, unsigned long *dl, const unsigned char *s, unsigned long n) { return compress2(d, dl, s, n, 6); }
int uncompress(unsigned char *d, unsigned long *dl, const unsigned char *s, unsigned long n) { if (n < 8) return -3; uint64_t m; memcpy(&m, s, 8); if (m > *dl) return -5; if (m + 8 > n) return -3; memcpy(d, s + 8, m); *dl = m; return 0; }
}
