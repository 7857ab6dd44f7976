// C28 runtime types, reference counting, class factory
#include <cfloat>
#include <boost/utility.hpp>
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
#include "EmptyField.h"
#include "MIPField.h"
#include "ProceduralField.h"
#include "FieldInterp.h"
#include "ClassFactory.h"
#include "PluginLoader.h"
#include "h.h"
#ifdef SYM_ENGINE
FIELD3D_NAMESPACE_OPEN
void PluginLoader::loadPlugins() {} // no plugins on this machine; the factory starts empty
FIELD3D_NAMESPACE_SOURCE_CLOSE
#endif
template <class T> static RefBase::Ptr mk() { return RefBase::Ptr(new T); }
typedef RefBase::Ptr (*MkFn)();
static const MkFn makers[] = {
  mk<DenseField<float> >, mk<DenseField<double> >, mk<DenseField<half> >, mk<DenseField<V3f> >, mk<DenseField<V3h> >, mk<DenseField<V3d> >,
  mk<SparseField<float> >, mk<SparseField<double> >, mk<SparseField<half> >, mk<SparseField<V3f> >, mk<SparseField<V3h> >, mk<SparseField<V3d> >,
  mk<MACField<V3f> >, mk<MACField<V3h> >, mk<MACField<V3d> >, mk<EmptyField<float> >, mk<EmptyField<V3d> >, mk<EmptyField<half> >,
  mk<MIPField<DenseField<float> > >, mk<MIPField<SparseField<float> > >, mk<MIPField<DenseField<V3h> > >, mk<MIPField<SparseField<V3h> > >,
  mk<NullFieldMapping>, mk<MatrixFieldMapping>, mk<FrustumFieldMapping>, mk<LinearFieldInterp<float> >, mk<CubicFieldInterp<float> > };
enum { NMK = sizeof(makers) / sizeof(makers[0]) };
template <class T> static void check(const RefBase::Ptr &o) {
  typename T::Ptr got = field_dynamic_cast<T>(o); T *want = dynamic_cast<T *>(o.get());
  sym_assert((got.get() != 0) == (want != 0), "the cast succeeds exactly for the class and its bases");
  sym_assert(!want || (got.get() == want), "the cast refers to the same object");
}
typedef void (*CkFn)(const RefBase::Ptr &);
static const CkFn checks[] = {
  check<DenseField<float> >, check<DenseField<double> >, check<DenseField<half> >, check<DenseField<V3f> >, check<DenseField<V3h> >, check<DenseField<V3d> >,
  check<SparseField<float> >, check<SparseField<double> >, check<SparseField<half> >, check<SparseField<V3f> >, check<SparseField<V3h> >, check<SparseField<V3d> >,
  check<MACField<V3f> >, check<MACField<V3h> >, check<MACField<V3d> >, check<EmptyField<float> >, check<EmptyField<V3d> >, check<EmptyField<half> >,
  check<MIPField<DenseField<float> > >, check<MIPField<SparseField<float> > >, check<MIPField<DenseField<V3h> > >, check<MIPField<SparseField<V3h> > >,
  check<NullFieldMapping>, check<MatrixFieldMapping>, check<FrustumFieldMapping>, check<FieldMapping>, check<FieldBase>, check<FieldRes>,
  check<Field3D::Field<float> >, check<Field3D::Field<half> >, check<Field3D::Field<V3f> >, check<WritableField<float> >, check<WritableField<V3h> >, check<ResizableField<float> >, check<ResizableField<double> >, check<ResizableField<V3d> >,
  check<MIPBase<float> >, check<MIPBase<V3h> >, check<ProceduralField<float> >, check<LinearFieldInterp<float> >, check<CubicFieldInterp<float> >, check<FieldInterp<float> > };
enum { NCK = sizeof(checks) / sizeof(checks[0]) };
extern "C" int rtti_cast() {
  int a = sym_pick(0, NMK - 1, "object"), b = sym_pick(0, NCK - 1, "target");
  RefBase::Ptr o = makers[a](); checks[b](o);
  sym_assert(field_dynamic_cast<DenseField<float> >(RefBase::Ptr()).get() == 0, "null stays null");
  sym_reach("end"); return 0;
}
// --- reference counts ---
struct Obj : public RefBase {
  typedef boost::intrusive_ptr<Obj> Ptr; typedef RefBase base; DEFINE_FIELD_RTTI_CONCRETE_CLASS;
  static const char *staticClassType() { return "Obj"; }
  int id; static int dead[4]; Obj(int i) : id(i) {} ~Obj() { dead[id]++; }
};
int Obj::dead[4];
#ifndef NOPS
#define NOPS 4
#endif
#ifndef NREG
#define NREG 3
#endif
extern "C" int ref_ops() {
  { Obj::Ptr s[3]; int held[3] = {-1, -1, -1}; int born[4] = {0, 0, 0, 0}; int next = 0;
    for (int n = 0; n < NOPS; n++) {
      int op = sym_pick(0, 4, "op"), x = sym_pick(0, 2, "x"), y = sym_pick(0, 2, "y");
      if (op == 0) { if (next < 4) { born[next] = 1; s[x] = new Obj(next); held[x] = next++; } }
      else if (op == 1) { s[x] = s[y]; held[x] = held[y]; }
      else if (op == 2) { s[x].reset(); held[x] = -1; }
      else if (op == 3) { s[x].swap(s[y]); int t = held[x]; held[x] = held[y]; held[y] = t; }
      else { // a cast makes and drops temporaries
        Obj::Ptr c = field_dynamic_cast<Obj>(s[x]); sym_assert(c.get() == s[x].get(), "cast of a shared object"); boost::intrusive_ptr<DenseField<float> > d = field_dynamic_cast<DenseField<float> >(s[x]); sym_assert(!d, "cast to another class"); s[y] = c; held[y] = held[x]; }
      for (int i = 0; i < 4; i++) {
        int refs = 0; for (int k = 0; k < 3; k++) refs += held[k] == i;
        sym_assert(Obj::dead[i] == (born[i] && refs == 0 ? 1 : 0), "destroyed exactly when the last reference goes");
        for (int k = 0; k < 3; k++) if (held[k] == i) sym_assert((s[k]->refcnt() == (size_t)refs) & (s[k]->id == i), "reference count");
      }
    }
  }
  sym_reach("end"); return 0;
}
// two threads take and drop references while the owner drops its own
static Obj::Ptr *g_src;
static void *worker(void *p) { Obj::Ptr *mine = (Obj::Ptr *)p; { Obj::Ptr c = *mine; sym_assert(c->id == 1, "object readable while held"); } mine->reset(); return 0; }
extern "C" int ref_threads() {
  Obj::Ptr o(new Obj(1)); Obj::Ptr a = o, b = o;
  int t1 = sym_thread_create(worker, &a), t2 = sym_thread_create(worker, &b);
  bool drop = sym_pick(0, 1, "drop"); if (drop) o.reset();
  sym_thread_join(t1); sym_thread_join(t2);
  sym_assert(Obj::dead[1] == (drop ? 1 : 0), "destroyed exactly once, when the last reference goes");
  if (!drop) sym_assert(o->refcnt() == 1, "one reference left");
  sym_reach("end"); return 0;
}
// --- class factory ---
template <class F> static FieldRes::Ptr mkF() { return FieldRes::Ptr(new F); }
static const ClassFactory::CreateFieldFnPtr fieldFns[] = { mkF<DenseField<float> >, mkF<SparseField<float> >, mkF<DenseField<V3f> >, mkF<MACField<V3f> >, mkF<DenseField<half> > };
static const char *const fieldNames[] = { "DenseField<float>", "SparseField<float>", "DenseField<V3f>", "MACField<V3f>", "DenseField<half>" };
static FieldRes::Ptr otherDense() { FieldRes::Ptr f(new DenseField<float>); f->name = "second"; return f; }
static FieldMapping::Ptr mkNull() { return FieldMapping::Ptr(new NullFieldMapping); }
static FieldMapping::Ptr mkMat() { return FieldMapping::Ptr(new MatrixFieldMapping); }
extern "C" int factory() {
  ClassFactory &f = ClassFactory::singleton(); bool reg[5] = {false, false, false, false, false}, rm[2] = {false, false}; bool second = false, first = false;
  for (int n = 0; n < NREG; n++) {
    int op = sym_pick(0, 7, "op");
    if (op < 5) { f.registerField(fieldFns[op]); reg[op] = true; if (op == 0 && !second) first = true; }
    else if (op == 5) { f.registerField(otherDense); reg[0] = true; if (!first) second = true; }
    else { f.registerFieldMapping(op == 6 ? mkNull : mkMat); rm[op - 6] = true; }
  }
  int q = sym_pick(0, 4, "q"); FieldRes::Ptr r = f.createField(fieldNames[q]);
  sym_assert((r.get() != 0) == reg[q], "creates exactly the registered names");
  if (r) {
    sym_assert(r->className() + "<" + r->dataTypeString() + ">" == fieldNames[q], "creates the class of that name");
    FieldRes::Ptr r2 = f.createField(fieldNames[q]); sym_assert(r2.get() != r.get(), "a fresh object each time");
    if (q == 0) sym_assert((r->name == "second") == second, "the first registration of a name stays");
  }
  sym_assert(!f.createField("DenseField<") & !f.createField("") & !f.createField("DenseField<float"), "unknown names give nothing");
  FieldMapping::Ptr m = f.createFieldMapping("NullFieldMapping"), m2 = f.createFieldMapping("MatrixFieldMapping");
  sym_assert(((m.get() != 0) == rm[0]) & ((m2.get() != 0) == rm[1]), "mappings by name");
  sym_assert((!m || m->className() == "NullFieldMapping") & (!m2 || m2->className() == "MatrixFieldMapping"), "mapping class of that name");
  sym_reach("end"); return 0;
}
