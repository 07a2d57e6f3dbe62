// Simulator of the Python binding: the real extension in a real embedded interpreter.  Client threads are Python
// threads that pass a baton; the interpreter lock, every memory access of extension and library, the Python and numpy
// allocators and every call of the C API by the extension are under the simulator's control.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "harness.h"
#include "problem.h"
#include <sys/mman.h>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <dlfcn.h>
extern "C" {
#include "qpSWIFT.h"
}
#undef MAX
#undef MIN
using sim::violate; using sim::cur;

extern "C" PyObject *PyInit_qpSWIFT(void);
extern "C" { extern const int np_nfun; extern const int np_funidx[]; extern void *np_thunks[]; extern void *np_real[]; }

// ------------------------------------------------------------------ Python's memory
static const u64 PH = 0x300000000000ull, PH_SZ = 2ull << 30, PS = 0x310000000000ull, PD = 0x320000000000ull, PD_SZ = 1ull << 30;
struct PCl { bool in_call = false; i64 nth = -1, len = 0; u64 allocs = 0, fired = 0, falls = 0; i64 net = 0, net0 = 0; u64 rel_steps = 0, rel_at = 0; PyThreadState *ts = nullptr; int op = -1; bool frail = false; u32 api = 0; std::map<u32, i64> by_api; std::set<u32> failed_in; u64 pauses = 0; bool npfree = false; };
static PCl pc[MAXC + 2];
static int gil = -2;                       // client that holds the interpreter lock; -1: nobody; -2: the harness
struct Hdr { u32 magic, api; u64 size; };
struct FL { u64 head = 0, tail = 0; };
static FL fl[400]; static u64 brk_ = PH + 64;
static int cls_of(size_t n) { size_t k = (n + 15) / 16; if (k <= 256) return (int)k; int c = 257; size_t z = 8192; while (z < n) { z *= 2; c++; } return c; }
static size_t cap_of(int c) { return c <= 256 ? (size_t)c * 16 : (size_t)8192 << (c - 257); }
static u8 *psh(u64 a) { return (u8 *)(PS + ((a - PH) >> 4)); }

static bool deny() {
  if (!cur) return false;
  PCl &p = pc[cur->id];
  if (!p.in_call) return false;
  p.allocs++;
  if (p.frail) return false;      // CPython 3.12 itself crashes when an allocation fails inside PyErr_WarnEx
  if (p.nth > 0 && (i64)p.allocs >= p.nth && (i64)p.allocs < p.nth + p.len) { p.fired++; if (p.api) p.failed_in.insert(p.api); sim::hash(0xfa19); return true; }
  return false;
}
// Blocks are counted per call of the C API that allocated them: what a call that met a failed allocation leaves behind
// inside the host (numpy and CPython leak some of their own on such paths) is not the extension's doing.
// Likewise what the host allocates itself, outside the call, while it passes on a failed allocation (tracebacks).
static u32 api_serial = 0;
static u32 note_new() { if (!cur) return 0; PCl &p = pc[cur->id]; p.net++; u32 k = p.in_call ? p.api : 0; if (k) p.by_api[k]++; else p.net0++; return k; }
static void note_old(u32 api) { if (!cur) return; PCl &p = pc[cur->id]; p.net--; if (api) { auto it = p.by_api.find(api); if (it != p.by_api.end()) it->second--; } else p.net0--; }

static void *ph_raw(size_t n) {
  if (!n) n = 1;
  if (n > PH_SZ / 4) return nullptr;
  int c = cls_of(n); u64 a;
  if (fl[c].head) { a = fl[c].head; memcpy(&fl[c].head, (void *)a, 8); if (!fl[c].head) fl[c].tail = 0; }
  else { a = brk_ + 16; brk_ = a + cap_of(c) + 16; if (brk_ > PH + PH_SZ) { fprintf(stderr, "pysim: interpreter heap exhausted\n"); _exit(98); } }
  Hdr *h = (Hdr *)(a - 16); h->magic = 0x11fe; h->api = 0; h->size = n;
  memset(psh(a), 1, (n + 15) >> 4);
  return (void *)a;
}
static void put_api(void *p) { ((Hdr *)((u64)p - 16))->api = note_new(); }
static void *ph_malloc(void *, size_t n) { if (deny()) return nullptr; void *p = ph_raw(n); if (p) { put_api(p); memset(p, 0xcb, std::min<size_t>(n, 4096)); } return p; }
static void *ph_calloc(void *, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; if (deny()) return nullptr; void *p = ph_raw(n); if (p) { put_api(p); memset(p, 0, n ? n : 1); } return p; }
static void ph_free(void *, void *p) {
  if (!p) return;
  u64 a = (u64)p;
  if (a - PH >= PH_SZ) { free(p); return; }
  Hdr *h = (Hdr *)(a - 16);
  if (h->magic != 0x11fe) { violate("badfree", h->magic == 0xdead ? "an interpreter object was released twice" : "release of a pointer that is no interpreter memory"); return; }
  note_old(h->api);
  h->magic = 0xdead; int c = cls_of(h->size);
  memset(psh(a), 0, (h->size + 15) >> 4);
  memset(p, 0xdd, std::min<size_t>(h->size, 16384));
  u64 z = 0; memcpy(p, &z, 8);
  if (fl[c].tail) memcpy((void *)fl[c].tail, &a, 8); else fl[c].head = a;
  fl[c].tail = a;
}
static void *ph_realloc(void *x, void *p, size_t n) {
  if (!p) return ph_malloc(x, n);
  if (deny()) return nullptr;
  Hdr *h = (Hdr *)((u64)p - 16); void *q = ph_raw(n); if (!q) return nullptr;
  memcpy(q, p, std::min<size_t>(h->size, n)); put_api(q); ph_free(x, p); return q;
}
// array data: every block is known, so that accesses of the extension can be judged
struct DB { size_t size, cap; int op; bool live; u32 api; };
static std::map<u64, DB> dblocks; static u64 dbrk = PD + 4096;
static void *pd_malloc(void *, size_t n) {
  if (deny()) return nullptr;
  size_t cap = (n + 63) & ~(size_t)63; if (!cap) cap = 64;
  u64 a = 0; int seen = 0;
  for (auto &b : dblocks) { if (seen++ > 64) break; if (!b.second.live && b.second.cap >= cap && b.second.cap <= 2 * cap) { a = b.first; cap = b.second.cap; break; } }
  if (!a) { a = dbrk + 64; dbrk = a + cap + 64; if (dbrk > PD + PD_SZ) return nullptr; }
  dblocks[a] = DB{n, cap, cur ? cur->op : -1, true, note_new()};
  u64 junk = 0x7ff8000000000abcull; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((void *)(a + i), &junk, 8);
  return (void *)a;
}
static void *pd_calloc(void *x, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = pd_malloc(x, n); if (p) memset(p, 0, n); return p; }
static void pd_free(void *, void *p, size_t) {
  if (!p) return;
  auto it = dblocks.find((u64)p);
  if (it == dblocks.end() || !it->second.live) { violate("badfree", "the data of an array was released twice"); return; }
  it->second.live = false; note_old(it->second.api);
  u64 junk = 0x7ff8000000000defull; for (size_t i = 0; i + 8 <= it->second.cap; i += 8) memcpy((char *)p + i, &junk, 8);
}
static void *pd_realloc(void *x, void *p, size_t n) {
  if (!p) return pd_malloc(x, n);
  auto it = dblocks.find((u64)p); size_t o = it == dblocks.end() ? 0 : it->second.size;
  void *q = pd_malloc(x, n); if (!q) return nullptr; memcpy(q, p, std::min(o, n)); pd_free(x, p, o); return q;
}
struct DataHandler { char name[127]; u8 version; struct { void *ctx; void *(*m)(void *, size_t); void *(*c)(void *, size_t, size_t); void *(*r)(void *, void *, size_t); void (*f)(void *, void *, size_t); } a; };
static DataHandler handler = {"qpsim", 1, {nullptr, pd_malloc, pd_calloc, pd_realloc, pd_free}};
static PyObject *(*set_handler)(PyObject *) = nullptr; static PyObject *handler_cap = nullptr;

static void foreign(u64 a, u64 n, bool w, u64 pcv) {
  if (a - PH < PH_SZ) {
    if (!*psh(a) || !*psh(a + n - 1)) { violate("uaf", std::string(w ? "write to" : "read of") + " an interpreter object that was already released pc=" + sim::hex(pcv) + " op=" + std::to_string(cur->op)); return; }
    if (w && gil != cur->id) violate("gilwrite", "an interpreter object was written without the interpreter lock pc=" + sim::hex(pcv) + " op=" + std::to_string(cur->op));
  } else if (a - PD < PD_SZ) {
    auto it = dblocks.upper_bound(a);
    if (it == dblocks.begin()) { violate("oob", "access outside every array"); return; }
    --it;
    if (!it->second.live && a < it->first + it->second.cap) { violate("uaf", "the data of a released array was accessed pc=" + sim::hex(pcv) + " op=" + std::to_string(cur->op)); return; }
    if (a + n > it->first + it->second.size) { violate("oob", std::string(w ? "write" : "read") + " outside the data of an array pc=" + sim::hex(pcv) + " op=" + std::to_string(cur->op)); return; }
    if (w && it->second.op != cur->op) violate("inputwrite", "the data of an array that this call did not create was written pc=" + sim::hex(pcv) + " op=" + std::to_string(cur->op));
  }
}

// ------------------------------------------------------------------ the C API as the extension sees it
static PyThreadState *rsave() { static auto f = (PyThreadState * (*)(void)) dlsym(RTLD_NEXT, "PyEval_SaveThread"); return f(); }
static void rrestore(PyThreadState *t) { static auto f = (void (*)(PyThreadState *))dlsym(RTLD_NEXT, "PyEval_RestoreThread"); f(t); }
static VC gilvc;
static void gil_take(int id) { sim::wait_until([] { return gil == -1; }); gil = id; sim::acquire_vc(gilvc); }
static void gil_drop() { sim::release_vc(gilvc); gil = -1; }
static void boundary(double p) {           // a place where another thread is likely to be given the processor
  Client *c = cur;
  sim::maybe_switch(p);
  (void)c;
}
static const char *anyway[] = {"PyMem_Raw", "PyGILState_", "PyThread_", "PyEval_RestoreThread", "PyEval_AcquireThread", "Py_IsInitialized", "_PyThreadState_UncheckedGet", "PyThreadState_GetUnchecked", "PyThreadState_New"};
extern "C" void pysim_gate(const char *name) {
  if (!cur || !pc[cur->id].in_call) return;
  sim::api_step((u64)name);
  pc[cur->id].api = ++api_serial;
  pc[cur->id].frail = !strncmp(name, "PyErr_Warn", 10);
  if (gil != cur->id) {
    for (const char *a : anyway) if (!strncmp(name, a, strlen(a))) return;
    sim::fatal("gilapi", std::string(name) + " was called without the interpreter lock, op " + std::to_string(cur->op));
  }
  count("api_calls");
}
// numpy releases the lock of its own accord while it copies large arrays; another thread may run before it has it back
static bool np_gil = false;
extern "C" {
PyThreadState *PyEval_SaveThread(void) {
  PyThreadState *t = rsave();
  if (np_gil && cur && pc[cur->id].in_call && gil == cur->id) { gil_drop(); pc[cur->id].npfree = true; }
  return t;
}
void PyEval_RestoreThread(PyThreadState *t) {
  if (cur && pc[cur->id].npfree) { pc[cur->id].npfree = false; boundary(0.7); gil_take(cur->id); pc[cur->id].pauses++; count("host_released_the_lock_in_a_call"); }
  rrestore(t);
}
}
extern "C" {
PyThreadState *simpy_PyEval_SaveThread(void) {
  if (!cur) return rsave();
  if (gil != cur->id) sim::fatal("gilapi", "the interpreter lock was released by a thread that does not hold it, op " + std::to_string(cur->op));
  PyThreadState *t = rsave();
  pc[cur->id].rel_at = cur->local;
  gil_drop(); count("gil_released_in_call");
  boundary(0.7);
  return t;
}
void simpy_PyEval_RestoreThread(PyThreadState *t) {
  if (!cur) { rrestore(t); return; }
  if (gil == cur->id) sim::fatal("gilapi", "the interpreter lock was taken by a thread that already holds it, op " + std::to_string(cur->op));
  if (!t) sim::fatal("gilapi", "the interpreter lock was taken without a thread state, op " + std::to_string(cur->op));
  pc[cur->id].rel_steps += cur->local - pc[cur->id].rel_at;
  boundary(0.4);
  gil_take(cur->id);
  rrestore(t);
}
void simpy_PyEval_ReleaseThread(PyThreadState *t) { simpy_PyEval_SaveThread(); }
void simpy_PyEval_AcquireThread(PyThreadState *t) { simpy_PyEval_RestoreThread(t); }
PyGILState_STATE simpy_PyGILState_Ensure(void) {
  if (!cur) return PyGILState_Ensure();
  if (gil == cur->id) return PyGILState_LOCKED;
  pc[cur->id].rel_steps += cur->local - pc[cur->id].rel_at;
  gil_take(cur->id); rrestore(pc[cur->id].ts); return PyGILState_UNLOCKED;
}
void simpy_PyGILState_Release(PyGILState_STATE s) {
  if (!cur) { PyGILState_Release(s); return; }
  if (s == PyGILState_UNLOCKED) { rsave(); pc[cur->id].rel_at = cur->local; gil_drop(); boundary(0.4); }
}
int simpy_PyGILState_Check(void) { return cur ? gil == cur->id : PyGILState_Check(); }
int sim_pthread_mutex_lock(void *); int sim_pthread_mutex_unlock(void *); int sim_pthread_mutex_trylock(void *);
void *simpy_PyThread_allocate_lock(void) { return PyMem_RawMalloc(64); }
void simpy_PyThread_free_lock(void *l) { PyMem_RawFree(l); }
int simpy_PyThread_acquire_lock(void *l, int wait) { if (!wait) return sim_pthread_mutex_trylock(l) == 0; sim_pthread_mutex_lock(l); return 1; }
int simpy_PyThread_acquire_lock_timed(void *l, long long us, int) { if (us == 0) return sim_pthread_mutex_trylock(l) == 0; sim_pthread_mutex_lock(l); return 1; }
void simpy_PyThread_release_lock(void *l) { sim_pthread_mutex_unlock(l); }

void *simpy_PyCapsule_GetPointer(PyObject *c, const char *name) {
  pysim_gate("PyCapsule_GetPointer");
  void *p = PyCapsule_GetPointer(c, name);
  if (!p || cur) return p;
  PyObject *np = PyImport_ImportModule("numpy.core._multiarray_umath"); if (!np) { PyErr_Clear(); return p; }
  PyObject *api = PyObject_GetAttrString(np, "_ARRAY_API"); Py_DECREF(np);
  bool is = api && PyCapsule_GetPointer(api, nullptr) == p; Py_XDECREF(api); PyErr_Clear();
  if (!is) return p;
  static void *table[512]; void **t = (void **)p;
  int last = 0; for (int i = 0; i < np_nfun; i++) last = std::max(last, np_funidx[i]);
  memcpy(table, t, (last + 1) * 8);
  for (int i = 0; i < np_nfun; i++) { np_real[i] = t[np_funidx[i]]; if (np_real[i]) table[np_funidx[i]] = np_thunks[i]; }
  return table;
}
}
// every method of the module is called through a wrapper that marks the call
typedef PyObject *(*Meth)(void *, void *, void *, void *, void *, void *);
static Meth real_meth[8]; static int nmeth = 0;
static PyObject *enter(int i, void *a, void *b, void *c, void *d, void *e, void *f) {
  if (!cur || pc[cur->id].in_call) return real_meth[i](a, b, c, d, e, f);
  PCl &p = pc[cur->id]; Client *cl = cur;
  sim::begin_op(p.op);
  cl->owner = p.op;
  p.allocs = p.fired = 0; p.rel_steps = 0; p.frail = false; p.in_call = true;
  PyObject *r = real_meth[i](a, b, c, d, e, f);
  p.in_call = false;
  sim::end_op();
  if (gil != cl->id || _PyThreadState_UncheckedGet() != p.ts) sim::fatal("gilstate", "the call returned without holding the interpreter lock, op " + std::to_string(p.op));
  bool err = PyErr_Occurred() != nullptr;
  if (!r && !err) { violate("pynoexc", "op " + std::to_string(p.op) + ": the call returned nothing and raised no exception"); PyErr_SetString(PyExc_RuntimeError, "nothing"); }
  if (r && err) { violate("pynoexc", "op " + std::to_string(p.op) + ": the call returned a result while an exception was pending"); Py_DECREF(r); r = nullptr; }
  if (r && (r->ob_refcnt <= 0)) violate("pyref", "op " + std::to_string(p.op) + ": the returned object has no references");
  return r;
}
#define TR(i) static PyObject *tr##i(void *a, void *b, void *c, void *d, void *e, void *f) { return enter(i, a, b, c, d, e, f); }
TR(0) TR(1) TR(2) TR(3) TR(4) TR(5) TR(6) TR(7)
static Meth trs[8] = {tr0, tr1, tr2, tr3, tr4, tr5, tr6, tr7};
static PyMethodDef wrapped[9];
static void wrap_methods(PyModuleDef *d) {
  if (!d->m_methods || d->m_methods == wrapped) return;
  nmeth = 0; memset(wrapped, 0, sizeof wrapped);
  for (PyMethodDef *m = d->m_methods; m->ml_name && nmeth < 8; m++) { wrapped[nmeth] = *m; real_meth[nmeth] = (Meth)m->ml_meth; wrapped[nmeth].ml_meth = (PyCFunction)trs[nmeth]; nmeth++; }
  d->m_methods = wrapped;
}
extern "C" PyObject *simpy_PyModule_Create2(PyModuleDef *d, int v) { wrap_methods(d); return PyModule_Create2(d, v); }
extern "C" PyObject *simpy_PyModuleDef_Init(PyModuleDef *d) { wrap_methods(d); return PyModuleDef_Init(d); }

// ------------------------------------------------------------------ scenario
struct Op { int id, client; std::vector<std::string> w; };
struct Scenario { std::vector<Problem> probs; EnvCfg env; ClockCfg clk; OutCfg out; bool valid = true, cold = false, balance = true, npgil = false; int nclients = 1; SchedMode mode = SCHED_RUN; u64 sseed = 1; double gap = 1000; std::vector<Switch> plan; std::vector<Op> ops; std::map<int, std::pair<int, u64>> slots; struct F { int op; i64 r, len; bool py; }; std::vector<F> faults; std::string text; };
static Scenario S;
static void parse(const std::string &t) {
  Scenario &s = S; s.text = t; std::istringstream in(t); std::string line; std::map<int, Problem> pm;
  while (std::getline(in, line)) {
    auto w = split(line); if (w.empty() || w[0][0] == '#') continue;
    auto I = [&](size_t i) -> i64 { return i < w.size() ? strtoll(w[i].c_str(), 0, 10) : 0; };
    auto U = [&](size_t i) -> u64 { return i < w.size() ? strtoull(w[i].c_str(), 0, 10) : 0; };
    if (w[0] == "prob") pm[(int)I(1)] = make_problem(w[2], (int)I(3), (int)I(4), (int)I(5), U(6), (int)I(7), U(8));
    else if (w[0] == "env") { s.env.fill = U(1); s.env.mode = (int)I(2); s.env.gap = U(3); s.env.reuse = (int)I(4); s.env.stack = U(5); s.env.misc = U(6); }
    else if (w[0] == "clock") { s.clk.tick = U(1); s.clk.base = U(2); s.clk.readjump = (int)I(3); s.clk.stallgap = U(4); s.clk.maxexp = (int)I(5); s.clk.seed = U(6); }
    else if (w[0] == "out") { s.out.mode = (int)I(1); s.out.seed = U(2); }
    else if (w[0] == "cold") s.cold = I(1);
    else if (w[0] == "npgil") s.npgil = I(1);
    else if (w[0] == "nobalance") s.balance = !I(1);
    else if (w[0] == "clients") s.nclients = (int)std::min<i64>(MAXC, std::max<i64>(1, I(1)));
    else if (w[0] == "sched") { s.mode = SCHED_SEED; s.sseed = U(2); s.gap = (double)U(3); }
    else if (w[0] == "sw") { s.mode = SCHED_EXPLICIT; s.plan.push_back({(int)I(1), U(2), (int)I(3)}); }
    else if (w[0] == "slot") s.slots[(int)I(1)] = {(int)I(2), U(3)};
    else if (w[0] == "fault") s.faults.push_back({(int)I(2), I(3), std::max<i64>(1, I(4)), w[1] == "py"});
    else if (w[0] == "op") { Op o; o.id = (int)I(1); o.client = (int)I(2); o.w.assign(w.begin() + 4, w.end()); s.ops.push_back(o); }
  }
  int mx = pm.empty() ? 0 : pm.rbegin()->first;
  s.probs.resize(mx + 1); for (auto &p : pm) s.probs[p.first] = p.second;
  for (auto &x : s.slots) if (!pm.count(x.second.first)) s.valid = false;
  for (auto &o : s.ops) { if (o.client < 0 || o.client >= s.nclients) o.client = 0; if (o.w.empty()) s.valid = false; else if ((o.w[0] == "call" || o.w[0] == "mut" || o.w[0] == "drop" || o.w[0] == "bad") && (o.w.size() < 3 || !s.slots.count(atoi(o.w[1].c_str())))) s.valid = false; }
}

// ------------------------------------------------------------------ services for the driver (module _sim)
static PyObject *dlist(const std::vector<double> &v) { return PyBytes_FromStringAndSize((const char *)v.data(), v.size() * 8); }
static PyObject *m_problem(PyObject *, PyObject *a) {
  int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr;
  Problem &q = S.probs[i];
  return Py_BuildValue("(iiiNNNNNN)", q.n, q.m, q.p, dlist(row_major(q.n, q.n, q.P)), dlist(row_major(q.m, q.n, q.G)), dlist(row_major(q.p, q.n, q.A)), dlist(q.c), dlist(q.h), dlist(q.b));
}
static PyObject *m_violate(PyObject *, PyObject *a) { const char *c, *t; if (!PyArg_ParseTuple(a, "ss", &c, &t)) return nullptr; violate(c, t); sim::hash(0xbad); Py_RETURN_NONE; }
static PyObject *m_count(PyObject *, PyObject *a) { const char *c; int n = 1; if (!PyArg_ParseTuple(a, "s|i", &c, &n)) return nullptr; count(c, n); Py_RETURN_NONE; }
static PyObject *m_hash(PyObject *, PyObject *a) { Py_buffer b; if (!PyArg_ParseTuple(a, "y*", &b)) return nullptr; sim::hash_bytes(b.buf, b.len); PyBuffer_Release(&b); Py_RETURN_NONE; }
// arm(op, py_nth, py_len, lib_nth, lib_len): the next call of the extension is operation op
static PyObject *m_arm(PyObject *, PyObject *a) {
  int op; long long x, xl, y, yl; if (!PyArg_ParseTuple(a, "iLLLL", &op, &x, &xl, &y, &yl)) return nullptr;
  if (cur) { PCl &p = pc[cur->id]; p.op = op; p.nth = x; p.len = xl; p.allocs = p.fired = p.pauses = 0; p.npfree = false; p.api = 0; p.by_api.clear(); p.failed_in.clear(); cur->fault_nth = y; cur->fault_len = yl; cur->op_allocs = cur->op_fired = 0; cur->out = OutRec(); if (S.env.stack) sim::scribble_stack(mix(S.env.stack, op)); }
  Py_RETURN_NONE;
}
// after a call: (interpreter allocations, failed, library allocations, failed, steps, steps without the lock, elapsed, text, writes)
static PyObject *m_done(PyObject *, PyObject *) {
  if (!cur) Py_RETURN_NONE;
  Client *c = cur; PCl &p = pc[c->id]; p.nth = -1; c->fault_nth = -1;
  return Py_BuildValue("(KKKKKKKyKK)", p.allocs, p.fired, c->op_allocs, c->op_fired, c->local - c->op_local0, p.rel_steps, sim::now_ns - c->op_t0, c->out.text.c_str(), c->out.calls, p.pauses);
}
static PyObject *m_net(PyObject *, PyObject *) { if (!cur) return PyLong_FromLong(0); PCl &p = pc[cur->id]; i64 host = 0; for (u32 k : p.failed_in) if (p.by_api[k] > 0) host += p.by_api[k]; if (p.fired) host += p.net0; return PyLong_FromLongLong(p.net - host + (i64)sim::live_of_owner(p.op)); }
static PyObject *m_mark(PyObject *, PyObject *) { if (cur) pc[cur->id].net = pc[cur->id].net0 = 0; Py_RETURN_NONE; }
static PyObject *m_owned(PyObject *, PyObject *) { return PyLong_FromLong(cur ? (long)sim::live_of_owner(pc[cur->id].op) : 0); }
// core(n, m, p, P, G, A, c, h, b, maxit, abstol, reltol, sigma): the core solver on the same data
static PyObject *m_core(PyObject *, PyObject *a) {
  long n, m, p; Py_buffer B[6]; long maxit; double at, rt, sg; long long fn = -1, fl = 0;
  if (!PyArg_ParseTuple(a, "llly*y*y*y*y*y*lddd|LL", &n, &m, &p, &B[0], &B[1], &B[2], &B[3], &B[4], &B[5], &maxit, &at, &rt, &sg, &fn, &fl)) return nullptr;
  std::vector<double> v[6]; for (int i = 0; i < 6; i++) { v[i].assign((double *)B[i].buf, (double *)B[i].buf + B[i].len / 8); v[i].reserve(1); PyBuffer_Release(&B[i]); }
  sim::reset_memory(); sim::restore_globals(); sim::reset_sync(); sim::begin_phase(EnvCfg(), ClockCfg(), OutCfg(), SCHED_RUN, 1, 1000, {});
  double N = n + m + p + 4; sim::step_cap = sim::st.steps + (u64)(4e7 + 4000 * N * N * N);
  long rc = -9, iter = 0; std::vector<double> x, y, z, s; double st[6] = {0, 0, 0, 0, 0, 0}; u64 s0 = 0, s1 = 0, s2 = 0; bool rec = sim::recording; sim::recording = false;
  sim::run_clients({[&](int) {
    auto put = [](std::vector<double> &q) { double *d = (double *)sim::input_alloc(q.size() * 8); memcpy(d, q.data(), q.size() * 8); return d; };
    double *P = put(v[0]), *G = put(v[1]), *A = p ? put(v[2]) : nullptr, *c = put(v[3]), *h = put(v[4]), *b = p ? put(v[5]) : nullptr;
    sim::begin_op(1); cur->fault_nth = fn; cur->fault_len = fl;
    s0 = cur->local;
    QP *q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, nullptr, ROW_MAJOR_ORDERING);
    s1 = cur->local;
    if (!q) { sim::end_op(); return; }
    q->options->maxit = maxit; q->options->abstol = at; q->options->reltol = rt; q->options->sigma = sg; q->options->verbose = 0;
    rc = QP_SOLVE(q); s2 = cur->local; iter = q->stats->IterationCount;
    x.assign(q->x, q->x + n); if (p) y.assign(q->y, q->y + p); z.assign(q->z, q->z + m); s.assign(q->s, q->s + m);
    double t[6] = {q->stats->fval, q->stats->tsetup, q->stats->tsolve, q->stats->kkt_time, q->stats->ldl_numeric, 0}; memcpy(st, t, sizeof t);
    QP_CLEANUP_dense(q);
    sim::end_op();
  }});
  sim::recording = rec;
  return Py_BuildValue("(llNNNNdddddKK)", rc, iter, dlist(x), dlist(y), dlist(z), dlist(s), st[0], st[1], st[2], st[3], st[4], s1 - s0, s2 - s1);
}
// Python code that the host runs during a call (a warning hook, the comparison of a dictionary key): others may run meanwhile
static PyObject *m_pause(PyObject *, PyObject *) {
  if (!cur || !pc[cur->id].in_call || gil != cur->id) Py_RETURN_NONE;
  PCl &p = pc[cur->id]; PyThreadState *t = rsave(); gil_drop(); boundary(0.8); gil_take(cur->id); rrestore(t); p.pauses++; count("python_code_run_in_a_call");
  Py_RETURN_NONE;
}
static PyMethodDef meths[] = {{"pause", m_pause, METH_NOARGS, 0}, {"problem", m_problem, METH_VARARGS, 0}, {"violate", m_violate, METH_VARARGS, 0}, {"count", m_count, METH_VARARGS, 0}, {"hash", m_hash, METH_VARARGS, 0}, {"arm", m_arm, METH_VARARGS, 0}, {"done", m_done, METH_NOARGS, 0}, {"net", m_net, METH_NOARGS, 0}, {"mark", m_mark, METH_NOARGS, 0}, {"owned", m_owned, METH_NOARGS, 0}, {"core", m_core, METH_VARARGS, 0}, {0, 0, 0, 0}};
static PyModuleDef simdef = {PyModuleDef_HEAD_INIT, "_sim", 0, -1, meths};
static PyObject *init_sim(void) { return PyModule_Create2(&simdef, PYTHON_API_VERSION); }

// ------------------------------------------------------------------ the interpreter
static PyObject *driver = nullptr;
static void die(const char *w) { if (PyErr_Occurred()) PyErr_Print(); fprintf(stderr, "pysim: %s\n", w); _exit(98); }
void engine_init() {
  for (auto r : {std::pair<u64, u64>{PH, PH_SZ}, {PS, PH_SZ >> 4}, {PD, PD_SZ}}) if (mmap((void *)r.first, r.second, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)r.first) die("cannot map the interpreter heap");
  setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
  PyMemAllocatorEx al = {nullptr, ph_malloc, ph_calloc, ph_realloc, ph_free};
  PyMem_SetAllocator(PYMEM_DOMAIN_RAW, &al); PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &al); PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &al);
  PyImport_AppendInittab("_sim", init_sim); PyImport_AppendInittab("qpSWIFT", PyInit_qpSWIFT);
  PyConfig c; PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed = 1; c.hash_seed = 0; c.install_signal_handlers = 0; c.write_bytecode = 0; c.site_import = 1;
  PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&c);
  if (PyStatus_Exception(st)) die("the interpreter did not start");
  PyConfig_Clear(&c);
  handler_cap = PyCapsule_New(&handler, "mem_handler", nullptr);
  PyObject *np = PyImport_ImportModule("numpy.core._multiarray_umath"); if (!np) die("numpy is missing");
  PyObject *cap = PyObject_GetAttrString(np, "_ARRAY_API"); void **api = (void **)PyCapsule_GetPointer(cap, nullptr); if (!api) die("numpy has no API table");
  set_handler = (PyObject * (*)(PyObject *)) api[SET_HANDLER_INDEX];
  std::string path = std::string(PYDRIVER); FILE *f = fopen(path.c_str(), "r"); if (!f) die("the driver is missing");
  driver = PyDict_New(); PyDict_SetItemString(driver, "__builtins__", PyEval_GetBuiltins());
  PyObject *r = PyRun_FileEx(f, path.c_str(), Py_file_input, driver, driver, 1); if (!r) die("the driver failed");
  Py_DECREF(r);
  sim::snapshot_globals();
  sim::foreign_cb = foreign; sim::foreign_lo = PH; sim::foreign_hi = PD + PD_SZ;
}
static void drive(const char *fn, PyObject *args) {
  PyObject *f = PyDict_GetItemString(driver, fn); PyObject *r = f ? PyObject_CallObject(f, args) : nullptr; Py_XDECREF(args);
  if (!r) { PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyObject *s = v ? PyObject_Str(v) : nullptr; std::string m = s ? PyUnicode_AsUTF8(s) : "?"; 
    if (getenv("PYSIM_DEBUG")) { PyErr_Restore(t, v, b); PyErr_Print(); }
    sim::fatal("driver", std::string("the driver failed in ") + fn + ": " + m); }
  Py_DECREF(r);
}
static PyObject *scen_dict() {
  PyObject *ops = PyList_New(0), *slots = PyDict_New(), *faults = PyDict_New();
  for (auto &o : S.ops) { PyObject *w = PyList_New(0); for (auto &x : o.w) { PyObject *u = PyUnicode_FromString(x.c_str()); PyList_Append(w, u); Py_DECREF(u); } PyObject *e = Py_BuildValue("(iiN)", o.id, o.client, w); PyList_Append(ops, e); Py_DECREF(e); }
  for (auto &s : S.slots) { PyObject *k = PyLong_FromLong(s.first), *v = Py_BuildValue("(iK)", s.second.first, s.second.second); PyDict_SetItem(slots, k, v); Py_DECREF(k); Py_DECREF(v); }
  for (auto &f : S.faults) { PyObject *k = Py_BuildValue("(is)", f.op, f.py ? "py" : "alloc"), *v = Py_BuildValue("(LL)", (long long)f.r, (long long)f.len); PyDict_SetItem(faults, k, v); Py_DECREF(k); Py_DECREF(v); }
  bool calm = S.clk.readjump == 0 && S.clk.stallgap == 0;
  return Py_BuildValue("{s:i,s:N,s:N,s:N,s:i,s:i,s:i,s:i,s:i,s:i}", "calmout", S.out.mode == 0 ? 1 : 0, "ops", ops, "slots", slots, "faults", faults, "clients", S.nclients, "cold", S.cold ? 1 : 0, "calm", calm ? 1 : 0, "tick", (int)S.clk.tick, "balance", (int)S.balance, "npgil", (int)S.npgil);
}
void run_scenario(const std::string &text) {
  parse(text);
  if (!S.valid) { violate("invalid", "the scenario refers to something it does not define"); return; }
  if (!getenv("PYSIM_DEBUG")) { int z = open("/dev/null", O_WRONLY); if (z >= 0) { dup2(z, 2); close(z); } }   // the interpreter reports failed allocations it cannot raise there
  PyOS_AfterFork_Child(); np_gil = S.npgil;
  { PyObject *r = set_handler(handler_cap); Py_XDECREF(r); }
  sim::reset_memory(); sim::reset_sync();
  double al = 5e7; for (auto &o : S.ops) if (o.w[0] == "call" || o.w[0] == "bad") { Problem &q = S.probs[S.slots[atoi(o.w[1].c_str())].first]; double N = q.n + q.m + q.p + 4; al += 8e6 + 16000 * N * N * N; }
  u64 cap = sim::st.steps + (u64)al;
  drive("prepare", Py_BuildValue("(N)", scen_dict()));
  PyInterpreterState *in = PyInterpreterState_Get();
  if (!S.cold) {       // every call once, alone, to learn how much it allocates
    sim::begin_phase(EnvCfg(), ClockCfg(), OutCfg(), SCHED_RUN, 1, 1000, {}); sim::step_cap = cap;
    PyThreadState *ts = rsave(); gil = -1; memset(&gilvc, 0, sizeof gilvc);
    sim::run_clients({[&](int id) {
      gil_take(id); pc[id] = PCl(); PyThreadState *t = PyThreadState_New(in); pc[id].ts = t; rrestore(t); { PyObject *r = set_handler(handler_cap); Py_XDECREF(r); }
      for (auto &o : S.ops) drive("rehearse", Py_BuildValue("(i)", o.id));
      PyThreadState_Clear(t); PyThreadState_DeleteCurrent(); gil_drop();
    }});
    gil = -2; rrestore(ts);
    sim::reset_sync();
  }
  sim::begin_phase(S.env, S.clk, S.out, S.nclients > 1 || S.mode == SCHED_EXPLICIT ? S.mode : SCHED_RUN, S.sseed, S.gap, S.plan);
  sim::step_cap = sim::st.steps + (u64)al;
  sim::recording = true;
  PyThreadState *ts = rsave(); gil = -1; memset(&gilvc, 0, sizeof gilvc);
  std::vector<std::function<void(int)>> bodies;
  for (int c = 0; c < S.nclients; c++) bodies.push_back([&](int id) {
    gil_take(id); pc[id] = PCl(); PyThreadState *t = PyThreadState_New(in); pc[id].ts = t; rrestore(t); { PyObject *r = set_handler(handler_cap); Py_XDECREF(r); }
    for (auto &o : S.ops) if (o.client == id) {
      bool solving = false; for (int k = 0; k < S.nclients; k++) if (k != id && pc[k].in_call) solving = true;
      drive("do_op", Py_BuildValue("(i)", o.id));
      if (solving) count("ops_finished_during_a_call_of_another_thread");
      if (rsave() != t) sim::fatal("gilstate", "the thread state was replaced");
      gil_drop(); boundary(0.5); gil_take(id); rrestore(t);
    }
    PyThreadState_Clear(t); PyThreadState_DeleteCurrent(); gil_drop();
  });
  sim::run_clients(bodies);
  gil = -2; rrestore(ts);
  sim::recording = false;
  u64 fi = 0; for (auto &p : pc) fi += p.falls; (void)fi;
  drive("finish", nullptr);
}

// ------------------------------------------------------------------ scenarios
std::string gen_scenario(const std::string &prof, u64 seed) {
  u64 ph = 0; for (char ch : prof) ph = mix(ph, (u64)ch);
  Rng r(mix(mix(seed, 0x9a7), ph)); std::ostringstream o; o << "profile " << prof << "\n";
  auto P = [&](const char *p) { return prof == p; };
  int np = r.range(1, 2), n0 = 0, m0 = 0, p0 = 0; u64 ps0 = 0; std::string k0; std::vector<int> pp;
  bool big = r.chance(P("c14") ? 0.1 : 0.03);
  bool npg = P("c15") && r.chance(0.03);
  if (npg) { o << "npgil 1\n"; np = 1; big = true; }
  for (int i = 0; i < np; i++) {
    int n = r.range(1, 6), m = r.range(1, 8), p = r.chance(0.5) ? 0 : r.range(1, 3);
    if (big && !i) { n = r.range(8, 24); m = r.range(10, 40); p = r.range(0, 5); if (npg) { n = r.range(22, 26); m = r.range(20, 30); } }
    std::string k = big || r.chance(0.6) ? (r.chance(0.6) ? "strict" : "box") : problem_kinds[r.below(problem_kinds.size())];
    u64 ps = r.below(1ull << 40), var = 0;
    if (i && r.chance(0.5)) { n = n0; m = m0; p = p0; if (r.chance(0.6)) { k = k0; ps = ps0; var = 1 + r.below(1000); if (r.chance(0.6)) var |= problem_reordered; } }
    n0 = n; m0 = m; p0 = p; k0 = k; ps0 = ps; pp.push_back(p);
    o << "prob " << i << " " << k << " " << n << " " << m << " " << p << " " << ps << " 0 " << var << "\n";
  }
  if (r.chance(0.7)) o << "env " << 1 + r.below(1u << 30) << " " << r.range(0, 4) << " " << (r.chance(0.5) ? 0 : 16 << r.range(0, 8)) << " " << (r.chance(0.3) ? 0 : r.range(10, 100)) << " " << (r.chance(0.2) ? 0 : 1 + r.below(1u << 30)) << " " << r.below(1u << 30) << "\n";
  if (r.chance(0.6)) o << "clock " << r.range(1, 4) << " " << (r.chance(0.5) ? r.below(1ull << 50) : (r.below(100000) * 1000000000ull + 999990000ull + r.below(10000))) << " 0 0 30 1\n";
  else o << "clock " << r.range(1, 4) << " " << r.below(1ull << 50) << " " << r.range(1, 400) << " " << ((u64)1 << r.range(6, 18)) << " " << r.range(8, mix(seed, 78) % 8 ? 34 : 44) << " " << r.below(1u << 30) << "\n";
  if (r.chance(0.1)) o << "out " << r.range(1, 3) << " " << r.below(1u << 30) << "\n";
  int nc = P("c15") || P("c16") || P("c19") ? (r.chance(P("c19") ? 0.5 : 0.75) ? 1 : r.range(2, 3)) : r.range(2, 4);
  if (npg) nc = 2;
  if (P("c16") ? r.chance(0.3) : r.chance(0.1)) o << "cold 1\n";
  if (big || ((P("c13") || P("c14") || P("c19")) && r.chance(0.85))) o << "nobalance 1\n";
  o << "clients " << nc << "\n";
  if (nc > 1) { static const int gaps[] = {5, 50, 300, 1500, 8000, 40000, 200000}; o << "sched seed " << r.below(1u << 30) << " " << gaps[r.below(7)] << "\n"; }
  int ns = r.range(1, 3);
  for (int i = 0; i < ns; i++) o << "slot " << i << " " << r.below(np) << " " << (r.chance(0.4) ? 0 : 1 + r.below(1u << 30)) << "\n";
  int nop = nc == 1 ? r.range(1, 5) : r.range(nc, big ? nc + 2 : nc * 4); std::ostringstream f;
  for (int i = 0; i < nop; i++) {
    int c = i < nc ? i : (int)r.below(nc), sl = (int)r.below(ns);
    double x = r.uni(); double pcall = P("c15") ? 0.5 : P("c19") ? 0.4 : P("c16") ? 0.75 : 0.55;
    if (i == 0) x = 0;
    if (npg && i) x = r.chance(0.3) ? 0 : 2;
    if (x < pcall) {
      int ol = r.chance(0.6) ? 2 : r.chance(0.5) ? 1 : r.range(-2, 3);
      o << "op " << i << " " << c << " 0 call " << sl << " " << (r.chance(0.4) ? 0 : 1 + r.below(1u << 20)) << " " << ol << "\n";
      double pf = P("c16") ? 0.85 : P("c15") ? 0.3 : 0.05;
      if (r.chance(pf)) { bool py = r.chance(0.6); f << "fault " << (py ? "py" : "alloc") << " " << i << " " << r.below(1u << 20) << " " << (r.chance(0.75) ? 1 : r.chance(0.5) ? r.range(2, 4) : 100000) << "\n"; }
    } else if (x < pcall + (P("c15") ? 0.3 : P("c19") ? 0.45 : 0.1)) {
      o << "op " << i << " " << c << " 0 bad " << sl << " " << r.below(BADKINDS) << " " << r.below(1u << 20) << "\n";
      if ((P("c15") || P("c19")) && r.chance(0.2)) f << "fault py " << i << " " << r.below(1u << 20) << " 1\n";
    } else if (npg || r.chance(0.7)) o << "op " << i << " " << c << " 0 mut " << sl << " " << r.below(MUTKINDS) << " " << r.below(1u << 20) << "\n";
    else if (r.chance(0.4)) o << "op " << i << " " << c << " 0 drop " << sl << " 0\n";
    else if (r.chance(0.5)) o << "op " << i << " " << c << " 0 gc 0\n";
    else o << "op " << i << " " << c << " 0 work " << r.range(1, 200) << "\n";
  }
  o << f.str();
  return o.str();
}
int main(int argc, char **argv) { return harness_main(argc, argv); }
