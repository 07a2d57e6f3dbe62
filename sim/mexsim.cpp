// Simulator of the MATLAB gateway: seeded sessions of calls on a simulated MATLAB host (arrays, host memory that is
// reclaimed when a call ends, error aborts, exhausted memory).
#include "harness.h"
#include "problem.h"
#include <setjmp.h>
#include <stdarg.h>
#include <cmath>
#include <sstream>
#include <algorithm>
#include <memory>
extern "C" {
#include "mex.h"
#include "qpSWIFT.h"
}
u64 wrap_time[MAXC][4], wrap_calls[MAXC][4];
extern "C" int wrap_adapter __attribute__((weak));
using sim::violate;

// ---------------------------------------------------------------- host arrays
struct mxArray_tag {
  mxClassID cls = mxDOUBLE_CLASS; bool sparse = false, complex_ = false, input = false, persistent = false, dead = false;
  mwSize dims[2] = {0, 0}; void *pr = nullptr; double *pi = nullptr; mwIndex *ir = nullptr, *jc = nullptr; size_t nzmax = 0;
  std::vector<std::string> names; std::vector<mxArray *> fields; std::string text;
};
static std::vector<mxArray *> all_arrays;                 // everything ever created in this phase
static std::set<u64> mxblocks, persistent_blocks;         // blocks that belong to the host's allocator
static std::vector<mxArray *> call_arrays;                // created during the current call
static std::vector<void (*)(void)> atexit_fns;
static bool in_mx = false, in_call = false;
static jmp_buf abort_jmp; static std::string abort_msg; static std::string session_text; static u64 warnings = 0;
enum { OWN_SESSION = 1 };

static void host_abort(const std::string &m) { abort_msg = m; if (!in_call) sim::fatal("abort", "error raised outside a call: " + m); _longjmp(abort_jmp, 1); }
static void use(const mxArray *a, const char *f) {
  if (!a) sim::fatal("crash", std::string(f) + " called with NULL");
  if (a->dead) sim::fatal("uaf", std::string(f) + " called with a destroyed array");
}
static void *mx_raw(size_t n) { in_mx = true; void *p = sim_malloc(n); in_mx = false; mxblocks.insert((u64)p); return p; }
static void mx_release(void *p, const char *w) {
  if (!p) return;
  if (!mxblocks.count((u64)p)) { bool live = false; for (auto &b : sim::live_blocks(-99)) if (b.base == (u64)p) live = true; violate("badfree", std::string(w) + (live ? " of memory that the host did not allocate" : " of a pointer that is not an allocated host block")); return; }
  mxblocks.erase((u64)p); persistent_blocks.erase((u64)p); sim_free(p);
}
static size_t width(mxClassID c) {
  switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
    case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; }
}
static mxArray *mk(mwSize m, mwSize n, mxClassID c) {
  auto *a = new mxArray; a->cls = c; a->dims[0] = m; a->dims[1] = n;
  all_arrays.push_back(a); call_arrays.push_back(a);
  if (c != mxSTRUCT_CLASS) { size_t sz = m * n * width(c); a->pr = mx_raw(sz); memset(a->pr, 0, sz); }
  return a;
}
static void destroy(mxArray *a, const char *w) {
  if (!a) return;
  use(a, w);
  if (a->input) { violate("inputwrite", "the gateway destroyed an argument of the caller"); return; }
  for (auto *f : a->fields) if (f && !f->input) destroy(f, w);
  if (a->pr) mx_release(a->pr, w);
  a->pr = nullptr; a->dead = true;
  call_arrays.erase(std::remove(call_arrays.begin(), call_arrays.end(), a), call_arrays.end());
}
static double scalar(const mxArray *a) {
  switch (a->cls) {
    case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *(u8 *)a->pr; case mxINT8_CLASS: return *(signed char *)a->pr; case mxCHAR_CLASS: case mxUINT16_CLASS: return *(unsigned short *)a->pr;
    case mxINT16_CLASS: return *(short *)a->pr; case mxSINGLE_CLASS: return *(float *)a->pr; case mxINT32_CLASS: return *(int *)a->pr; case mxUINT32_CLASS: return *(unsigned *)a->pr;
    case mxINT64_CLASS: return (double)*(i64 *)a->pr; case mxUINT64_CLASS: return (double)*(u64 *)a->pr; default: return *(double *)a->pr; }
}
extern "C" {
void *mxMalloc(size_t n) { return mx_raw(n); }
void *mxCalloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) host_abort("Out of memory."); void *p = mx_raw(n); memset(p, 0, n); return p; }
void *mxRealloc(void *p, size_t n) {
  if (!p) return mx_raw(n);
  if (!mxblocks.count((u64)p)) { violate("badfree", "reallocation of a pointer that is not an allocated host block"); return mx_raw(n); }
  void *q = mx_raw(n); memcpy(q, p, std::min(n, sim::block_size(p))); bool ps = persistent_blocks.count((u64)p); mx_release(p, "mxRealloc"); if (ps) persistent_blocks.insert((u64)q); return q; }
void mxFree(void *p) { mx_release(p, "mxFree"); }
const mwSize *mxGetDimensions(const mxArray *a) { use(a, "mxGetDimensions"); return a->dims; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { use(a, "mxGetNumberOfDimensions"); return 2; }
size_t mxGetM(const mxArray *a) { use(a, "mxGetM"); return a->dims[0]; }
size_t mxGetN(const mxArray *a) { use(a, "mxGetN"); return a->dims[1]; }
size_t mxGetNumberOfElements(const mxArray *a) { use(a, "mxGetNumberOfElements"); return a->dims[0] * a->dims[1]; }
size_t mxGetElementSize(const mxArray *a) { use(a, "mxGetElementSize"); return width(a->cls); }
bool mxIsDouble(const mxArray *a) { use(a, "mxIsDouble"); return a->cls == mxDOUBLE_CLASS; }
bool mxIsSparse(const mxArray *a) { use(a, "mxIsSparse"); return a->sparse; }
bool mxIsComplex(const mxArray *a) { use(a, "mxIsComplex"); return a->complex_; }
bool mxIsStruct(const mxArray *a) { use(a, "mxIsStruct"); return a->cls == mxSTRUCT_CLASS; }
bool mxIsEmpty(const mxArray *a) { use(a, "mxIsEmpty"); return a->dims[0] * a->dims[1] == 0; }
bool mxIsNumeric(const mxArray *a) { use(a, "mxIsNumeric"); return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsChar(const mxArray *a) { use(a, "mxIsChar"); return a->cls == mxCHAR_CLASS; }
bool mxIsLogical(const mxArray *a) { use(a, "mxIsLogical"); return a->cls == mxLOGICAL_CLASS; }
bool mxIsCell(const mxArray *a) { use(a, "mxIsCell"); return a->cls == mxCELL_CLASS; }
bool mxIsSingle(const mxArray *a) { use(a, "mxIsSingle"); return a->cls == mxSINGLE_CLASS; }
mxClassID mxGetClassID(const mxArray *a) { use(a, "mxGetClassID"); return a->cls; }
const char *mxGetClassName(const mxArray *a) { use(a, "mxGetClassName"); switch (a->cls) { case mxDOUBLE_CLASS: return "double"; case mxSTRUCT_CLASS: return "struct"; case mxLOGICAL_CLASS: return "logical"; case mxCHAR_CLASS: return "char"; case mxCELL_CLASS: return "cell"; case mxSINGLE_CLASS: return "single"; case mxINT8_CLASS: return "int8"; case mxUINT8_CLASS: return "uint8"; case mxINT16_CLASS: return "int16"; case mxUINT16_CLASS: return "uint16"; case mxINT32_CLASS: return "int32"; case mxUINT32_CLASS: return "uint32"; case mxINT64_CLASS: return "int64"; case mxUINT64_CLASS: return "uint64"; default: return "unknown"; } }
bool mxIsClass(const mxArray *a, const char *c) { return !strcmp(mxGetClassName(a), c); }
double *mxGetPr(const mxArray *a) { use(a, "mxGetPr"); if (a->cls == mxSTRUCT_CLASS || a->cls == mxCELL_CLASS) return nullptr; return (double *)a->pr; }
double *mxGetPi(const mxArray *a) { use(a, "mxGetPi"); return a->pi; }
double *mxGetDoubles(const mxArray *a) { return mxGetPr(a); }
void *mxGetData(const mxArray *a) { return mxGetPr(a); }
double mxGetScalar(const mxArray *a) { use(a, "mxGetScalar"); if (!a->pr || !(a->dims[0] * a->dims[1])) sim::fatal("crash", "mxGetScalar of an empty array"); return scalar(a); }
mwIndex *mxGetIr(const mxArray *a) { use(a, "mxGetIr"); return a->ir; }
mwIndex *mxGetJc(const mxArray *a) { use(a, "mxGetJc"); return a->jc; }
mwSize mxGetNzmax(const mxArray *a) { use(a, "mxGetNzmax"); return a->nzmax; }
int mxGetFieldNumber(const mxArray *a, const char *f) { use(a, "mxGetFieldNumber"); for (size_t i = 0; i < a->names.size(); i++) if (a->names[i] == f) return (int)i; return -1; }
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int k) { use(a, "mxGetFieldByNumber"); if (i || k < 0 || k >= (int)a->fields.size()) return nullptr; return a->fields[k]; }
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *f) { return mxGetFieldByNumber(a, i, mxGetFieldNumber(a, f)); }
int mxGetNumberOfFields(const mxArray *a) { use(a, "mxGetNumberOfFields"); return (int)a->fields.size(); }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int k, mxArray *v) {
  use(a, "mxSetFieldByNumber"); if (a->input) violate("inputwrite", "the gateway changed a field of an argument");
  if (i >= a->dims[0] * a->dims[1] || i || k < 0 || k >= (int)a->fields.size()) { violate("oob", "a structure field that does not exist was set"); return; }
  a->fields[k] = v; }
void mxSetField(mxArray *a, mwIndex i, const char *f, mxArray *v) { int k = mxGetFieldNumber(a, f); if (k >= 0) mxSetFieldByNumber(a, i, k, v); }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity) { return mk(m, n, c); }
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity) { mwSize cols = 1; for (mwSize k = 1; k < nd; k++) cols *= d[k]; return mk(nd > 0 ? d[0] : 0, cols, c); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return mk(m, n, mxDOUBLE_CLASS); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mk(1, 1, mxDOUBLE_CLASS); *(double *)a->pr = v; return a; }
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **f) {
  mx_release(mx_raw(64), "");                            // the host needs memory for the structure
  mwSize cols = 1; for (mwSize k = 1; k < nd; k++) cols *= d[k];
  mxArray *a = mk(d[0], cols, mxSTRUCT_CLASS); for (int i = 0; i < nf; i++) { a->names.push_back(f[i]); a->fields.push_back(nullptr); } return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **f) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, nf, f); }
mxArray *mxCreateString(const char *s) { mxArray *a = mk(1, strlen(s), mxCHAR_CLASS); a->text = s; return a; }
mxArray *mxDuplicateArray(const mxArray *o) {
  use(o, "mxDuplicateArray"); size_t n = o->dims[0] * o->dims[1];
  if (o->sparse) {
    auto *a = new mxArray(*o); a->input = false; all_arrays.push_back(a); call_arrays.push_back(a);
    a->pr = mx_raw(o->nzmax * 8); memcpy(a->pr, o->pr, o->nzmax * 8); return a; }
  mxArray *a = mk(o->dims[0], o->dims[1], o->cls); a->complex_ = o->complex_; a->names = o->names; a->fields.assign(o->fields.size(), nullptr);
  for (size_t i = 0; i < o->fields.size(); i++) if (o->fields[i]) a->fields[i] = mxDuplicateArray(o->fields[i]);
  if (o->pr && a->pr) memcpy(a->pr, o->pr, n * width(o->cls)); return a; }
void mxDestroyArray(mxArray *a) { destroy(a, "mxDestroyArray"); }
void mxSetPr(mxArray *a, double *p) { use(a, "mxSetPr"); if (a->input) violate("inputwrite", "the gateway replaced the data of an argument"); a->pr = p; }
bool mxIsScalar(const mxArray *a) { return mxGetNumberOfElements(a) == 1; }
bool mxIsLogicalScalar(const mxArray *a) { return mxIsLogical(a) && mxIsScalar(a); }
bool mxIsLogicalScalarTrue(const mxArray *a) { return mxIsLogicalScalar(a) && *(u8 *)a->pr; }
mxLogical *mxGetLogicals(const mxArray *a) { use(a, "mxGetLogicals"); return a->cls == mxLOGICAL_CLASS ? (mxLogical *)a->pr : nullptr; }
bool mxIsFunctionHandle(const mxArray *a) { use(a, "mxIsFunctionHandle"); return a->cls == mxFUNCTION_CLASS; }
#define IS(N, C) bool mxIs##N(const mxArray *a) { use(a, "mxIs" #N); return a->cls == C; }
IS(Int8, mxINT8_CLASS) IS(Uint8, mxUINT8_CLASS) IS(Int16, mxINT16_CLASS) IS(Uint16, mxUINT16_CLASS) IS(Int32, mxINT32_CLASS) IS(Uint32, mxUINT32_CLASS) IS(Int64, mxINT64_CLASS) IS(Uint64, mxUINT64_CLASS)
const char *mxGetFieldNameByNumber(const mxArray *a, int k) { use(a, "mxGetFieldNameByNumber"); return k < 0 || k >= (int)a->names.size() ? nullptr : a->names[k].c_str(); }
mxArray *mxCreateLogicalScalar(mxLogical v) { mxArray *a = mk(1, 1, mxLOGICAL_CLASS); *(u8 *)a->pr = v; return a; }
mxArray *mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity) { mxArray *a = mk(m, n, c); if (a->pr) memset(a->pr, 0xa5, m * n * width(c)); return a; }
static void own(const mxArray *a, const char *f) { use(a, f); if (a->input) violate("inputwrite", "the gateway replaced the data of an argument"); }
void mxSetData(mxArray *a, void *p) { mxSetPr(a, (double *)p); }
int mxSetDoubles(mxArray *a, double *p) { mxSetPr(a, p); return 1; }
void mxSetIr(mxArray *a, mwIndex *p) { own(a, "mxSetIr"); a->ir = p; }
void mxSetJc(mxArray *a, mwIndex *p) { own(a, "mxSetJc"); a->jc = p; }
void mxSetNzmax(mxArray *a, mwSize n) { own(a, "mxSetNzmax"); a->nzmax = n; }
mwIndex mxCalcSingleSubscript(const mxArray *a, mwSize n, const mwIndex *s) { use(a, "mxCalcSingleSubscript"); return s[0] + (n > 1 ? s[1] * a->dims[0] : 0); }
void mxSetM(mxArray *a, mwSize m) { use(a, "mxSetM"); if (a->input) violate("inputwrite", "the gateway changed the size of an argument"); a->dims[0] = m; }
void mxSetN(mxArray *a, mwSize n) { use(a, "mxSetN"); if (a->input) violate("inputwrite", "the gateway changed the size of an argument"); a->dims[1] = n; }
double mxGetNaN(void) { return NAN; } double mxGetInf(void) { return INFINITY; } double mxGetEps(void) { return 2.220446049250313e-16; }
bool mxIsNaN(double v) { return v != v; } bool mxIsInf(double v) { return std::isinf(v); } bool mxIsFinite(double v) { return std::isfinite(v); }
int mexPrintf(const char *f, ...) { va_list ap; va_start(ap, f); char b[8192]; int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); session_text += b; if (sim::recording) sim::st.outcalls++; sim::hash(mix(0x0a7, n)); return n; }
void mexErrMsgTxt(const char *m) { host_abort(m ? m : ""); abort(); }
void mexErrMsgIdAndTxt(const char *, const char *f, ...) { va_list ap; va_start(ap, f); char b[2048]; vsnprintf(b, sizeof b, f, ap); va_end(ap); host_abort(b); abort(); }
void mexWarnMsgTxt(const char *m) { session_text += std::string("Warning: ") + m + "\n"; warnings++; }
void mexWarnMsgIdAndTxt(const char *, const char *f, ...) { va_list ap; va_start(ap, f); char b[2048]; vsnprintf(b, sizeof b, f, ap); va_end(ap); mexWarnMsgTxt(b); }
void mexMakeMemoryPersistent(void *p) { if (mxblocks.count((u64)p)) persistent_blocks.insert((u64)p); }
void mexMakeArrayPersistent(mxArray *a) { use(a, "mexMakeArrayPersistent"); a->persistent = true; if (a->pr) persistent_blocks.insert((u64)a->pr); call_arrays.erase(std::remove(call_arrays.begin(), call_arrays.end(), a), call_arrays.end()); }
int mexAtExit(void (*f)(void)) { atexit_fns.assign(1, f); return 0; }
static int locks = 0;
void mexLock(void) { locks++; } void mexUnlock(void) { locks--; } bool mexIsLocked(void) { return locks > 0; }
const char *mexFunctionName(void) { return "qpSWIFT"; } int mexEvalString(const char *) { return 1; }
}

// ---------------------------------------------------------------- scenarios
struct Call { int id = 0, prob = 0, eq = 0, nlhs = 1, opts = 0, layout = 0, bad = 0; u64 seed = 0; };
struct FaultSpec { int op; i64 r, len; };
struct Scenario { std::vector<Problem> probs; EnvCfg env; ClockCfg clk; std::vector<Call> calls; std::vector<FaultSpec> faults; bool valid = true; };
static Scenario parse(const std::string &t) {
  Scenario s; std::istringstream in(t); std::string line; std::map<int, Problem> pm;
  while (std::getline(in, line)) {
    auto w = split(line); if (w.empty() || w[0][0] == '#') continue;
    auto I = [&](size_t i) -> i64 { return i < w.size() ? strtoll(w[i].c_str(), 0, 10) : 0; };
    auto U = [&](size_t i) -> u64 { return i < w.size() ? strtoull(w[i].c_str(), 0, 10) : 0; };
    if (w[0] == "prob") pm[(int)I(1)] = make_problem(w[2], (int)I(3), (int)I(4), (int)I(5), U(6), (int)I(7), U(8));
    else if (w[0] == "env") { s.env.fill = U(1); s.env.mode = (int)I(2); s.env.gap = U(3); s.env.reuse = (int)I(4); s.env.stack = U(5); s.env.misc = U(6); }
    else if (w[0] == "clock") { s.clk.tick = U(1); s.clk.base = U(2); s.clk.readjump = (int)I(3); s.clk.stallgap = U(4); s.clk.maxexp = (int)I(5); s.clk.seed = U(6); }
    else if (w[0] == "fault") s.faults.push_back({(int)I(2), I(3), std::max<i64>(1, I(4))});
    else if (w[0] == "op") { Call c; c.id = (int)I(1); c.prob = (int)I(5); c.eq = (int)I(6); c.nlhs = (int)I(7); c.opts = (int)I(8); c.layout = (int)I(9); c.bad = (int)I(10); c.seed = U(11); s.calls.push_back(c); }
  }
  int mx = pm.empty() ? 0 : pm.rbegin()->first; s.probs.resize(mx + 1);
  for (auto &p : pm) s.probs[p.first] = p.second;
  for (auto &c : s.calls) if (!pm.count(c.prob)) s.valid = false;
  return s;
}

struct Outcome {
  bool ran = false, error = false, valid = true, permut = false; std::string msg, text; std::vector<double> x; std::map<std::string, std::vector<double>> f; std::map<std::string, bool> has; std::string shape; u64 allocs = 0, fired = 0, outer = 0; double part[2] = {-1, -1};
  long maxit = -1; double abstol = -1, reltol = -1, sigma = -1; int verbose = 0; std::vector<long> perm; bool useA = false;
};
struct Kept { int call; mxArray *a; std::vector<double> copy; };

template <class T> static T *put(const std::vector<T> &v) { T *p = (T *)sim::input_alloc(v.size() * sizeof(T)); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
static mxArray *in_dense(size_t m, size_t n, const std::vector<double> &v) { auto *a = new mxArray; a->input = true; a->dims[0] = m; a->dims[1] = n; a->pr = v.empty() ? nullptr : put(v); all_arrays.push_back(a); return a; }
static mxArray *in_sparse(size_t m, size_t n, const std::vector<double> &d, const std::vector<u8> &z) {
  auto *a = new mxArray; a->input = true; a->sparse = true; a->dims[0] = m; a->dims[1] = n; Csc c = to_csc((int)m, (int)n, d, z);
  std::vector<mwIndex> ir(c.ir.begin(), c.ir.end()), jc(c.jc.begin(), c.jc.end());
  // a host array usually has room for more elements than are stored
  a->nzmax = c.pr.size(); a->pr = put(c.pr); a->ir = put(ir); a->jc = put(jc); all_arrays.push_back(a); return a; }

// a scalar of one of the host's numeric classes; v becomes the value that class can hold
static mxArray *in_typed(mxClassID c, double &v) {
  auto *a = new mxArray; a->input = true; a->cls = c; a->dims[0] = a->dims[1] = 1; all_arrays.push_back(a);
  if (c == mxSTRUCT_CLASS || c == mxCELL_CLASS) { a->names.push_back("v"); a->fields.push_back(nullptr); return a; }
  a->pr = sim::input_alloc(width(c));
  switch (c) {
    case mxLOGICAL_CLASS: *(u8 *)a->pr = v != 0; v = v != 0; break; case mxUINT8_CLASS: *(u8 *)a->pr = (u8)v; break; case mxINT8_CLASS: *(signed char *)a->pr = (signed char)v; break;
    case mxCHAR_CLASS: *(unsigned short *)a->pr = '0' + (unsigned)v % 10; break; case mxUINT16_CLASS: *(unsigned short *)a->pr = (unsigned short)v; break; case mxINT16_CLASS: *(short *)a->pr = (short)v; break;
    case mxSINGLE_CLASS: *(float *)a->pr = (float)v; v = (float)v; break; case mxINT32_CLASS: *(int *)a->pr = (int)v; break; case mxUINT32_CLASS: *(unsigned *)a->pr = (unsigned)v; break;
    case mxINT64_CLASS: *(i64 *)a->pr = (i64)v; break; case mxUINT64_CLASS: *(u64 *)a->pr = (u64)v; break; default: *(double *)a->pr = v; }
  return a;
}
static std::map<u64, mxArray *> argcache;      // the same workspace variable passed again
struct Args { std::vector<const mxArray *> v; };
static mxArray *vec(const std::vector<double> &v, bool row) { return row ? in_dense(1, v.size(), v) : in_dense(v.size(), 1, v); }

static Args build_args(Scenario &s, const Call &c, Outcome &o) {
  Problem &q = s.probs[c.prob]; Rng r(mix(c.seed, 919)); bool eq = c.eq && q.p > 0; o.useA = eq;
  int n = q.n, m = q.m, p = eq ? q.p : 0;
  auto cached = [&](int what, std::function<mxArray *()> f) { u64 k = mix(mix(c.prob, what), c.layout & 7); auto it = argcache.find(k); if (it != argcache.end()) return it->second; return argcache[k] = f(); };
  mxArray *P = cached(1, [&] { return in_sparse(n, n, q.P, q.zP); }), *C = cached(2, [&] { return vec(q.c, c.layout & 1); });
  mxArray *G = cached(3, [&] { return in_sparse(m, n, q.G, q.zG); }), *H = cached(4, [&] { return vec(q.h, c.layout & 2); }), *A = nullptr, *B = nullptr;
  if (eq) { A = cached(5, [&] { return in_sparse(p, n, q.A, q.zA); }); B = cached(6, [&] { return vec(q.b, c.layout & 4); }); }
  auto copy = [&](mxArray *a) { auto *b = new mxArray(*a); all_arrays.push_back(b); return b; };
  bool bad = true;
  switch (c.bad) {
    case 3: P = in_dense(n, n, q.P); break;
    case 4: P = in_sparse(n, n + 1, [&] { auto d = q.P; d.resize(n * (n + 1)); return d; }(), std::vector<u8>(n * (n + 1))); break;
    case 5: C = vec([&] { auto v = q.c; v.push_back(1); return v; }(), c.layout & 1); break;
    case 6: G = in_dense(m, n, q.G); break;
    case 7: H = vec([&] { auto v = q.h; v.push_back(1); return v; }(), c.layout & 2); break;
    case 8: G = in_sparse(m, n + 1, [&] { auto d = q.G; d.resize(m * (n + 1)); return d; }(), std::vector<u8>(m * (n + 1))); break;
    case 9: if (eq) A = in_dense(p, n, q.A); else bad = false; break;
    case 10: if (eq) B = vec([&] { auto v = q.b; v.push_back(1); return v; }(), c.layout & 4); else bad = false; break;
    case 11: if (eq) A = in_sparse(p, n + 1, [&] { auto d = q.A; d.resize(p * (n + 1)); return d; }(), std::vector<u8>(p * (n + 1))); else bad = false; break;
    case 12: C = copy(C); C->sparse = true; break;
    case 13: C = copy(C); C->complex_ = true; break;
    case 14: C = in_dense(n, 2, [&] { auto v = q.c; v.resize(2 * n); return v; }()); break;
    case 15: H = copy(H); H->sparse = true; break;
    case 16: H = in_dense(m, 2, [&] { auto v = q.h; v.resize(2 * m); return v; }()); break;
    case 17: if (eq) { B = copy(B); B->sparse = true; } else bad = false; break;
    case 18: if (eq) B = in_dense(p, 2, [&] { auto v = q.b; v.resize(2 * p); return v; }()); else bad = false; break;
    case 29: P = copy(P); P->complex_ = true; break;
    case 30: G = copy(G); G->complex_ = true; break;
    case 33: P = copy(P); P->cls = mxLOGICAL_CLASS; break;
    case 37: case 38: {                                // a vector that is not of type double
      static const mxClassID no[] = {mxSINGLE_CLASS, mxINT32_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxCELL_CLASS, mxINT64_CLASS};
      mxArray *&w = c.bad == 37 ? C : eq && r.chance(0.5) ? B : H; mxArray *x = copy(w); x->cls = no[r.below(6)];
      size_t k = x->dims[0] * x->dims[1]; x->pr = x->cls == mxCELL_CLASS ? nullptr : sim::input_alloc(k * width(x->cls)); if (x->pr) memset(x->pr, 0, k * width(x->cls));
      w = x; break; }
    case 39: G = copy(G); G->cls = mxLOGICAL_CLASS; break;
    case 40: if (eq) { A = copy(A); (r.chance(0.5) ? A->complex_ = true : (A->cls = mxLOGICAL_CLASS, true)); } else bad = false; break;
    case 41: H = copy(H); H->complex_ = true; break;
    case 42: if (eq) { B = copy(B); B->complex_ = true; } else bad = false; break;
    case 44: case 45: case 46: case 47: {              // a matrix of another shape: transposed, flattened, halved, with a row or a column more or fewer
      int w = c.bad == 46 && !eq ? 44 : c.bad; if (w == 47) w = r.chance(0.5) ? 44 : eq ? 46 : 45;
      int R = w == 44 ? m : w == 45 ? n : p, K = n; const std::vector<double> &src = w == 44 ? q.G : w == 45 ? q.P : q.A;
      std::vector<std::pair<int, int>> sh = {{K, R}, {K, R}, {1, R * K}, {R * K, 1}, {R - 1, K}, {R, K - 1}, {R + 1, K - 1}, {R - 1, K + 1}, {2 * R, K}, {K, K}, {R + 1, K + 1}};
      if (K % 2 == 0) sh.push_back({2 * R, K / 2});
      if (R % 2 == 0) sh.push_back({R / 2, 2 * K});
      std::vector<std::pair<int, int>> ok; for (auto &e : sh) if ((e.first != R || e.second != K) && e.first > 0 && e.second > 0) ok.push_back(e);
      auto e = ok[r.below(ok.size())]; auto d = src; d.resize((size_t)e.first * e.second, 0.5);
      (w == 44 ? G : w == 45 ? P : A) = in_sparse(e.first, e.second, d, std::vector<u8>(d.size())); break; }
    case 48: case 49: {                                // a vector that is shorter, or longer by more than one
      std::vector<double> v = c.bad == 48 ? q.c : eq && r.chance(0.5) ? q.b : q.h; bool b = eq && v.size() == (size_t)p && v == q.b && c.bad == 49; size_t k = v.size();
      size_t t = r.chance(0.5) && k > 1 ? k - 1 - r.below(k - 1) : k * (2 + r.below(2)); v.resize(t, 0.25);
      (c.bad == 48 ? C : b ? B : H) = vec(v, r.chance(0.5)); break; }
    default: bad = false;
  }
  if (c.bad == 14 && n == 1) bad = true;
  Args a; a.v = {P, C}; if (eq) { a.v.push_back(A); a.v.push_back(B); } a.v.push_back(G); a.v.push_back(H);
  int opts = c.opts; bool lower = opts & 64;
  Rng wr(mix(c.seed, 5150));
  if (c.bad == 51) opts |= 32;
  if ((c.bad == 50 || c.bad == 52) && !(opts & 31)) opts |= 1 << wr.below(5);
  if (c.bad == 19 || c.bad == 20 || c.bad == 21 || c.bad == 31 || c.bad == 35 || c.bad == 43) opts |= 32;
  if (c.bad == 22 || c.bad == 23) opts |= 1;
  if (c.bad == 24 || c.bad == 25) opts |= 2;
  if (c.bad == 26) opts |= 4;
  if (c.bad == 27) opts |= 8;
  if (c.bad == 28) opts |= 16;
  if (c.bad == 36 && !(opts & 31)) opts |= 1 << r.below(5);
  if (opts & 0xbf) {
    auto *st = new mxArray; st->input = true; st->cls = mxSTRUCT_CLASS; st->dims[0] = st->dims[1] = 1; all_arrays.push_back(st);
    static const double tols[] = {1e-3, 1e-4, 1e-6, 1e-8, 0.1, 1, 1e-9};
    bool emptied = false; auto add = [&](const char *up, const char *lo, mxArray *v) { st->names.push_back(lower ? lo : up); st->fields.push_back(v); };
    int nopt = 0, empty_at = c.bad == 34 ? (int)r.below(5) : -1;   // 34: an option that is an empty array
    Rng tr(mix(c.seed, 4711)); bool typed = !c.bad && tr.chance(0.4); int odd_at = c.bad == 36 ? (int)tr.below(__builtin_popcount(opts & 31)) : -1;   // 36: an option that is not a number
    int wrong_at = c.bad == 50 || c.bad == 52 ? (int)wr.below(__builtin_popcount(opts & 31)) : -1;
    auto sc = [&](double &v, double top = -1) {
      emptied = false; int at = nopt++;
      if (at == wrong_at) {              // 50: not a number; 52: just or far outside the range
        bad = true; static const double over[] = {1e-9, 1e-3, 0.5, 0.999, 1, 1.5, 20, 1e9, 1e300, INFINITY}; double d = over[wr.below(10)];
        v = c.bad == 50 ? NAN : top < 0 || wr.chance(0.4) ? -d : top + std::max(d, 1e-9 * (1 + top));
        return in_typed(mxDOUBLE_CLASS, v); }
      if (at == empty_at) { emptied = true; return in_dense(0, 0, {}); }
      if (at == odd_at) { bad = true; static const mxClassID no[] = {mxCHAR_CLASS, mxSTRUCT_CLASS, mxCELL_CLASS}; return in_typed(no[tr.below(3)], v); }
      if (!typed || tr.chance(0.3)) return in_typed(mxDOUBLE_CLASS, v);
      if (v != std::floor(v) || v < 0) return in_typed(mxSINGLE_CLASS, v);
      static const mxClassID yes[] = {mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxLOGICAL_CLASS};
      mxClassID cl = yes[tr.below(v > 1 ? 9 : 10)]; return in_typed(v > 127 && cl == mxINT8_CLASS ? mxINT16_CLASS : cl, v); };
    auto tolv = [&]() { double v = tols[r.below(7)]; return wr.chance(0.7) ? v : wr.chance(0.1) ? 0 : std::pow(10, -14 * wr.uni()); };
    if (opts & 1) { double v = r.chance(0.6) ? 100 : r.range(0, 30); if (wr.chance(0.2)) v = wr.chance(0.3) ? 200 : wr.range(0, 200); if (c.bad == 22) { v = -1; bad = true; } if (c.bad == 23) { v = 201; bad = true; } add("MAXITER", "maxiter", sc(v, 200)); if (!emptied) o.maxit = (long)v; }
    if (opts & 2) { double v = tolv(); if (c.bad == 24) { v = 2; bad = true; } if (c.bad == 25) { v = -1e-3; bad = true; } add("ABSTOL", "abstol", sc(v, 1)); if (!emptied) o.abstol = v; }
    if (opts & 4) { double v = tolv(); if (c.bad == 26) { v = r.chance(0.5) ? -1 : 1.5; bad = true; } add("RELTOL", "reltol", sc(v, 1)); if (!emptied) o.reltol = v; }
    if (opts & 8) { static const double sg[] = {0, 0.5, 1, 10, 100}; double v = sg[r.below(5)]; if (wr.chance(0.2)) v = std::pow(10, 18 * wr.uni() - 9); if (c.bad == 27) { v = -1; bad = true; } add("SIGMA", "sigma", sc(v)); if (!emptied) o.sigma = v; }
    if (opts & 16) { double v = r.range(0, 2); if (c.bad == 28) { v = -1; bad = true; } add("VERBOSE", "verbose", sc(v)); if (!emptied) o.verbose = (int)v; }
    if (opts & 32) {
      int k = n + m + p; std::vector<double> pv(k); for (int i = 0; i < k; i++) pv[i] = i + 1;
      if (r.chance(0.8)) for (int i = k - 1; i > 0; i--) std::swap(pv[i], pv[r.below(i + 1)]);
      if (c.bad == 21) { int i = (int)r.below(k); pv[i] = pv[(i + 1) % k]; bad = true; }
      if (c.bad == 35) { pv[r.below(k)] = r.chance(0.5) ? 0 : k + 1; bad = true; }
      if (c.bad == 51) { int i = (int)wr.below(k); pv[i] = wr.chance(0.2) ? NAN : pv[i] + (wr.chance(0.5) ? -0.5 : 0.999 * wr.uni() + 1e-3 - (wr.chance(0.5) ? 1 : 0)); bad = true; }
      if (c.bad == 20) { pv.push_back(k + 1); bad = true; }
      for (double v : pv) o.perm.push_back((long)v - 1);
      mxArray *pa = c.bad == 31 ? in_dense(k, 2, [&] { auto d = pv; d.resize(2 * k); return d; }()) : vec(pv, r.chance(0.5));
      if (c.bad == 31) bad = true;
      if (c.bad == 19) { pa->sparse = true; bad = true; }
      if (c.bad == 43) { pa->cls = mxINT32_CLASS; pa->pr = sim::input_alloc(k * 4); for (int i = 0; i < k; i++) ((int *)pa->pr)[i] = (int)pv[i]; bad = true; }
      add("PERMUT", "permut", pa); o.permut = true;
    }
    a.v.push_back(st);
  }
  if (c.bad == 1) { a.v.resize(3); bad = true; }
  if (c.bad == 2) { while (a.v.size() < 8) a.v.push_back(C); bad = true; }
  if (c.nlhs > 3) bad = true;
  o.valid = !bad;
  return a;
}

static std::string mask_times(const std::string &t) {
  std::istringstream in(t); std::string l, o;
  while (std::getline(in, l)) { size_t k = l.find(':'); if (k != std::string::npos && l.find("Time") != std::string::npos) l = l.substr(0, k + 1); o += l + "\n"; }
  return o;
}
static std::vector<double> data_of(mxArray *a) { std::vector<double> v; if (a && !a->dead && a->pr && a->cls == mxDOUBLE_CLASS) v.assign((double *)a->pr, (double *)a->pr + a->dims[0] * a->dims[1]); return v; }
static void keep_tree(mxArray *a, std::set<mxArray *> &keep, std::set<u64> &blk) { if (!a || !keep.insert(a).second) return; if (a->pr) blk.insert((u64)a->pr); for (auto *f : a->fields) keep_tree(f, keep, blk); }

static std::string shape_of(mxArray *a) {
  if (!a) return "none";
  std::string t = std::to_string(a->dims[0]) + "x" + std::to_string(a->dims[1]);
  if (a->fields.empty()) return a->dims[0] * a->dims[1] ? t : "empty";
  for (size_t i = 0; i < a->names.size(); i++) { std::string u = a->fields[i] ? shape_of(a->fields[i]) : "empty"; t += " " + a->names[i] + ":" + u; }
  return t;
}
static Outcome do_call(Scenario &s, const Call &c, bool main, std::vector<Kept> &kept) {
  Outcome o; Args a = build_args(s, c, o); char buf[400];
  if (main && s.env.stack) sim::scribble_stack(mix(s.env.stack, c.id));
  sim::cur->owner = 1000 + c.id; sim::cur->fault_nth = -1;
  if (main) for (auto &f : s.faults) if (f.op == c.id) { sim::cur->fault_nth = 1 + f.r; sim::cur->fault_len = f.len; }
  call_arrays.clear(); session_text.clear();
  mxArray *plhs[5] = {0, 0, 0, 0, 0};
  std::vector<const mxArray *> prhs = a.v;
  memset(wrap_time, 0, sizeof wrap_time); memset(wrap_calls, 0, sizeof wrap_calls); int locks0 = locks;
  sim::begin_op(c.id);
  volatile bool err = false;
  in_call = true;
  if (_setjmp(abort_jmp) == 0) mexFunction(c.nlhs, plhs, (int)prhs.size(), prhs.data());
  else err = true;
  in_call = false; in_mx = false;
  sim::end_op();
  sim::cur->fault_nth = -1;
  o.ran = true; o.error = err; o.msg = err ? abort_msg : ""; o.text = session_text; o.allocs = sim::cur->op_allocs; o.fired = sim::cur->op_fired; o.outer = sim::time_outer();
  for (int k = 0; k < 2; k++) o.part[k] = &wrap_adapter && wrap_calls[0][2] == 1 && wrap_calls[0][3] == 1 ? (double)wrap_time[0][2 + k] : -1;
  if (main && locks != locks0) violate("leak", "call " + std::to_string(c.id) + ": the call left the MEX file locked");
  std::set<mxArray *> keep; std::set<u64> kb;
  if (!err) for (int k = 0; k < std::max(1, std::min(c.nlhs, 4)); k++) keep_tree(plhs[k], keep, kb);
  if (!err) {
    o.x = data_of(plhs[0]); o.shape = shape_of(plhs[0]);
    for (int k = 1; k < 3 && k < c.nlhs; k++) if (plhs[k]) o.shape += " " + shape_of(plhs[k]);
    for (int k = 1; k < 3 && k < c.nlhs; k++) if (plhs[k]) for (size_t i = 0; i < plhs[k]->names.size(); i++) { o.has[plhs[k]->names[i]] = plhs[k]->fields[i] != nullptr; o.f[plhs[k]->names[i]] = data_of(plhs[k]->fields[i]); }
    if (main) for (int k = 0; k < std::max(1, c.nlhs) && k < 4; k++) if (!plhs[k] && c.nlhs > 0) violate("mexcore", "a requested output was not produced");
  }
  // what the host reclaims when a call ends
  size_t left = 0, foreign = 0;
  for (auto &b : sim::live_blocks(-99)) {
    if (b.owner != 1000 + c.id) continue;
    if (kb.count(b.base)) continue;
    if (!mxblocks.count(b.base)) { foreign++; continue; }
    left++;
    if (persistent_blocks.count(b.base)) continue;
    mxblocks.erase(b.base); sim::dealloc((void *)b.base, "host");
  }
  for (auto *x : all_arrays) if (!x->input && !keep.count(x) && !x->persistent && std::find(call_arrays.begin(), call_arrays.end(), x) != call_arrays.end()) x->dead = true;
  if (main) {
    sim::hash(mix(err, std::hash<std::string>()(o.msg))); sim::hash_bytes(o.x.data(), o.x.size() * 8);
    if (foreign) { snprintf(buf, sizeof buf, "call %d (%s): %zu blocks from outside the host's memory are still allocated", c.id, err ? "aborted" : "completed", foreign); violate(err ? "oomleak" : "leak", buf); }
    size_t pers = 0; for (auto &b : sim::live_blocks(1000 + c.id)) if (persistent_blocks.count(b.base)) pers++;
    if (pers) { snprintf(buf, sizeof buf, "call %d: %zu blocks were made persistent and outlive the call", c.id, pers); violate("leak", buf); }
    else if (!err && left) { snprintf(buf, sizeof buf, "call %d completed and left %zu blocks allocated beyond its outputs", c.id, left); violate("leak", buf); }
    for (auto &k : kept) if (data_of(k.a).size() != k.copy.size() || memcmp(data_of(k.a).data(), k.copy.data(), k.copy.size() * 8)) { snprintf(buf, sizeof buf, "call %d changed a result of call %d", c.id, k.call); violate("outputchanged", buf); }
    if (!err) for (auto *x : keep) if (x->cls == mxDOUBLE_CLASS) kept.push_back({c.id, x, data_of(x)});
    count(err ? (o.fired ? "call_aborted_by_memory" : "call_aborted") : "call_completed");
    if (o.permut) count("call_with_ordering");
    count(c.bad ? "call_invalid" : "call_valid");
  }
  return o;
}

static void reset_host() {
  for (auto *a : all_arrays) delete a;
  all_arrays.clear(); call_arrays.clear(); mxblocks.clear(); persistent_blocks.clear(); argcache.clear(); atexit_fns.clear(); locks = 0;
  sim::reset_memory(); sim::restore_globals(); sim::reset_sync(); sim::step_cap = sim::st.steps + 300000000ull;
}
static std::vector<Outcome> session(Scenario &s, const std::vector<Call> &calls, bool main) {
  reset_host();
  if (main) sim::begin_phase(s.env, s.clk, OutCfg(), SCHED_RUN, s.env.misc + 1, 1000, {});
  else sim::begin_phase(EnvCfg(), ClockCfg(), OutCfg(), SCHED_RUN, 1, 1000, {});
  double al = 2e7; for (auto &c : calls) { Problem &q = s.probs[c.prob]; double N = q.n + q.m + q.p + 4; al += 2e6 + 2000 * N * N * N; }
  sim::step_cap = std::max<u64>(sim::step_cap, sim::st.steps + (u64)al);
  sim::recording = main;
  sim::alloc_fail_cb = []() { if (in_mx) { in_mx = false; host_abort("Out of memory."); } };
  std::vector<Outcome> r; std::vector<Kept> kept;
  sim::run_clients({[&](int) { for (auto &c : calls) r.push_back(do_call(s, c, main, kept)); for (auto f : atexit_fns) f(); }});
  sim::recording = false; sim::alloc_fail_cb = nullptr;
  return r;
}

// the core solver on the same data and options
static Outcome core(Scenario &s, const Call &c) {
  Outcome o, k; reset_host(); sim::begin_phase(EnvCfg(), ClockCfg(), OutCfg(), SCHED_RUN, 1, 1000, {});
  sim::run_clients({[&](int) {
    Args a = build_args(s, c, o); (void)a; Problem &q = s.probs[c.prob]; Csc P = to_csc(q.n, q.n, q.P, q.zP), G = to_csc(q.m, q.n, q.G, q.zG), A;
    if (o.useA) A = to_csc(q.p, q.n, q.A, q.zA);
    long *perm = o.permut ? put(o.perm) : nullptr;
    int p = o.useA ? q.p : 0;
    QP *h = QP_SETUP(q.n, q.m, p, put(P.jc), put(P.ir), put(P.pr), p ? put(A.jc) : nullptr, p ? put(A.ir) : nullptr, p ? put(A.pr) : nullptr, put(G.jc), put(G.ir), put(G.pr), put(q.c), put(q.h), p ? put(q.b) : nullptr, 0.0, perm);
    if (!h) return;
    if (o.maxit >= 0) h->options->maxit = o.maxit;
    if (o.abstol >= 0) h->options->abstol = o.abstol;
    if (o.reltol >= 0) h->options->reltol = o.reltol;
    if (o.sigma >= 0) h->options->sigma = o.sigma;
    k.ran = true; long rc = QP_SOLVE(h);
    k.x.assign(h->x, h->x + q.n); k.f["ExitFlag"] = {(double)rc}; k.f["Iterations"] = {(double)h->stats->IterationCount}; k.f["Fval"] = {h->stats->fval};
    if (p) k.f["y"].assign(h->y, h->y + p);
    k.f["z"].assign(h->z, h->z + q.m); k.f["s"].assign(h->s, h->s + q.m);
    QP_CLEANUP(h);
  }});
  return k;
}
static bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
static bool k_known(const std::string &n) { for (const char *w : {"Iterations", "ExitFlag", "Setup_Time", "Solve_Time", "Fval", "KKT_Time", "LDL_Time", "y", "z", "s"}) if (n == w) return true; return false; }
// what is printed states the settings in force and the iterations made (lines that are recognised)
static std::string misprint(const Outcome &o, long iters, long rc) {
  if (o.verbose <= 0) return "";
  if (o.text.empty()) return "nothing is printed although VERBOSE is " + std::to_string(o.verbose);
  std::istringstream in(o.text); std::string l; long k, its = 0; char w[60], b[60];
  auto is = [&](double v) { snprintf(b, sizeof b, "%e", v); return !strcmp(b, w); };
  while (std::getline(in, l)) {
    if (sscanf(l.c_str(), "Maximum Iterations : %ld", &k) == 1 && k != (o.maxit >= 0 ? o.maxit : MAXIT)) return "the printed iteration limit is not the one in force";
    if (sscanf(l.c_str(), "ABSTOL : %59s", w) == 1 && !is(o.abstol >= 0 ? o.abstol : ABSTOL)) return "the printed absolute tolerance is not the one in force";
    if (sscanf(l.c_str(), "RELTOL : %59s", w) == 1 && !is(o.reltol >= 0 ? o.reltol : RELTOL)) return "the printed relative tolerance is not the one in force";
    if (sscanf(l.c_str(), "SIGMA : %59s", w) == 1 && !is(o.sigma >= 0 ? o.sigma : SIGMA)) return "the printed sigma is not the one in force";
    if (sscanf(l.c_str(), "VERBOSE : %ld", &k) == 1 && k != o.verbose) return "the printed verbosity is not the one in force";
    if (sscanf(l.c_str(), "Permutation vector : %59s", w) == 1 && (!strcmp(w, "AMD") ? o.permut : !strncmp(w, "User", 4) ? !o.permut : false)) return "the printed kind of ordering is not the one used";
    if (sscanf(l.c_str(), "It: %ld", &k) == 1) { if (k != its++) return "the printed iteration numbers are not consecutive"; }
  }
  if (its && rc == 0 && its != iters + 1) return "the number of printed iterations is not that of the call";
  if (its && rc == 2 && its != iters) return "the number of printed iterations is not that of the call";
  return "";
}
static bool timing(const std::string &k) { return k.find("Time") != std::string::npos; }

void run_scenario(const std::string &text) {
  Scenario s = parse(text); char buf[500];
  if (!s.valid) { violate("invalid", "the scenario refers to something it does not define"); return; }
  std::vector<Outcome> ref, kor;
  for (auto &c : s.calls) ref.push_back(session(s, {c}, false)[0]);
  for (size_t i = 0; i < s.calls.size(); i++) kor.push_back(ref[i].valid && s.calls[i].nlhs > 0 ? core(s, s.calls[i]) : Outcome());
  for (auto &f : s.faults) for (size_t i = 0; i < s.calls.size(); i++) if (s.calls[i].id == f.op) f.r = ref[i].allocs ? (i64)((u64)f.r % ref[i].allocs) : 0;
  auto out = session(s, s.calls, true);
  for (size_t i = 0; i < s.calls.size(); i++) {
    const Call &c = s.calls[i]; Outcome &o = out[i], &f = ref[i], &k = kor[i];
    if (o.fired) { if (o.error) continue; count("call_survived_memory_fault"); }
    // a fresh session
    std::string d;
    if (o.error != f.error) d = o.error ? "it was aborted: " + o.msg : "it completed instead of being aborted: " + f.msg;
    else if (o.msg != f.msg) d = "the error is '" + o.msg + "' instead of '" + f.msg + "'";
    else if (!same(o.x, f.x)) d = "the solution differs";
    else if (o.has != f.has) d = "the fields of the results differ";
    else { for (auto &e : o.f) if (!timing(e.first) && !same(e.second, f.f[e.first])) d = "the field " + e.first + " differs"; if (d.empty() && mask_times(o.text) != mask_times(f.text)) d = "the printed text differs"; }
    if (!d.empty()) { snprintf(buf, sizeof buf, "call %d differs from the same call in a fresh session: %s", c.id, d.c_str()); violate("mexdiff", buf); }
    if (!o.valid || c.nlhs == 0 || o.error) {
      if (!o.valid && !o.error && c.nlhs > 0) { snprintf(buf, sizeof buf, "call %d has invalid arguments (kind %d) and was not rejected", c.id, c.bad); violate("mexaccept", buf); }
      if (o.valid && o.error && !o.fired) { snprintf(buf, sizeof buf, "call %d is valid but was aborted: %s", c.id, o.msg.c_str()); violate("mexreject", buf); }
      continue;
    }
    // the core solver
    d.clear();
    if (!k.ran) d = "the core solver was not set up";
    else if (!same(o.x, k.x)) d = "the solution differs";
    else for (auto &e : o.f) {
      if (timing(e.first)) { if (e.second.size() != 1 || !(e.second[0] >= 0) || e.second[0] > o.outer * 1e-9 * (1 + 1e-12) + 1e-9) { snprintf(buf, sizeof buf, "call %d: %s is %g s, the call took %g s", c.id, e.first.c_str(), e.second.empty() ? NAN : e.second[0], o.outer * 1e-9); violate("time", buf); } }
      else if (k.f.count(e.first)) { if (!same(e.second, k.f[e.first])) d = "the field " + e.first + " differs"; }
      else if (o.has[e.first]) d = "the field " + e.first + " should be empty";
    }
    if (d.empty()) {
      Problem &q = s.probs[c.prob]; std::string nx = std::to_string(q.n) + "x1", mx = std::to_string(q.m) + "x1"; std::istringstream in(o.shape); std::string w; int k = 0;
      while (in >> w) {
        size_t at = w.find(':'); std::string name = at == std::string::npos ? "" : w.substr(0, at), got = at == std::string::npos ? w : w.substr(at + 1);
        std::string want = name.empty() ? (k++ ? "1x1" : nx) : name == "z" || name == "s" ? mx : name == "y" ? (o.useA ? std::to_string(q.p) + "x1" : "empty") : k < 1 ? got : "1x1";
        if (got != want && !(k >= 1 && !name.empty() && !k_known(name))) d = (name.empty() ? "output " + std::to_string(k) : "the field " + name) + " has size " + got + " instead of " + want;
      }
    }
    if (d.empty() && c.nlhs >= 2) for (const char *n : {"Iterations", "ExitFlag", "Setup_Time", "Solve_Time"}) if (!o.has[n]) d = std::string("the field ") + n + " is missing";
    if (d.empty() && c.nlhs >= 3) for (const char *n : {"Fval", "KKT_Time", "LDL_Time", "z", "s"}) if (!o.has[n]) d = std::string("the field ") + n + " is missing";
    if (d.empty() && c.nlhs >= 3 && o.useA && !o.has["y"]) d = "the field y is missing";
    if (!d.empty()) { snprintf(buf, sizeof buf, "call %d differs from the core solver on the same data and options: %s", c.id, d.c_str()); violate("mexcore", buf); }
    if (c.nlhs >= 2 && d.empty()) for (int k = 0; k < 2; k++) if (o.part[k] >= 0) {
      double t = o.f[k ? "Solve_Time" : "Setup_Time"][0], w = o.part[k]; bool calm = s.clk.readjump == 0 && s.clk.stallgap == 0;
      if (t > w * 1e-9 + 1e-9 || (calm && t < (0.8 * w - 400.0 * s.clk.tick) * 1e-9)) { snprintf(buf, sizeof buf, "call %d: the reported %s is %.12g s, but the core took %.12g s", c.id, k ? "solve time" : "setup time", t, w * 1e-9); violate("time", buf); }
      count("times_checked"); }
    if (c.nlhs == 3 && d.empty()) {
      double t = o.f["Solve_Time"][0], kt = o.f["KKT_Time"][0], lt = o.f["LDL_Time"][0], e = 1e-9;
      if (lt > kt + e || kt > t + e || o.f["Setup_Time"][0] + t > o.outer * 1e-9 + e) violate("time", "the reported times do not nest");
    }
    if (o.verbose <= 0 && !o.text.empty() && o.valid) { snprintf(buf, sizeof buf, "call %d: printed %zu characters although VERBOSE is 0", c.id, o.text.size()); violate("noise", buf); }
    if (c.nlhs >= 2 && d.empty()) {
      std::string e = misprint(o, (long)o.f["Iterations"][0], (long)o.f["ExitFlag"][0]);
      if (o.verbose > 0) count("print_checked");
      if (!e.empty()) { snprintf(buf, sizeof buf, "call %d: %s", c.id, e.c_str()); violate("misprint", buf); }
    }
    Problem &q = s.probs[c.prob]; double rt = o.reltol >= 0 ? o.reltol : RELTOL, at = o.abstol >= 0 ? o.abstol : ABSTOL;
    if (c.nlhs == 3 && d.empty() && o.f["ExitFlag"][0] == 0) {
      std::string e = truth_optimal(q, o.useA, o.x.data(), o.f["y"].data(), o.f["z"].data(), o.f["s"].data(), o.f["Fval"][0], rt, at);
      if (!e.empty()) { snprintf(buf, sizeof buf, "call %d: %s", c.id, e.c_str()); violate("untrue", buf); }
    }
    bool deflt = (o.maxit < 0 || o.maxit >= 100) && o.sigma < 0 && rt >= 1e-6 && at >= 1e-6;
    if (c.nlhs >= 2 && d.empty() && q.wellposed && deflt && o.f["ExitFlag"][0] != 0) { snprintf(buf, sizeof buf, "call %d: a well-posed problem was not solved (exit flag %g)", c.id, o.f["ExitFlag"][0]); unsolved(q, o.useA, rt, at, buf); }
  }
}

std::string gen_scenario(const std::string &prof, u64 seed) {
  Rng r(mix(mix(seed, 0x3e8), 17)); std::ostringstream o; o << "profile " << prof << "\n";
  bool many = mix(seed, 82) % 150 == 0, huge = !many && mix(seed, 83) % 1500 == 0;     // long sessions of small problems; large problems
  int np = r.range(1, 3); std::vector<int> pp; int n0 = 0, m0 = 0, p0 = 0, ez0 = 0; u64 ps0 = 0; std::string k0;
  for (int i = 0; i < np; i++) {
    int n = r.range(1, 6), m = r.range(1, 10), p = r.chance(0.4) ? 0 : r.range(1, 3);
    if (r.chance(0.05)) { n = r.range(6, 16); m = r.range(6, 30); p = r.range(0, 5); }
    if (many) { n = r.range(1, 3); m = r.range(1, 4); p = n > 1 && r.chance(0.4); }
    if (huge && !i) { n = r.range(25, 60); m = r.range(30, 100); p = r.range(0, 12); }
    std::string k = r.chance(0.5) ? (r.chance(0.5) ? "strict" : "zerorow") : problem_kinds[r.below(problem_kinds.size())];
    u64 ps = r.below(1ull << 40), var = 0; int ez = r.chance(0.25) ? r.range(5, 60) : 0;
    if (i && r.chance(0.6)) { n = n0; m = m0; p = p0; if (r.chance(0.6)) { k = k0; ps = ps0; ez = ez0; var = 1 + r.below(1000); if (r.chance(0.6)) var |= problem_reordered; } }   // the same sizes and entries, other numbers, often another pattern
    n0 = n; m0 = m; p0 = p; k0 = k; ps0 = ps; ez0 = ez;
    o << "prob " << i << " " << k << " " << n << " " << m << " " << p << " " << ps << " " << ez << " " << var << "\n"; pp.push_back(p);
  }
  if (r.chance(0.8)) o << "env " << 1 + r.below(1u << 30) << " " << r.range(0, 4) << " " << (r.chance(0.5) ? 0 : 16 << r.range(0, 8)) << " " << (r.chance(0.3) ? 0 : r.range(10, 100)) << " " << (r.chance(0.2) ? 0 : 1 + r.below(1u << 30)) << " " << r.below(1u << 30) << "\n";
  o << "clock " << r.range(1, 4) << " " << (r.chance(0.5) ? r.below(1ull << 50) : (r.below(100000) * 1000000000ull + 999990000ull + r.below(10000))) << " " << (r.chance(0.4) ? r.range(1, 400) : 0) << " " << (r.chance(0.4) ? (u64)1 << r.range(6, 18) : 0) << " " << r.range(8, 38 + (mix(seed, 78) % 8 ? 0 : 6)) << " " << r.below(1u << 30) << "\n";
  int nc = r.range(2, 6); bool chaos = r.chance(0.7);
  if (many) { nc = r.range(30, 100); chaos = chaos && r.chance(0.5); }
  std::ostringstream f;
  for (int i = 0; i < nc; i++) {
    int pb = (int)r.below(np), opts = r.chance(0.5) ? 0 : (int)r.below(64) & (int)(r.below(64) | 32);
    if (opts && r.chance(0.3)) opts |= 64;
    if (!opts && r.chance(0.1)) opts = 128;
    int bad = chaos && r.chance(0.35) ? r.range(1, 52) : 0;
    int nlhs = r.chance(0.7) ? 3 : r.chance(0.9) ? r.range(1, 2) : r.chance(0.5) ? 0 : 4;
    o << "op " << i << " 0 0 call " << pb << " " << (pp[pb] > 0 && r.chance(0.7) ? 1 : 0) << " " << nlhs << " " << opts << " " << r.below(8) << " " << bad << " " << r.below(1u << 30) << "\n";
    if (chaos && i + 1 < nc && r.chance(0.35)) f << "fault alloc " << i << " " << r.below(1u << 20) << " " << (r.chance(0.8) ? 1 : 1000) << "\n";
  }
  o << f.str();
  return o.str();
}
std::string engine_classify() { return ""; }
int main(int argc, char **argv) { return harness_main(argc, argv); }
