// symex: path-forking symbolic execution of rustc-generated LLVM IR, decided by Z3 bit-vectors.
#include "ir.h"
#include <algorithm>
#include <cstdarg>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// ------------------------------------------------------------------ shared statistics
struct Stat {
  volatile u64 paths, blockedPaths, assumedOut, ins, branchesDecided, forks, queries, sat, unsat, unknown, fallback, solverUs, asserts,
      assertQueries, obligations, states, viol, errors, inconcl, samples, maxDepth, concretised, uncaught;
  volatile u64 reach[256]; volatile u64 known[64];
};
struct Shared { volatile int stop; volatile u64 nviol; volatile int timedOut; Stat st[64]; };
static Shared *sh; static Stat *S; static int curEntry; static u8 *fcov; static u8 *bcov; static vector<u32> bcovBase; static u32 nbcov;
#define INC(f, n) __atomic_add_fetch(&S->f, (u64)(n), __ATOMIC_RELAXED)
static string outDir; static vector<string> entries; static vector<u64> params; static double budget = 600, t0; static int jobs = 8;
static u64 maxPathIns = 200000000, sampleMax = 40; static u32 rlim = 60000000; static bool unitTests = false; static u64 maxViol = 3, seed = 1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 insCount = 0; static bool ownToken = false; static int tokR, tokW;

// ------------------------------------------------------------------ Z3
static Z3_context Z; static Z3_solver sol; static Z3_model model; static vector<Z3_ast> pc; static Z3_params qp;
static Z3_sort sorts[513];
static Z3_sort bvs(u32 w) { if (w > 512) die("width"); auto &s = sorts[w]; if (!s) { s = Z3_mk_bv_sort(Z, w); } return s; }
static void z3err(Z3_context c, Z3_error_code e) { die("z3: %s", Z3_get_error_msg(c, e)); }
static Z3_ast num(u64 v, u32 w) { return Z3_mk_unsigned_int64(Z, v, bvs(w)); }
static Z3_ast num128(u128 v, u32 w) { if (w <= 64) return num((u64)v, w); return Z3_mk_concat(Z, num((u64)(v >> 64), w - 64), num((u64)v, 64)); }
static u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static Val C(u128 v, u32 w) { return Val{v & maskw(w), nullptr, 0}; }
static Z3_ast TRUE_, FALSE_;
static int symN = 0, undN = 0;
static Z3_ast fresh(const char *p, u32 w, int n) { char b[64]; snprintf(b, 64, "%s!%d", p, n); Z3_symbol s = Z3_mk_string_symbol(Z, b); return Z3_mk_const(Z, s, w == 1 ? Z3_mk_bool_sort(Z) : bvs(w)); }
static Val useV(const Val &v, u32 w) { if (v.fl & F_UNDEF && !v.e) { Val r{0, fresh("undef", w, undN++), F_TAINT}; return r; } return v; }
static Z3_ast E(const Val &v, u32 w) { if (v.e) return v.e; if (v.fl & F_UNDEF) return fresh("undef", w, undN++); if (w == 1) return v.c & 1 ? TRUE_ : FALSE_; return num128(v.c, w); }
static bool isNum(Z3_ast e, u128 &out) {
  Z3_ast_kind k = Z3_get_ast_kind(Z, e);
  if (k == Z3_NUMERAL_AST) { uint64_t v; if (Z3_get_numeral_uint64(Z, e, &v)) { out = v; return true; } const char *s = Z3_get_numeral_string(Z, e); u128 r = 0; for (; *s; s++) r = r * 10 + (*s - '0'); out = r; return true; }
  if (k == Z3_APP_AST) { Z3_lbool b = Z3_get_bool_value(Z, e); if (b != Z3_L_UNDEF) { out = b == Z3_L_TRUE; return true; } }
  return false; }
static Val mkS(Z3_ast e, u8 fl) { u128 c; if (isNum(e, c)) return Val{c, nullptr, 0}; return Val{0, e, (u8)(fl & F_TAINT)}; }
static Z3_decl_kind dk(Z3_ast e) { if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return (Z3_decl_kind)0; return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e))); }
static Z3_ast arg(Z3_ast e, u32 i) { return Z3_get_app_arg(Z, Z3_to_app(Z, e), i); }
static u32 bw(Z3_ast e) { Z3_sort s = Z3_get_sort(Z, e); return Z3_get_sort_kind(Z, s) == Z3_BOOL_SORT ? 1 : Z3_get_bv_sort_size(Z, s); }
static Z3_ast mkNot(Z3_ast e) { return dk(e) == Z3_OP_NOT ? arg(e, 0) : Z3_mk_not(Z, e); }
static Z3_ast mkExtract(u32 hi, u32 lo, Z3_ast e) {
  u32 w = bw(e); if (lo == 0 && hi == w - 1) return e; u128 c; if (isNum(e, c) && w <= 128) return num128((c >> lo) & maskw(hi - lo + 1), hi - lo + 1);
  Z3_decl_kind k = dk(e);
  if (k == Z3_OP_CONCAT) { u32 n = Z3_get_app_num_args(Z, Z3_to_app(Z, e)); u32 pos = w; for (u32 i = 0; i < n; i++) { Z3_ast a = arg(e, i); u32 aw = bw(a); pos -= aw; if (lo >= pos && hi < pos + aw) return mkExtract(hi - pos, lo - pos, a); } }
  if (k == Z3_OP_ZERO_EXT) { Z3_ast a = arg(e, 0); u32 aw = bw(a); if (hi < aw) return mkExtract(hi, lo, a); if (lo >= aw) return num(0, hi - lo + 1); }
  if (k == Z3_OP_EXTRACT) { Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, e)); u32 l2 = Z3_get_decl_int_parameter(Z, d, 1); return mkExtract(hi + l2, lo + l2, arg(e, 0)); }
  if (k == Z3_OP_ITE) { u128 a, b; if (isNum(arg(e, 1), a) && isNum(arg(e, 2), b)) return Z3_mk_ite(Z, arg(e, 0), mkExtract(hi, lo, arg(e, 1)), mkExtract(hi, lo, arg(e, 2))); }
  return Z3_mk_extract(Z, hi, lo, e); }
static Z3_ast b2bv(Z3_ast b, u32 w) { return Z3_mk_ite(Z, b, num(1, w), num(0, w)); }
static Z3_ast bv2b(Z3_ast e) { // bit 0 of e as Bool
  if (dk(e) == Z3_OP_ITE) { u128 a, b; if (isNum(arg(e, 1), a) && isNum(arg(e, 2), b)) { bool x = a & 1, y = b & 1; if (x && !y) return arg(e, 0); if (!x && y) return mkNot(arg(e, 0)); return x ? TRUE_ : FALSE_; } }
  Z3_ast x = mkExtract(0, 0, e); if (dk(x) == Z3_OP_ITE) { u128 a, b; if (isNum(arg(x, 1), a) && isNum(arg(x, 2), b)) { bool p = a & 1, q = b & 1; if (p && !q) return arg(x, 0); if (!p && q) return mkNot(arg(x, 0)); return p ? TRUE_ : FALSE_; } }
  return Z3_mk_eq(Z, x, num(1, 1)); }

static void pcAdd(Z3_ast e) { pc.push_back(e); Z3_solver_assert(Z, sol, e); }
[[noreturn]] static void endPath(int how);
[[noreturn]] static void engineError(const char *fmt, ...);
static Z3_lbool check(Z3_ast extra, Z3_model *out) {
  double a = now(); INC(queries, 1); Z3_solver_push(Z, sol); if (extra) Z3_solver_assert(Z, sol, extra); Z3_lbool r = Z3_solver_check(Z, sol);
  if (r == Z3_L_TRUE && out) { *out = Z3_solver_get_model(Z, sol); Z3_model_inc_ref(Z, *out); }
  Z3_solver_pop(Z, sol, 1);
  if (r == Z3_L_UNDEF) { INC(fallback, 1); Z3_solver s2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, s2); Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), rlim * 8); Z3_solver_set_params(Z, s2, p); for (auto x : pc) Z3_solver_assert(Z, s2, x); if (extra) Z3_solver_assert(Z, s2, extra); r = Z3_solver_check(Z, s2); if (r == Z3_L_TRUE && out) { *out = Z3_solver_get_model(Z, s2); Z3_model_inc_ref(Z, *out); } Z3_solver_dec_ref(Z, s2); }
  INC(solverUs, (now() - a) * 1e6); if (r == Z3_L_TRUE) INC(sat, 1); else if (r == Z3_L_FALSE) INC(unsat, 1); else INC(unknown, 1);
  if (r == Z3_L_UNDEF) engineError("solver returned unknown within its resource limit");
  return r; }
static u128 evalM(Z3_model m, Z3_ast e) {
  Z3_ast o; if (!Z3_model_eval(Z, m, e, true, &o)) die("model eval"); u128 v; if (isNum(o, v)) return v; o = Z3_simplify(Z, o); if (isNum(o, v)) return v; die("model eval: not a value: %s", Z3_ast_to_string(Z, o)); }

// ------------------------------------------------------------------ memory
struct SymByte { Z3_ast e; u16 w; u16 idx; };
enum { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FN };
struct Obj { u64 base = 0, size = 0; u8 *d = nullptr, *st = nullptr; SymByte *sy = nullptr; u32 align = 1; u8 kind = 0; bool live = false, ro = false, ext = false; Function *f = nullptr; const char *nm = nullptr; };
static vector<Obj> gobjs(1), heap(1); static vector<Obj> fobjs; static vector<Obj> stk(1 << 16); static vector<u16> stkGen(1 << 16); static u32 stkTop = 0;
static u8 *arenaD, *arenaS; static u64 arenaTop = 0; static const u64 ARENA = 1ull << 28;
static const u32 K_FN = 0x02000000, K_HEAP = 0x10000000, K_STACK = 0x40000000;
static u64 mkBase(u32 key, u64 align) { return ((u64)key << 32) + 0x10000 + (align ? align : 1); }
static u8 *zalloc(u64 n) { void *p = calloc(n + 32, 1); if (!p) die("oom"); return (u8 *)p; }
u64 newGlobalObj(u64 size, u64 align, bool constant, bool ext, u32 *objIdx) { Obj o; o.kind = OK_GLOBAL; o.size = size; o.align = align; o.ro = constant; o.ext = ext; o.live = true; o.d = zalloc(size); o.st = zalloc(size); if (!ext) memset(o.st, 1, size); u32 k = gobjs.size(); o.base = mkBase(k, align); gobjs.push_back(o); *objIdx = k; return o.base; }
u64 newFnObj(Function *f) { Obj o; o.kind = OK_FN; o.f = f; o.live = true; o.base = mkBase(K_FN + fobjs.size(), 16); fobjs.push_back(o); return o.base; }
void initGlobalBytes(u32 obj, u64 off, const u8 *d, u64 n) { Obj &o = gobjs[obj]; memcpy(o.d + off, d, n); memset(o.st + off, 0, n); }
void initGlobalScalar(u32 obj, u64 off, const Val &v, u32 w) { Obj &o = gobjs[obj]; if (v.fl & F_UNDEF) return; u32 n = bytesOf(w); memcpy(o.d + off, &v.c, n); memset(o.st + off, 0, n); }
static Obj *lookup(u64 a) {
  u32 k = a >> 32; if (k >= K_STACK) { u32 pos = k & 0x3ffff, gen = (k >> 18) & 0xfff; if ((k >> 30) != 1 || pos >= stkTop || (stkGen[pos] & 0xfff) != gen) return nullptr; return &stk[pos]; }
  if (k >= K_HEAP) { k -= K_HEAP; return k < heap.size() ? &heap[k] : nullptr; }
  if (k >= K_FN) { k -= K_FN; return k < fobjs.size() ? &fobjs[k] : nullptr; }
  return k && k < gobjs.size() ? &gobjs[k] : nullptr; }
static bool reuseHeap = false; static vector<u32> freed; // v_reuse: the latest freed block of that size and alignment is handed out again
static u64 newHeap(u64 size, u64 align, bool zero) {
  if (reuseHeap) for (size_t i = freed.size(); i-- > 0;) { Obj &o = heap[freed[i]]; if (o.size != size || o.align != align) continue; o.live = true; o.d = zalloc(size); o.st = zalloc(size); if (!zero) memset(o.st, 1, size); freed.erase(freed.begin() + i); return o.base; }
  Obj o; o.kind = OK_HEAP; o.size = size; o.align = align; o.live = true; o.d = zalloc(size); o.st = zalloc(size); if (!zero) memset(o.st, 1, size); u32 k = heap.size(); o.base = mkBase(K_HEAP + k, align); heap.push_back(o); return o.base; }
static u64 newStack(u64 size, u64 align) {
  u32 pos = stkTop++; if (pos >= stk.size()) { stk.resize(stk.size() * 2); stkGen.resize(stk.size()); if (stk.size() > (1 << 18)) die("too many stack objects"); }
  Obj &o = stk[pos]; stkGen[pos]++; o.kind = OK_STACK; o.size = size; o.align = align; o.live = true; o.sy = nullptr; if (arenaTop + size + 48 > ARENA) die("stack arena"); o.d = arenaD + arenaTop; o.st = arenaS + arenaTop; memset(o.st, 1, size); arenaTop += (size + 47) & ~15ull;
  o.base = mkBase(K_STACK | ((u32)(stkGen[pos] & 0xfff) << 18) | pos, align); return o.base; }
static void popStack(u32 mark, u64 amark) { while (stkTop > mark) { Obj &o = stk[--stkTop]; o.live = false; if (o.sy) { free(o.sy); o.sy = nullptr; } } arenaTop = amark; }

// ------------------------------------------------------------------ machine state
struct Frame { Function *f; Block *bb; u32 ip; int prev; u32 rb; u32 smark; u64 amark; };
static vector<Frame> fr; static Val *R; static u32 rtop = 0; static const u32 RMAX = 4u << 20;
static u64 panicCount = 0; static bool expectBlock = false, noLeak = false; static Global *gPanic = nullptr;
static u64 anyVt = 0; static Function *nopDrop = nullptr;
struct Input { char k; u32 n; u64 c; Z3_ast e; }; static vector<Input> inputs; static vector<Val> traces; static u64 choiceN = 0; static u64 pathReach[4];
static string lastPanic; static u64 forkDepth = 0;

static string demangle(const string &s) { static std::map<string, string> cache; auto it = cache.find(s); return it == cache.end() ? s : it->second; }
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string stackStr() { string s = "["; int n = 0; for (int i = (int)fr.size() - 1; i >= 0 && n < 24; i--, n++) { if (n) s += ","; s += "\"" + jesc(demangle(fr[i].f->name)) + "\""; } return s + "]"; }
static string inputsStr(Z3_model m) { string s = "["; for (size_t i = 0; i < inputs.size(); i++) { if (i) s += ","; auto &x = inputs[i]; char b[96]; snprintf(b, 96, "[\"%c\",%u,\"%llu\"]", x.k, x.n, (unsigned long long)(x.e ? (u64)evalM(m, x.e) : x.c)); s += b; } return s + "]"; }
static string traceStr(Z3_model m) { string s = "["; for (size_t i = 0; i < traces.size(); i++) { if (i) s += ","; char b[32]; snprintf(b, 32, "\"%llu\"", (unsigned long long)(traces[i].e ? (u64)evalM(m, traces[i].e) : (u64)traces[i].c)); s += b; } return s + "]"; }
static void writeFile(const string &p, const string &s) { FILE *f = fopen((p + ".tmp").c_str(), "w"); if (!f) die("cannot write %s", p.c_str()); fwrite(s.data(), 1, s.size(), f); fclose(f); rename((p + ".tmp").c_str(), p.c_str()); }
static void flush() { INC(ins, insCount); insCount = 0; }
static u64 pathIns = 0;

[[noreturn]] static void finish(int code) { flush(); if (ownToken) { char c = 0; if (write(tokW, &c, 1) != 1) {} } int st; while (waitpid(-1, &st, WNOHANG) > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) INC(errors, 1); } _exit(code); }
[[noreturn]] static void engineError(const char *fmt, ...) {
  char b[2000]; va_list a; va_start(a, fmt); vsnprintf(b, 2000, fmt, a); va_end(a); u64 n = INC(errors, 1); if (n <= 5) { fprintf(stderr, "symex: %s: engine error: %s\n", entries[curEntry].c_str(), b); if (!fr.empty()) fprintf(stderr, "  at %s\n", stackStr().substr(0, 1500).c_str()); writeFile(outDir + "/error_" + std::to_string(getpid()) + ".json", "{\"entry\":\"" + entries[curEntry] + "\",\"msg\":\"" + jesc(b) + "\",\"inputs\":" + (model ? inputsStr(model) : string("[]")) + ",\"stack\":" + stackStr() + "}"); }
  sh->stop = 1; finish(0); }
[[noreturn]] static void violation(Z3_model m, const char *kind, u64 code, const char *fmt, ...) {
  char b[2000]; va_list a; va_start(a, fmt); vsnprintf(b, 2000, fmt, a); va_end(a); INC(viol, 1); u64 n = __atomic_add_fetch(&sh->nviol, 1, __ATOMIC_RELAXED);
  if (n <= maxViol) { string s = "{\"entry\":\"" + entries[curEntry] + "\",\"kind\":\"" + kind + "\",\"code\":" + std::to_string(code) + ",\"msg\":\"" + jesc(b) + "\",\"panic\":\"" + jesc(lastPanic) + "\",\"params\":["; for (size_t i = 0; i < params.size(); i++) s += (i ? "," : "") + std::to_string(params[i]); s += "],\"inputs\":" + inputsStr(m) + ",\"stack\":" + stackStr() + "}"; writeFile(outDir + "/viol_" + std::to_string(n) + ".json", s); }
  if (n >= maxViol) sh->stop = 1; finish(0); }
#define VIOL(kind, ...) violation(model, kind, 0, __VA_ARGS__)
// value comparisons collected along the path, discharged together: is any of them falsifiable?
static std::vector<std::pair<Z3_ast, u64>> pendEq;
static void flushEq() {
  if (pendEq.empty()) return;
  std::vector<Z3_ast> d; for (auto &p : pendEq) d.push_back(mkNot(p.first));
  INC(assertQueries, 1); INC(obligations, d.size()); Z3_model m;
  if (check(d.size() == 1 ? d[0] : Z3_mk_or(Z, d.size(), d.data()), &m) == Z3_L_TRUE)
    for (size_t i = 0; i < d.size(); i++) if (evalM(m, d[i])) violation(m, "assert", pendEq[i].second, "values differ (assertion %llu)", (unsigned long long)pendEq[i].second);
  pendEq.clear();
}
// give the inputs the path leaves free arbitrary values, so that replaying a sample means something
static u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static void scramble(u64 k) {
  for (size_t i = 0; i < inputs.size(); i++) { auto &x = inputs[i]; if (x.k != 's' || !x.e) continue; u64 r = mix64(seed * 7919 + k * 131 + i); u32 w = bw(x.e); if (w < 64) r &= (1ull << w) - 1; Z3_model m; Z3_ast eq = w == 1 ? (r ? x.e : mkNot(x.e)) : Z3_mk_eq(Z, x.e, num(r, w)); if (check(eq, &m) == Z3_L_TRUE) { pcAdd(eq); model = m; } } }
[[noreturn]] static void endPath(int how) { // 0 complete, 1 assumed out, 2 blocked as expected
  flushEq();
  if (how == 1) { INC(assumedOut, 1); finish(0); }
  if (how == 0 && !noLeak) { u64 n = 0; u64 sz = 0; for (auto &o : heap) if (o.live) { n++; sz = o.size; } if (n) VIOL("leak", "%llu allocation(s) never freed (last of %llu bytes)", (unsigned long long)n, (unsigned long long)sz); }
  u64 k = INC(paths, 1); if (how == 2) INC(blockedPaths, 1);
  for (int i = 0; i < 256; i++) if (pathReach[i >> 6] >> (i & 63) & 1) INC(reach[i], 1);
  bool smp = k <= 2 || (k & (k - 1)) == 0 || mix64(k * 1000003 + curEntry + seed) % 53 == 0;
  if (smp && S->samples < sampleMax) { u64 n = INC(samples, 1); if (n <= sampleMax) scramble(k), writeFile(outDir + "/sample_" + std::to_string(curEntry) + "_" + std::to_string(n) + ".json", "{\"entry\":\"" + entries[curEntry] + "\",\"blocked\":" + (how == 2 ? "true" : "false") + ",\"inputs\":" + inputsStr(model) + ",\"trace\":" + traceStr(model) + "}"); }
  finish(0); }

static void checkStop() { if (sh->stop) finish(0); if (now() - t0 > budget) { sh->timedOut = 1; sh->stop = 1; finish(0); } }
// Split the current path in two; true in the child.
static bool doFork() {
  checkStop(); flush(); INC(forks, 1); forkDepth++; if (forkDepth > S->maxDepth) S->maxDepth = forkDepth;
  char c; bool tok = read(tokR, &c, 1) == 1; fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) { usleep(200000); p = fork(); if (p < 0) die("fork failed"); }
  if (p == 0) { ownToken = tok; insCount = 0; return true; }
  if (!tok) { int st; while (waitpid(p, &st, 0) < 0) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { INC(errors, 1); sh->stop = 1; } checkStop(); }
  else { int st; pid_t q; while ((q = waitpid(-1, &st, WNOHANG)) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { INC(errors, 1); sh->stop = 1; } }
  return false; }
static bool hasUndef(Z3_ast e, std::unordered_map<u32, bool> &seen, vector<Z3_ast> &us) {
  u32 id = Z3_get_ast_id(Z, e); auto it = seen.find(id); if (it != seen.end()) return it->second; bool r = false; seen[id] = false; if (Z3_get_ast_kind(Z, e) == Z3_APP_AST) { u32 n = Z3_get_app_num_args(Z, Z3_to_app(Z, e)); if (n == 0) { Z3_symbol sy = Z3_get_decl_name(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e))); if (Z3_get_symbol_kind(Z, sy) == Z3_STRING_SYMBOL && !strncmp(Z3_get_symbol_string(Z, sy), "undef!", 6)) { us.push_back(e); r = true; } } for (u32 i = 0; i < n; i++) r |= hasUndef(arg(e, i), seen, us); } seen[id] = r; return r; }
// a decision that depends on uninitialised bytes is a violation
static void taintCheck(Z3_ast cond, const char *what) {
  std::unordered_map<u32, bool> seen; vector<Z3_ast> us, fs; if (!hasUndef(cond, seen, us)) return; for (auto u : us) fs.push_back(fresh("undefalt", bw(u), undN++)); Z3_ast alt = Z3_substitute(Z, cond, us.size(), us.data(), fs.data()); Z3_model m; if (check(Z3_mk_not(Z, Z3_mk_eq(Z, cond, alt)), &m) == Z3_L_TRUE) violation(m, "uninit", 0, "%s depends on uninitialised memory", what); }
static bool decide(Z3_ast cond, bool taint) {
  cond = Z3_simplify(Z, cond); u128 c; if (isNum(cond, c)) return c; INC(branchesDecided, 1);
  bool side = evalM(model, cond); Z3_ast pos = side ? cond : mkNot(cond), neg = side ? mkNot(cond) : cond; Z3_model m2;
  if (check(neg, &m2) == Z3_L_FALSE) return side;
  if (taint) taintCheck(cond, "a branch");
  if (doFork()) { pcAdd(neg); model = m2; return !side; }
  pcAdd(pos); return side; }
static u128 concretize(const Val &v0, u32 w, const char *what, bool addr = false) {
  if (!v0.e) { if (v0.fl & F_UNDEF) VIOL("uninit", "%s is uninitialised", what); return v0.c; }
  Z3_ast e = Z3_simplify(Z, v0.e); u128 c; if (isNum(e, c)) return c; if (v0.fl & F_TAINT) taintCheck(w == 1 ? e : Z3_mk_eq(Z, e, E(C(evalM(model, e), w), w)), what);
  if (addr) { u128 a = evalM(model, e); Obj *o = lookup(a); if (o && o->live) { Z3_model m; Z3_ast lo = Z3_mk_bvult(Z, e, num(o->base, 64)), hi = Z3_mk_bvugt(Z, e, num(o->base + o->size, 64)), d[2] = {lo, hi}; if (check(Z3_mk_or(Z, 2, d), &m) == Z3_L_TRUE && (u64)evalM(m, e) >> 32 == o->base >> 32) violation(m, "memory", 0, "symbolic address leaves its object (%llu bytes): offset %lld possible", (unsigned long long)o->size, (long long)((u64)evalM(m, e) - o->base)); } }
  for (int it = 0;; it++) { if (it > 600) engineError("too many values for %s", what); u128 a = evalM(model, e); Z3_ast eq = w == 1 ? (a ? e : mkNot(e)) : Z3_mk_eq(Z, e, num128(a, w)); INC(concretised, 1); Z3_model m2; if (check(mkNot(eq), &m2) == Z3_L_FALSE) { pcAdd(eq); return a; }
    if (doFork()) { pcAdd(mkNot(eq)); model = m2; continue; } pcAdd(eq); return a; } }

static const char *kindName(Obj *o) { return o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : o->kind == OK_FN ? "function" : "static"; }
static Obj *access(u64 a, u64 n, u32 align, bool wr, u64 &off) {
  Obj *o = lookup(a); if (!o) { if (a < 4096 && a == 0) VIOL("memory", "%s through a null pointer", wr ? "write" : "read"); VIOL("memory", "%s of %llu bytes through a dangling pointer %#llx", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a); }
  if (!o->live) VIOL("memory", "%s of %llu bytes after free of a %s object of %llu bytes", wr ? "write" : "read", (unsigned long long)n, kindName(o), (unsigned long long)o->size);
  if (a < o->base || a + n > o->base + o->size) VIOL("memory", "%s of %llu bytes at offset %lld of a %s object of %llu bytes", wr ? "write" : "read", (unsigned long long)n, (long long)(a - o->base), kindName(o), (unsigned long long)o->size);
  if (align > 1 && a % align) VIOL("memory", "misaligned %s: offset %llu of a %u-aligned %s object, need %u", wr ? "write" : "read", (unsigned long long)(a - o->base), o->align, kindName(o), align);
  if (wr && o->ro) VIOL("memory", "write to constant memory");
  if (o->ext) { if (!gPanic || o->base != gPanic->addr) engineError("access to external global %s", o->nm ? o->nm : "?"); }
  off = a - o->base; return o; }
static Val loadS(Obj *o, u64 off, u32 w) {
  u32 n = bytesOf(w); const u8 *st = o->st + off; bool conc = true, und = true; for (u32 i = 0; i < n; i++) { if (st[i]) conc = false; if (st[i] != 1) und = false; }
  if (conc) { u128 v = 0; memcpy(&v, o->d + off, n); return Val{v & maskw(w), nullptr, 0}; }
  if (und) return Val{0, nullptr, F_UNDEF};
  u8 fl = 0; Z3_ast r = nullptr; // build from runs, low to high
  for (u32 i = 0; i < n;) { Z3_ast part; u32 j = i;
    if (st[i] >= 2) { SymByte &b = o->sy[off + i]; while (j < n && st[j] >= 2 && o->sy[off + j].e == b.e && o->sy[off + j].idx == b.idx + (j - i)) { if (st[j] == 3) fl = F_TAINT; j++; } part = mkExtract((b.idx + (j - i)) * 8 - 1, b.idx * 8, b.e); }
    else if (st[i] == 1) { while (j < n && st[j] == 1) j++; part = fresh("undef", (j - i) * 8, undN++); fl = F_TAINT; }
    else { while (j < n && st[j] == 0 && j - i < 8) j++; u64 v = 0; memcpy(&v, o->d + off + i, j - i); part = num(v, (j - i) * 8); }
    r = r ? Z3_mk_concat(Z, part, r) : part; i = j; }
  if (w < n * 8) { if (w == 1) r = bv2b(r); else r = mkExtract(w - 1, 0, r); }
  return mkS(r, fl); }
static void storeS(Obj *o, u64 off, u32 w, const Val &v) {
  u32 n = bytesOf(w); u8 *st = o->st + off; if (!v.e) { if (v.fl & F_UNDEF) { memset(st, 1, n); return; } memcpy(o->d + off, &v.c, n); memset(st, 0, n); return; }
  if (!o->sy) { o->sy = (SymByte *)malloc(sizeof(SymByte) * (o->size + 1)); if (!o->sy) die("oom"); }
  Z3_ast e = v.e; if (w == 1) e = b2bv(e, 8); else if (w < n * 8) e = Z3_mk_zero_ext(Z, n * 8 - w, e);
  for (u32 i = 0; i < n; i++) { o->sy[off + i] = SymByte{e, (u16)(n * 8), (u16)i}; st[i] = v.fl & F_TAINT ? 3 : 2; } }
static void copyBytes(u64 d, u64 s, u64 n) {
  if (!n) return; u64 so, dof; Obj *a = access(s, n, 1, false, so), *b = access(d, n, 1, true, dof); bool anySym = false; if (a->sy) for (u64 i = 0; i < n; i++) if (a->st[so + i] >= 2) { anySym = true; break; }
  if (anySym) { if (!b->sy) { b->sy = (SymByte *)malloc(sizeof(SymByte) * (b->size + 1)); } memmove(b->sy + dof, a->sy + so, n * sizeof(SymByte)); }
  memmove(b->d + dof, a->d + so, n); memmove(b->st + dof, a->st + so, n); }

// ------------------------------------------------------------------ classification of functions without usable body
static bool has(const string &s, const char *x) { return s.find(x) != string::npos; }
enum { V_SYM = 1, V_CHOICE, V_ASSUME, V_ASSERT, V_REACH, V_STATE, V_TRACE, V_KNOWN, V_EXPECT_BLOCK, V_PARAM, V_NOLEAK, V_REUSE, V_EQ };
enum { N_NOP = 1, N_MEMCPY, N_MEMMOVE, N_MEMSET, N_CTTZ, N_CTLZ, N_CTPOP, N_UMIN, N_UMAX, N_SMIN, N_SMAX, N_UADDSAT, N_USUBSAT, N_UCMP, N_SCMP, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_ISCONST, N_EXPECT, N_ASSUME, N_TRAP, N_BSWAP, N_FSHL, N_FSHR, N_TLS, N_PTRMASK, N_ABS, N_BITREV, N_SADDSAT, N_SSUBSAT };
static bool isPanicName(const string &n) {
  static const char *pn[] = {"9panicking", "unwrap_failed", "expect_failed", "slice_index_fail", "assert_failed", "panic_for", "panic_on_ord", "raw_vec12handle_error", "capacity_overflow", "panic_fmt", "5panic", "slice_error_fail", "len_mismatch_fail", "panic_already", "_fail", "panic_display", "already_borrowed"};
  for (auto p : pn) if (has(n, p)) return true; return false; }
void classify(Function *f) {
  const string &n = f->name;
  if (n.compare(0, 5, "llvm.") == 0) { f->kind = FK_INTRIN; static const struct { const char *p; int k; } t[] = {{"llvm.memcpy", N_MEMCPY}, {"llvm.memmove", N_MEMMOVE}, {"llvm.memset", N_MEMSET}, {"llvm.cttz", N_CTTZ}, {"llvm.ctlz", N_CTLZ}, {"llvm.ctpop", N_CTPOP}, {"llvm.umin", N_UMIN}, {"llvm.umax", N_UMAX}, {"llvm.smin", N_SMIN}, {"llvm.smax", N_SMAX}, {"llvm.uadd.sat", N_UADDSAT}, {"llvm.usub.sat", N_USUBSAT}, {"llvm.ucmp", N_UCMP}, {"llvm.scmp", N_SCMP}, {"llvm.uadd.with", N_UADDO}, {"llvm.usub.with", N_USUBO}, {"llvm.umul.with", N_UMULO}, {"llvm.sadd.with", N_SADDO}, {"llvm.ssub.with", N_SSUBO}, {"llvm.smul.with", N_SMULO}, {"llvm.is.constant", N_ISCONST}, {"llvm.expect", N_EXPECT}, {"llvm.assume", N_ASSUME}, {"llvm.trap", N_TRAP}, {"llvm.ubsantrap", N_TRAP}, {"llvm.lifetime", N_NOP}, {"llvm.dbg", N_NOP}, {"llvm.experimental.noalias", N_NOP}, {"llvm.donothing", N_NOP}, {"llvm.prefetch", N_NOP}, {"llvm.bswap", N_BSWAP}, {"llvm.bitreverse", N_BITREV}, {"llvm.sadd.sat", N_SADDSAT}, {"llvm.ssub.sat", N_SSUBSAT}, {"llvm.fshl", N_FSHL}, {"llvm.fshr", N_FSHR}, {"llvm.threadlocal.address", N_TLS}, {"llvm.abs", N_ABS}, {"llvm.x86.sse2.pause", N_NOP}};
    for (auto &x : t) if (!n.compare(0, strlen(x.p), x.p)) { f->sub = x.k; return; } f->kind = FK_UNKNOWN; return; }
  static const struct { const char *p; int k; } vt[] = {{"v_sym", V_SYM}, {"v_choice", V_CHOICE}, {"v_assume", V_ASSUME}, {"v_assert", V_ASSERT}, {"v_reach", V_REACH}, {"v_state", V_STATE}, {"v_trace", V_TRACE}, {"v_known", V_KNOWN}, {"v_expect_block", V_EXPECT_BLOCK}, {"v_param", V_PARAM}, {"v_noleak", V_NOLEAK}, {"v_reuse", V_REUSE}, {"v_eq", V_EQ}};
  for (auto &x : vt) if (n == x.p) { f->kind = FK_V; f->sub = x.k; return; }
  // allocator shims: models even when a shim body is present
  if (has(n, "14___rust_realloc")) { f->kind = FK_REALLOC; return; } if (has(n, "19___rust_alloc_zeroed")) { f->kind = FK_ALLOCZ; return; } if (has(n, "14___rust_dealloc")) { f->kind = FK_DEALLOC; return; } if (has(n, "12___rust_alloc") && !has(n, "error_handler")) { f->kind = FK_ALLOC; return; } if (has(n, "no_alloc_shim_is_unstable")) { f->kind = FK_NOP; return; }
  // keys of the randomised hasher: one fixed choice. What is printed is not looked at. Destructors of thread locals do not run.
  if (has(n, "19hashmap_random_keys")) { f->kind = FK_RANDKEYS; return; }
  if (has(n, "5stdio6__print") || has(n, "5stdio7__eprint") || (has(n, "12thread_local11destructors") && has(n, "8register"))) { f->kind = FK_NOP; return; }
  // RwLock slow paths
  if (has(n, "14read_contended") || has(n, "15write_contended")) { f->kind = FK_BLOCK; return; } if (has(n, "22wake_writer_or_readers")) { f->kind = FK_NOP; return; }
  if (has(n, "panicking12catch_unwind7cleanup")) { f->kind = FK_CATCH_CLEANUP; return; }
  if (has(n, "panic_count17is_zero_slow_path")) { f->kind = FK_ISZERO; return; }
  // panics that do not unwind
  if (has(n, "panic_nounwind") || has(n, "panic_cannot_unwind") || has(n, "panic_in_cleanup") || has(n, "panic_null_") || has(n, "panic_misaligned") || has(n, "panic_invalid_enum") || has(n, "handle_alloc_error") || n == "abort" || has(n, "process5abort") || has(n, "9panicking17rust_panic_cleanup")) { if (!f->hasBody) { f->kind = FK_ABORT; return; } }
  if (has(n, "4core9panicking") && has(n, "precondition_check")) { }
  if (has(n, "11begin_panic") && has(n, "std")) { f->kind = FK_PANIC; return; }
  if (has(n, "16todo_default_msg") ) { f->kind = FK_PANIC; return; }
  if (f->hasBody) { f->kind = FK_BODY; return; }
  if (n == "memcmp") { f->kind = FK_MEMCMP; return; } if (n == "bcmp") { f->kind = FK_BCMP; return; }
  if (has(n, "5drift11sqrt_approx")) { f->kind = FK_SQRT; return; }
  if (isPanicName(n)) { f->kind = FK_PANIC; return; }
  f->kind = FK_UNKNOWN; }
bool libModelled(const string &n) { return isPanicName(n); }

// ------------------------------------------------------------------ execution
static void pushFrame(Function *f) {
  if (fr.size() > 3000) VIOL("hang", "call depth exceeds 3000 frames"); if (rtop + f->nslots + 16 > RMAX) die("register stack"); fr.push_back(Frame{f, &f->bb[0], 0, -1, rtop, stkTop, arenaTop}); rtop += f->nslots; if (!fcov[f->id]) fcov[f->id] = 1; if (f->repo) bcov[bcovBase[f->id]] = 1; }
static void popFrame() { Frame &t = fr.back(); popStack(t.smark, t.amark); rtop = t.rb; fr.pop_back(); }
static inline const Val *V(Op o) { return o.c ? &prog.cpool[o.i] : &R[fr.back().rb + o.i]; }
static void gotoBB(Frame &t, int b) {
  int from = t.bb - &t.f->bb[0]; t.prev = from; Block *nb = &t.f->bb[b];
  if (nb->nphi) { static vector<Val> tmp; tmp.clear(); for (u32 i = 0; i < nb->nphi; i++) { Instr &I = nb->ins[i]; bool ok = false; for (auto &x : *I.ph) if (x.bb == from) { const Val *s = x.o.c ? &prog.cpool[x.o.i] : &R[t.rb + x.o.i]; for (u32 k = 0; k < I.n; k++) tmp.push_back(s[k]); ok = true; break; } if (!ok) die("phi"); }
    u32 q = 0; for (u32 i = 0; i < nb->nphi; i++) { Instr &I = nb->ins[i]; for (u32 k = 0; k < I.n; k++) R[t.rb + I.dst + k] = tmp[q++]; } }
  t.bb = nb; t.ip = nb->nphi; if (t.f->repo) bcov[bcovBase[t.f->id] + b] = 1; }
static void setPanicGlobal() { if (gPanic) { Obj &o = gobjs[gPanic->obj]; memcpy(o.d, &panicCount, 8); memset(o.st, 0, 8); } }
// unwind from the current instruction of the top frame
static void unwindFrom(Val p0, Val p1) {
  for (;;) { if (fr.empty()) { violation(model, "panic", 0, "panic not caught: %s", lastPanic.c_str()); }
    Frame &t = fr.back(); Instr &I = t.bb->ins[t.ip]; if (I.op == I_INVOKE) { gotoBB(t, I.bb2); Instr &L = t.bb->ins[t.ip]; if (L.op != I_LPAD) die("no landingpad"); R[t.rb + L.dst] = p0; R[t.rb + L.dst + 1] = p1; t.ip++; return; } popFrame(); } }
static string readStr(u64 p, u64 n) { string r; Obj *o = lookup(p); if (!o || !o->live || p < o->base || p + n > o->base + o->size || n > 300) return ""; for (u64 i = 0; i < n; i++) r += (char)o->d[p - o->base + i]; return r; }
static string locStr(u64 p) { Obj *o = lookup(p); if (!o || !o->live || o->kind != OK_GLOBAL || p < o->base || p + 24 > o->base + o->size) return ""; u64 sp, sl; u32 ln, co; memcpy(&sp, o->d + (p - o->base), 8); memcpy(&sl, o->d + (p - o->base) + 8, 8); memcpy(&ln, o->d + (p - o->base) + 16, 4); memcpy(&co, o->d + (p - o->base) + 20, 4); if (sl > 200) return ""; string s = readStr(sp, sl); if (s.empty() || s.find(".rs") == string::npos) return ""; return s.substr(0, s.find('\0')) + ":" + std::to_string(ln) + ":" + std::to_string(co); }
static string panicMsg(Function *f, CallInfo *ci) { string s = demangle(f->name), m, l; for (size_t i = 0; i < ci->args.size(); i++) { const Val *v = V(ci->args[i]); if (ci->argw[i] == 64 && !v->e && (u64)v->c >> 32) { string t = locStr(v->c); if (!t.empty()) l = t; else if (m.empty() && i + 1 < ci->args.size() && !V(ci->args[i + 1])->e) { string q = readStr(v->c, (u64)V(ci->args[i + 1])->c); if (!q.empty()) m = q; } } } return s.substr(0, 120) + (m.empty() ? "" : " '" + m + "'") + (l.empty() ? "" : " at " + l); }
static void doPanic(Function *f, CallInfo *ci) { lastPanic = panicMsg(f, ci); panicCount++; setPanicGlobal(); if (panicCount > 1) VIOL("abort", "panic while panicking: %s", lastPanic.c_str()); unwindFrom(C(0x5000, 64), C(1, 32)); }

static void ubCheck(Z3_ast bad, const char *what) { bad = Z3_simplify(Z, bad); u128 c; if (isNum(bad, c)) { if (c) VIOL("ub", "%s", what); return; } Z3_model m; if (check(bad, &m) == Z3_L_TRUE) violation(m, "ub", 0, "%s", what); }
static Val icmp(u8 p, u32 w, const Val &a0, const Val &b0) {
  if (!a0.e && !b0.e && !((a0.fl | b0.fl) & F_UNDEF)) { u128 a = a0.c, b = b0.c; i128 sa = (i128)(a << (128 - w)) >> (128 - w), sb = (i128)(b << (128 - w)) >> (128 - w); bool r; switch (p) { case P_EQ: r = a == b; break; case P_NE: r = a != b; break; case P_UGT: r = a > b; break; case P_UGE: r = a >= b; break; case P_ULT: r = a < b; break; case P_ULE: r = a <= b; break; case P_SGT: r = sa > sb; break; case P_SGE: r = sa >= sb; break; case P_SLT: r = sa < sb; break; default: r = sa <= sb; } return Val{r, nullptr, 0}; }
  Val av = useV(a0, w), bv = useV(b0, w); u8 fl = (av.fl | bv.fl) & F_TAINT; Z3_ast a = E(av, w), b = E(bv, w), r;
  if (a == b) { bool t = p == P_EQ || p == P_UGE || p == P_ULE || p == P_SGE || p == P_SLE; return Val{t, nullptr, 0}; }
  if (w == 1) { switch (p) { case P_EQ: r = Z3_mk_iff(Z, a, b); break; case P_NE: r = Z3_mk_xor(Z, a, b); break; case P_ULT: case P_SGT: { Z3_ast x[2] = {mkNot(a), b}; r = Z3_mk_and(Z, 2, x); break; } case P_UGT: case P_SLT: { Z3_ast x[2] = {a, mkNot(b)}; r = Z3_mk_and(Z, 2, x); break; } case P_ULE: case P_SGE: { Z3_ast x[2] = {mkNot(a), b}; r = Z3_mk_or(Z, 2, x); break; } default: { Z3_ast x[2] = {a, mkNot(b)}; r = Z3_mk_or(Z, 2, x); } } return mkS(r, fl); }
  // ite(c, k1, k2) compared with a constant
  auto ite = [&](Z3_ast x, Z3_ast y) -> Z3_ast { u128 k1, k2, k; if (dk(x) != Z3_OP_ITE || !isNum(y, k) || !isNum(arg(x, 1), k1) || !isNum(arg(x, 2), k2)) return nullptr; bool q1 = k1 == k, q2 = k2 == k; Z3_ast c = arg(x, 0); if (q1 && q2) return TRUE_; if (q1) return c; if (q2) return mkNot(c); return FALSE_; };
  if (p == P_EQ || p == P_NE) { Z3_ast t = ite(a, b); if (!t) t = ite(b, a); if (!t) t = Z3_mk_eq(Z, a, b); return mkS(p == P_EQ ? t : mkNot(t), fl); }
  switch (p) { case P_UGT: r = Z3_mk_bvugt(Z, a, b); break; case P_UGE: r = Z3_mk_bvuge(Z, a, b); break; case P_ULT: r = Z3_mk_bvult(Z, a, b); break; case P_ULE: r = Z3_mk_bvule(Z, a, b); break; case P_SGT: r = Z3_mk_bvsgt(Z, a, b); break; case P_SGE: r = Z3_mk_bvsge(Z, a, b); break; case P_SLT: r = Z3_mk_bvslt(Z, a, b); break; default: r = Z3_mk_bvsle(Z, a, b); }
  return mkS(r, fl); }
static Val binop(Instr &I, u8 op, u32 w, const Val &a0, const Val &b0) {
  if (!a0.e && !b0.e && !((a0.fl | b0.fl) & F_UNDEF)) { u128 a = a0.c, b = b0.c, r = 0, m = maskw(w); i128 sa = (i128)(a << (128 - w)) >> (128 - w), sb = (i128)(b << (128 - w)) >> (128 - w);
    switch (op) { case B_ADD: r = a + b; if (I.nuw && ((r & m) < a)) VIOL("ub", "unchecked add overflows"); break; case B_SUB: r = a - b; if (I.nuw && a < b) VIOL("ub", "unchecked subtraction underflows"); break;
      case B_MUL: r = a * b; if (I.nuw && a && w <= 64 && r > m) VIOL("ub", "unchecked multiplication overflows"); break; case B_UDIV: if (!b) VIOL("ub", "division by zero"); r = a / b; break; case B_UREM: if (!b) VIOL("ub", "remainder by zero"); r = a % b; break; case B_SDIV: if (!b) VIOL("ub", "division by zero"); r = sa / sb; break; case B_SREM: if (!b) VIOL("ub", "remainder by zero"); r = sa % sb; break;
      case B_SHL: if (b >= w) VIOL("ub", "shift amount out of range"); r = a << b; break; case B_LSHR: if (b >= w) VIOL("ub", "shift amount out of range"); r = a >> b; break; case B_ASHR: if (b >= w) VIOL("ub", "shift amount out of range"); r = sa >> b; break; case B_AND: r = a & b; break; case B_OR: r = a | b; break; case B_XOR: r = a ^ b; break; case B_XCHG: r = b; break; case B_UMAX: r = a > b ? a : b; break; case B_UMIN: r = a < b ? a : b; break; default: engineError("binop %d", op); }
    return Val{r & m, nullptr, 0}; }
  Val av = useV(a0, w), bv = useV(b0, w); u8 fl = (av.fl | bv.fl) & F_TAINT;
  auto isC = [&](const Val &v, u128 k) { return !v.e && v.c == k; };
  if (op == B_AND) { if (isC(av, 0) || isC(bv, 0)) return C(0, w); if (isC(av, maskw(w))) return bv; if (isC(bv, maskw(w))) return av; }
  if (op == B_OR || op == B_XOR || op == B_ADD) { if (isC(av, 0)) return bv; if (isC(bv, 0)) return av; }
  if ((op == B_SUB || op == B_SHL || op == B_LSHR || op == B_ASHR) && isC(bv, 0)) return av; if (op == B_XCHG) return bv;
  if (op == B_MUL) { if (isC(av, 0) || isC(bv, 0)) return C(0, w); if (isC(av, 1)) return bv; if (isC(bv, 1)) return av; }
  Z3_ast a = E(av, w), b = E(bv, w), r;
  if (w == 1) { Z3_ast x[2] = {a, b}; switch (op) { case B_AND: case B_MUL: r = Z3_mk_and(Z, 2, x); break; case B_OR: r = Z3_mk_or(Z, 2, x); break; case B_XOR: case B_ADD: case B_SUB: r = isC(av, 1) ? mkNot(b) : isC(bv, 1) ? mkNot(a) : Z3_mk_xor(Z, a, b); break; default: engineError("i1 binop"); } return mkS(r, fl); }
  switch (op) { case B_ADD: if (I.nuw) ubCheck(Z3_mk_not(Z, Z3_mk_bvadd_no_overflow(Z, a, b, false)), "unchecked add overflows"); r = Z3_mk_bvadd(Z, a, b); break; case B_SUB: if (I.nuw) ubCheck(Z3_mk_bvult(Z, a, b), "unchecked subtraction underflows"); r = Z3_mk_bvsub(Z, a, b); break; case B_MUL: if (I.nuw) ubCheck(Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, a, b, false)), "unchecked multiplication overflows"); r = Z3_mk_bvmul(Z, a, b); break;
    case B_UDIV: ubCheck(Z3_mk_eq(Z, b, num(0, w)), "division by zero"); r = Z3_mk_bvudiv(Z, a, b); break; case B_UREM: ubCheck(Z3_mk_eq(Z, b, num(0, w)), "remainder by zero"); r = Z3_mk_bvurem(Z, a, b); break; case B_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break; case B_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
    case B_SHL: ubCheck(Z3_mk_bvuge(Z, b, num(w, w)), "shift amount out of range"); r = Z3_mk_bvshl(Z, a, b); break; case B_LSHR: ubCheck(Z3_mk_bvuge(Z, b, num(w, w)), "shift amount out of range"); r = Z3_mk_bvlshr(Z, a, b); break; case B_ASHR: ubCheck(Z3_mk_bvuge(Z, b, num(w, w)), "shift amount out of range"); r = Z3_mk_bvashr(Z, a, b); break;
    case B_AND: r = Z3_mk_bvand(Z, a, b); break; case B_OR: r = Z3_mk_bvor(Z, a, b); break; case B_XOR: r = Z3_mk_bvxor(Z, a, b); break; case B_UMAX: r = Z3_mk_ite(Z, Z3_mk_bvugt(Z, a, b), a, b); break; case B_UMIN: r = Z3_mk_ite(Z, Z3_mk_bvult(Z, a, b), a, b); break; default: engineError("binop %d", op); }
  if (op == B_AND || op == B_SUB || op == B_XOR || op == B_LSHR) { Z3_ast s = Z3_simplify(Z, r); u128 c; if (isNum(s, c)) return Val{c, nullptr, 0}; }
  return mkS(r, fl); }
static Val castV(u8 op, u32 sw, u32 w, const Val &a, bool nuw) {
  if (a.fl & F_UNDEF && !a.e) return a;
  if (!a.e) { u128 v = a.c; if (op == I_SEXT) v = (u128)((i128)(v << (128 - sw)) >> (128 - sw)); if (op == I_TRUNC && nuw && (v & ~maskw(w))) VIOL("ub", "value %llu invalid for its type", (unsigned long long)v); return Val{v & maskw(w), nullptr, 0}; }
  Z3_ast e = a.e, r; if (op == I_TRUNC) { if (nuw && dk(e) != Z3_OP_ITE) { ubCheck(Z3_mk_not(Z, Z3_mk_eq(Z, mkExtract(sw - 1, w, e), num(0, sw - w))), "value invalid for its type"); } r = w == 1 ? bv2b(e) : mkExtract(w - 1, 0, e); }
  else if (op == I_ZEXT) { if (sw == 1) r = b2bv(e, w); else if (dk(e) == Z3_OP_ITE && [&] { u128 x, y; return isNum(arg(e, 1), x) && isNum(arg(e, 2), y) && x <= 1 && y <= 1; }()) { u128 x, y; isNum(arg(e, 1), x); isNum(arg(e, 2), y); r = Z3_mk_ite(Z, arg(e, 0), num(x, w), num(y, w)); } else r = Z3_mk_zero_ext(Z, w - sw, e); }
  else r = sw == 1 ? Z3_mk_ite(Z, e, num128(maskw(w), w), num(0, w)) : Z3_mk_sign_ext(Z, w - sw, e);
  return mkS(r, a.fl); }
static Val selectV(const Val &c, const Val &a, const Val &b, u32 w) {
  if (!c.e && !(c.fl & F_UNDEF)) return c.c & 1 ? a : b; Val cv = useV(c, 1); if (!a.e && !b.e && !((a.fl | b.fl) & F_UNDEF) && a.c == b.c) return a; if (a.e && a.e == b.e) return a; u8 fl = (cv.fl | a.fl | b.fl) & F_TAINT; if ((a.fl | b.fl) & F_UNDEF) fl |= F_TAINT; Z3_ast x = E(a, w), y = E(b, w); return mkS(Z3_mk_ite(Z, cv.e ? cv.e : E(cv, 1), x, y), fl); }
static u32 leafW(Type *t) { return t->k == T_PTR ? 64 : t->w; }
static Val cttz(const Val &a, u32 w) { if (!a.e) { u32 n = 0; while (n < w && !((a.c >> n) & 1)) n++; return C(n, w); } Z3_ast r;
  if (w == 64 || w == 32) { // binary search for the lowest one
    Z3_ast x = a.e, bits[6]; int nb = w == 64 ? 6 : 5; for (int k = nb - 1; k >= 0; k--) { u32 h = 1u << k; Z3_ast lo = Z3_mk_extract(Z, h - 1, 0, x), hi = Z3_mk_extract(Z, 2 * h - 1, h, x), z = Z3_mk_eq(Z, lo, num(0, h)); bits[k] = Z3_mk_ite(Z, z, num(1, 1), num(0, 1)); x = Z3_mk_ite(Z, z, hi, lo); }
    r = bits[nb - 1]; for (int k = nb - 2; k >= 0; k--) r = Z3_mk_concat(Z, r, bits[k]); r = Z3_mk_zero_ext(Z, w - nb, r); r = Z3_mk_ite(Z, Z3_mk_eq(Z, a.e, num(0, w)), num(w, w), r); return mkS(r, a.fl); }
  r = num(w, w); for (int i = w - 1; i >= 0; i--) r = Z3_mk_ite(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, a.e), num(1, 1)), num(i, w), r); return mkS(r, a.fl); }
static Val ctlz(const Val &a, u32 w) { if (!a.e) { u32 n = 0; while (n < w && !((a.c >> (w - 1 - n)) & 1)) n++; return C(n, w); } Z3_ast r = num(w, w); for (u32 i = 0; i < w; i++) r = Z3_mk_ite(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, a.e), num(1, 1)), num(w - 1 - i, w), r); return mkS(r, a.fl); }
static void retTo(Instr &I, const Val *v, u32 n) { Frame &t = fr.back(); if (I.dst >= 0) for (u32 k = 0; k < n; k++) R[t.rb + I.dst + k] = v[k]; }
static void advance(Instr &I) { Frame &t = fr.back(); if (I.op == I_INVOKE) gotoBB(t, I.bb1); else t.ip++; }
static void markReach(u32 id) { if (id < 256) pathReach[id >> 6] |= 1ull << (id & 63); }

// A read of a small constant table at a symbolic place: the value is chosen by the solver, one case per place.
static bool tableRead(const Val *p, u64 n, u32 align, u32 w, Val &out) {
  if (!p->e || (p->fl & F_TAINT) || w % 8 || w > 64 || n != w / 8) return false; Z3_ast e = Z3_simplify(Z, p->e); u128 c; if (isNum(e, c)) return false;
  Obj *o = lookup((u64)evalM(model, e)); if (!o || !o->live || !o->ro || o->ext || o->kind != OK_GLOBAL || o->size > 256 || o->size < n || !align) return false;
  Z3_ast off = Z3_mk_bvsub(Z, e, num(o->base, 64)); Z3_model m; Z3_ast bad[2] = {Z3_mk_bvugt(Z, off, num(o->size - n, 64)), mkNot(Z3_mk_eq(Z, Z3_mk_bvurem(Z, e, num(align, 64)), num(0, 64)))};
  if (check(align > 1 ? Z3_mk_or(Z, 2, bad) : bad[0], &m) != Z3_L_FALSE) return false;
  Z3_ast r = nullptr; for (u64 k = 0; k + n <= o->size; k++) { if ((o->base + k) % align) continue; Val v = loadS(o, k, w); if (v.fl) return false; r = r ? Z3_mk_ite(Z, Z3_mk_eq(Z, off, num(k, 64)), E(v, w), r) : E(v, w); }
  out = Val{0, Z3_simplify(Z, r), 0}; return true; }
static void memAccessible(u64 a, u64 n, bool wr) { if (n) { u64 off; access(a, n, 1, wr, off); } }
static void intrinsic(Instr &I, Function *f) {
  CallInfo &ci = *I.ci; auto A = [&](int i) -> const Val & { return *V(ci.args[i]); }; u32 w = ci.argw.empty() ? 0 : ci.argw[0]; Val r{0, nullptr, 0}; u32 nr = 1; Val rr[2]; (void)rr;
  if (!ci.args.empty() && ci.argn[0] > 1) engineError("vector intrinsic %s", f->name.c_str());
  switch (f->sub) {
  case N_NOP: nr = 0; break;
  case N_MEMCPY: case N_MEMMOVE: { u64 d = concretize(A(0), 64, "memcpy destination", true), s = concretize(A(1), 64, "memcpy source", true), n = concretize(A(2), 64, "memcpy length"); if (n) { if (ci.argAlign[0] & 0x7fffffff) if (d % (ci.argAlign[0] & 0x7fffffff)) VIOL("memory", "misaligned copy destination"); if (ci.argAlign[1] & 0x7fffffff) if (s % (ci.argAlign[1] & 0x7fffffff)) VIOL("memory", "misaligned copy source"); if (f->sub == N_MEMCPY && d != s && d < s + n && s < d + n) VIOL("ub", "copy_nonoverlapping of overlapping ranges"); copyBytes(d, s, n); } nr = 0; break; }
  case N_MEMSET: { u64 d = concretize(A(0), 64, "memset destination", true), n = concretize(A(2), 64, "memset length"); if (n) { u64 off; Obj *o = access(d, n, 1, true, off); const Val &v = A(1); for (u64 i = 0; i < n; i++) storeS(o, off + i, 8, v); } nr = 0; break; }
  case N_CTTZ: r = cttz(useV(A(0), w), w); break; case N_CTLZ: r = ctlz(useV(A(0), w), w); break;
  case N_CTPOP: { Val a = useV(A(0), w); if (!a.e) r = C(__builtin_popcountll((u64)a.c) + __builtin_popcountll((u64)(a.c >> 64)), w); else { Z3_ast s = num(0, w); for (u32 i = 0; i < w; i++) s = Z3_mk_bvadd(Z, s, Z3_mk_zero_ext(Z, w - 1, Z3_mk_extract(Z, i, i, a.e))); r = mkS(s, a.fl); } break; }
  case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: { Val c = icmp(f->sub == N_UMIN ? P_ULT : f->sub == N_UMAX ? P_UGT : f->sub == N_SMIN ? P_SLT : P_SGT, w, A(0), A(1)); r = selectV(c, A(0), A(1), w); break; }
  case N_UADDSAT: { Instr t{}; Val s = binop(t, B_ADD, w, A(0), A(1)); r = selectV(icmp(P_ULT, w, s, A(0)), C(maskw(w), w), s, w); break; }
  case N_USUBSAT: { Instr t{}; Val s = binop(t, B_SUB, w, A(0), A(1)); r = selectV(icmp(P_ULT, w, A(0), A(1)), C(0, w), s, w); break; }
  case N_UCMP: case N_SCMP: { u32 rw = I.ty->w; bool s = f->sub == N_SCMP; Val lt = icmp(s ? P_SLT : P_ULT, w, A(0), A(1)), gt = icmp(s ? P_SGT : P_UGT, w, A(0), A(1)); r = selectV(lt, C(maskw(rw), rw), selectV(gt, C(1, rw), C(0, rw), rw), rw); break; }
  case N_UADDO: { Instr t{}; rr[0] = binop(t, B_ADD, w, A(0), A(1)); rr[1] = icmp(P_ULT, w, rr[0], A(0)); nr = 2; break; }
  case N_USUBO: { Instr t{}; rr[0] = binop(t, B_SUB, w, A(0), A(1)); rr[1] = icmp(P_ULT, w, A(0), A(1)); nr = 2; break; }
  case N_UMULO: case N_SMULO: { Val a = useV(A(0), w), b = useV(A(1), w); bool sg = f->sub == N_SMULO; if (!a.e && !b.e && w <= 64) { if (!sg) { u128 p = a.c * b.c; rr[0] = C(p, w); rr[1] = C(p > maskw(w), 1); } else { i128 sa = (i128)(a.c << (128 - w)) >> (128 - w), sb = (i128)(b.c << (128 - w)) >> (128 - w), p = sa * sb; rr[0] = C((u128)p, w); i128 q = (i128)((u128)p << (128 - w)) >> (128 - w); rr[1] = C(q != p, 1); } } else { Z3_ast x = E(a, w), y = E(b, w); u8 fl = (a.fl | b.fl) & F_TAINT; rr[0] = mkS(Z3_mk_bvmul(Z, x, y), fl); Z3_ast ok = Z3_mk_bvmul_no_overflow(Z, x, y, sg); if (sg) { Z3_ast t[2] = {ok, Z3_mk_bvmul_no_underflow(Z, x, y)}; ok = Z3_mk_and(Z, 2, t); } rr[1] = mkS(Z3_simplify(Z, Z3_mk_not(Z, ok)), fl); } nr = 2; break; }
  case N_SADDO: case N_SSUBO: { Instr t{}; bool add = f->sub == N_SADDO; rr[0] = binop(t, add ? B_ADD : B_SUB, w, A(0), A(1)); Val z = C(0, w); Val c1 = icmp(P_SLT, w, A(1), z), c2 = icmp(P_SLT, w, rr[0], A(0)); Instr t2{}; if (add) rr[1] = binop(t2, B_XOR, 1, c1, c2); else { Val c3 = icmp(P_SGT, w, A(1), z); rr[1] = binop(t2, B_XOR, 1, c3, c2); } nr = 2; break; }
  case N_ISCONST: r = C(0, 1); break; case N_EXPECT: case N_TLS: r = A(0); break;
  case N_ASSUME: { Val c = useV(A(0), 1); if (!c.e) { if (!(c.c & 1)) VIOL("ub", "assume(false)"); } else ubCheck(mkNot(c.e), "assume violated"); nr = 0; break; }
  case N_TRAP: VIOL("abort", "trap");
  case N_BITREV: { Val a = useV(A(0), w); if (!a.e) { u128 v = 0; for (u32 i = 0; i < w; i++) v |= ((a.c >> i) & 1) << (w - 1 - i); r = C(v, w); } else { Z3_ast x = nullptr; for (u32 i = 0; i < w; i++) { Z3_ast b = mkExtract(i, i, a.e); x = x ? Z3_mk_concat(Z, x, b) : b; } r = mkS(x, a.fl); } break; }
  case N_SADDSAT: case N_SSUBSAT: {
    // the result overflows when its sign is not the one the operands call for; it is then the extreme on the side of the first operand
    Instr t{}; bool add = f->sub == N_SADDSAT; Val a = A(0), b = A(1), z = C(0, w), s = binop(t, add ? B_ADD : B_SUB, w, a, b);
    Val na = icmp(P_SLT, w, a, z), nb = icmp(P_SLT, w, b, z), ns = icmp(P_SLT, w, s, z);
    Val diff = binop(t, B_XOR, 1, na, nb); if (add) diff = binop(t, B_XOR, 1, diff, C(1, 1));
    Val ov = binop(t, B_AND, 1, diff, binop(t, B_XOR, 1, na, ns));
    r = selectV(ov, selectV(na, C((u128)1 << (w - 1), w), C(((u128)1 << (w - 1)) - 1, w), w), s, w); break; }
  case N_BSWAP: { Val a = useV(A(0), w); if (!a.e) { u128 v = 0; for (u32 i = 0; i < w / 8; i++) v |= ((a.c >> (8 * i)) & 255) << (w - 8 - 8 * i); r = C(v, w); } else { Z3_ast x = nullptr; for (u32 i = 0; i < w / 8; i++) { Z3_ast b = mkExtract(8 * i + 7, 8 * i, a.e); x = x ? Z3_mk_concat(Z, x, b) : b; } r = mkS(x, a.fl); } break; }
  case N_FSHL: case N_FSHR: { Val a = useV(A(0), w), b = useV(A(1), w); u64 s = (u64)concretize(A(2), w, "funnel shift") % w; if (f->sub == N_FSHR) s = (w - s) % w; if (!a.e && !b.e) { u128 v = s ? (a.c << s) | (b.c >> (w - s)) : (f->sub == N_FSHR ? b.c : a.c); r = C(v, w); } else { Z3_ast x = E(a, w), y = E(b, w); r = s ? mkS(Z3_mk_concat(Z, mkExtract(w - 1 - s, 0, x), mkExtract(w - 1, w - s, y)), (a.fl | b.fl)) : (f->sub == N_FSHR ? b : a); } break; }
  case N_ABS: { Instr t{}; Val z = C(0, w); Val ng = binop(t, B_SUB, w, z, A(0)); r = selectV(icmp(P_SLT, w, A(0), z), ng, A(0), w); break; }
  default: engineError("intrinsic %s", f->name.c_str()); }
  if (nr == 1) retTo(I, &r, 1); else if (nr == 2) retTo(I, rr, 2); advance(I); }

static void vcall(Instr &I, Function *f) {
  CallInfo &ci = *I.ci; auto A = [&](int i) -> const Val & { return *V(ci.args[i]); }; Val r{0, nullptr, 0};
  switch (f->sub) {
  case V_SYM: { u32 w = concretize(A(0), ci.argw[0], "v_sym width"); Z3_ast e = fresh("in", w, symN++); Z3_ast x = w == 64 ? e : w == 1 ? b2bv(e, 64) : Z3_mk_zero_ext(Z, 64 - w, e); inputs.push_back({'s', w, 0, x}); r = Val{0, x, 0}; break; }
  case V_CHOICE: { u64 n = concretize(A(0), ci.argw[0], "v_choice bound"); if (n == 0) endPath(1); Z3_ast e = fresh("in", 32, symN++); Z3_ast x = Z3_mk_zero_ext(Z, 32, e); pcAdd(Z3_mk_bvult(Z, e, num(n, 32)));
    // fresh variable: every value below n is feasible; extend the cached model by adding the equality
    u64 v = 0; for (; v + 1 < n; v++) { INC(branchesDecided, 1); if (!doFork()) break; } pcAdd(Z3_mk_eq(Z, e, num(v, 32))); inputs.push_back({'c', (u32)n, v, nullptr}); (void)x; r = C(v, 64); break; }
  case V_EQ: { INC(asserts, 1); Val a = useV(A(0), 64), b = useV(A(1), 64); u64 code = concretize(A(2), ci.argw[2], "assert code"); if (!a.e && !b.e) { if (a.c != b.c) violation(model, "assert", code, "values differ (assertion %llu)", (unsigned long long)code); } else { pendEq.push_back({Z3_mk_eq(Z, E(a, 64), E(b, 64)), code}); if (pendEq.size() >= 256) flushEq(); } break; }
  case V_ASSUME: flushEq(); { Val c = useV(A(0), 1); if (!c.e) { if (!(c.c & 1)) endPath(1); } else { Z3_ast e = Z3_simplify(Z, c.e); u128 k; if (isNum(e, k)) { if (!k) endPath(1); } else { if (!evalM(model, e)) { Z3_model m; if (check(e, &m) == Z3_L_FALSE) endPath(1); model = m; } pcAdd(e); } } break; }
  case V_ASSERT: { INC(asserts, 1); Val c = useV(A(0), 1); u64 code = concretize(A(1), ci.argw[1], "assert code"); if (!c.e) { if (!(c.c & 1)) violation(model, "assert", code, "assertion %llu", (unsigned long long)code); } else { Z3_ast e = Z3_simplify(Z, c.e); u128 k; if (isNum(e, k)) { if (!k) violation(model, "assert", code, "assertion %llu", (unsigned long long)code); } else { INC(assertQueries, 1); Z3_model m; if (check(mkNot(e), &m) == Z3_L_TRUE) violation(m, "assert", code, "assertion %llu", (unsigned long long)code); } } break; }
  case V_REACH: markReach(concretize(A(0), ci.argw[0], "v_reach")); break;
  case V_STATE: flushEq(); INC(states, 1); break;
  case V_TRACE: traces.push_back(A(0)); if (traces.back().fl & F_UNDEF && !traces.back().e) VIOL("uninit", "an observed value is uninitialised"); if (traces.back().fl & F_TAINT) taintCheck(Z3_mk_eq(Z, traces.back().e, num(evalM(model, traces.back().e), 64)), "an observed value"); break;
  case V_KNOWN: INC(known[concretize(A(0), ci.argw[0], "v_known") & 63], 1); break;
  case V_EXPECT_BLOCK: expectBlock = concretize(A(0), ci.argw[0], "v_expect_block"); break;
  case V_PARAM: { u64 i = concretize(A(0), ci.argw[0], "v_param"); if (i >= params.size()) engineError("missing parameter %llu", (unsigned long long)i); r = C(params[i], 64); break; }
  case V_NOLEAK: noLeak = true; break;
  case V_REUSE: reuseHeap = true; break;
  }
  retTo(I, &r, I.n ? 1 : 0); advance(I); }

static void callFn(Instr &I, Function *f) {
  CallInfo &ci = *I.ci; auto A = [&](int i) -> const Val & { return *V(ci.args[i]); };
  switch (f->kind) {
  case FK_BODY: {
    if (f->pslot.size() != ci.args.size()) engineError("call arity of %s", f->name.c_str()); u32 cb = rtop; Val *d = R + cb; Frame &t = fr.back(); (void)t;
    for (size_t i = 0; i < ci.args.size(); i++) { const Val *s = V(ci.args[i]); u32 al = ci.argAlign[i]; if (al & 0x7fffffff) { if (!s->e && !(s->fl & F_UNDEF)) { if ((u64)s->c % (al & 0x7fffffff)) VIOL("memory", "misaligned reference passed to %s (needs %u)", demangle(f->name).c_str(), al & 0x7fffffff); } } if (al & 0x80000000u && !s->e && !(s->fl & F_UNDEF) && s->c == 0) VIOL("memory", "null reference passed to %s", demangle(f->name).c_str()); for (u32 k = 0; k < f->pn[i]; k++) d[f->pslot[i] + k] = s[k]; }
    pushFrame(f); return; }
  case FK_INTRIN: intrinsic(I, f); return;
  case FK_V: vcall(I, f); return;
  case FK_NOP: advance(I); return;
  case FK_ALLOC: case FK_ALLOCZ: { u64 n = concretize(A(0), 64, "allocation size"), al = concretize(A(1), 64, "allocation alignment"); if (n == 0) VIOL("ub", "allocation of zero bytes"); if (!al || al & (al - 1)) VIOL("ub", "allocation with alignment %llu", (unsigned long long)al); Val r = C(n > (1ull << 28) ? 0 : newHeap(n, al, f->kind == FK_ALLOCZ), 64); retTo(I, &r, 1); advance(I); return; }
  case FK_DEALLOC: { u64 p = concretize(A(0), 64, "freed pointer"), n = concretize(A(1), 64, "freed size"), al = concretize(A(2), 64, "freed alignment"); Obj *o = lookup(p); if (!o || o->kind != OK_HEAP || o->base != p) VIOL("memory", "free of a pointer that is not an allocation"); if (!o->live) VIOL("memory", "double free"); if (o->size != n || o->align != al) VIOL("memory", "free with layout size %llu align %llu of an allocation of size %llu align %u", (unsigned long long)n, (unsigned long long)al, (unsigned long long)o->size, o->align); o->live = false; free(o->d); free(o->st); free(o->sy); o->d = o->st = nullptr; o->sy = nullptr; if (reuseHeap) freed.push_back(o - heap.data()); advance(I); return; }
  case FK_REALLOC: { u64 p = concretize(A(0), 64, "realloc pointer"), n = concretize(A(1), 64, "realloc old size"), al = concretize(A(2), 64, "realloc alignment"), nn = concretize(A(3), 64, "realloc size"); Obj *o = lookup(p); if (!o || o->kind != OK_HEAP || o->base != p) VIOL("memory", "realloc of a pointer that is not an allocation"); if (!o->live) VIOL("memory", "realloc after free"); if (o->size != n || o->align != al) VIOL("memory", "realloc with layout size %llu align %llu of an allocation of size %llu align %u", (unsigned long long)n, (unsigned long long)al, (unsigned long long)o->size, o->align); if (!nn) VIOL("ub", "realloc to zero bytes"); if (nn > (1ull << 28)) { Val z = C(0, 64); retTo(I, &z, 1); advance(I); return; }
    u64 q = newHeap(nn, al, false); copyBytes(q, p, n < nn ? n : nn); o = lookup(p); o->live = false; free(o->d); free(o->st); free(o->sy); o->d = o->st = nullptr; o->sy = nullptr; if (reuseHeap) freed.push_back(o - heap.data()); Val r = C(q, 64); retTo(I, &r, 1); advance(I); return; }
  case FK_PANIC: doPanic(f, &ci); return;
  case FK_ABORT: lastPanic = panicMsg(f, &ci); VIOL("abort", "%s", lastPanic.c_str());
  case FK_BLOCK: if (expectBlock) { markReach(255); endPath(2); } VIOL("deadlock", "blocks for ever in %s", demangle(f->name).c_str());
  case FK_CATCH_CLEANUP: { panicCount--; setPanicGlobal(); Val r[2] = {C(1, 64), C(anyVt, 64)}; retTo(I, r, 2); advance(I); return; }
  case FK_RANDKEYS: { Val r[2] = {C(0x0123456789abcdefull, 64), C(0xfedcba9876543210ull, 64)}; retTo(I, r, 2); advance(I); return; }
  case FK_ISZERO: { Val r = C(panicCount == 0, 1); retTo(I, &r, 1); advance(I); return; }
  case FK_SQRT: { u64 n = concretize(A(0), 64, "sqrt"); u64 il = 63 - __builtin_clzll(n | 1), s = (1 + il) / 2; Val r = C(((1ull << s) + (n >> s)) / 2, 64); retTo(I, &r, 1); advance(I); return; }
  case FK_MEMCMP: case FK_BCMP: { u64 a = concretize(A(0), 64, "memcmp"), b = concretize(A(1), 64, "memcmp"), n = concretize(A(2), 64, "memcmp length"); memAccessible(a, n, false); memAccessible(b, n, false); Val r = C(0, 32); if (n) { Obj *x = lookup(a), *y = lookup(b); for (i64 i = n - 1; i >= 0; i--) { Val p = loadS(x, a - x->base + i, 8), q = loadS(y, b - y->base + i, 8); Val eq = icmp(P_EQ, 8, p, q), lt = icmp(P_ULT, 8, p, q); r = selectV(eq, r, selectV(lt, C(0xffffffff, 32), C(1, 32), 32), 32); } } retTo(I, &r, 1); advance(I); return; }
  default: engineError("call of a function without body: %s", demangle(f->name).c_str()); } }

static void run() {
  for (;;) {
    Frame &t = fr.back(); Instr &I = t.bb->ins[t.ip]; Val *base = R + t.rb; insCount++; pathIns++;
    if ((pathIns & 0xfffff) == 0) { checkStop(); if (pathIns > maxPathIns) VIOL("hang", "path exceeds %llu instructions", (unsigned long long)maxPathIns); }
    auto G = [&](Op o) -> const Val * { return o.c ? &prog.cpool[o.i] : base + o.i; };
    switch (I.op) {
    case I_ALLOCA: base[I.dst] = C(newStack(I.imm, I.align), 64); t.ip++; break;
    case I_LOAD: { const Val *p = G(I.a); if (p->e && I.n == 1) { Val tv; u32 w = I.ty->leaves[0].t->k == T_INT ? leafW(I.ty->leaves[0].t) : 0; if (w && tableRead(p, I.ty->size, I.align, w, tv)) { base = R + t.rb; base[I.dst] = tv; t.ip++; break; } } u64 a = p->e || p->fl ? (u64)concretize(*p, 64, "address of a read", true) : (u64)p->c; Type *ty = I.ty; if (I.n == 0) { t.ip++; break; } u64 off; Obj *o = access(a, ty->size, I.align, false, off); base = R + t.rb; if (I.n == 1) { u32 w = leafW(ty->leaves[0].t); base[I.dst] = loadS(o, off + ty->leaves[0].off, w); } else for (u32 k = 0; k < I.n; k++) base[I.dst + k] = loadS(o, off + ty->leaves[k].off, leafW(ty->leaves[k].t)); t.ip++; break; }
    case I_STORE: { const Val *p = G(I.b); u64 a = p->e || p->fl ? (u64)concretize(*p, 64, "address of a write", true) : (u64)p->c; Type *ty = I.ty; if (I.n == 0) { t.ip++; break; } u64 off; Obj *o = access(a, ty->size, I.align, true, off); const Val *s = G(I.a); for (u32 k = 0; k < I.n; k++) storeS(o, off + ty->leaves[k].off, leafW(ty->leaves[k].t), s[k]); t.ip++; break; }
    case I_GEP: { const Val *p = G(I.a); bool conc = !p->e && !(p->fl & F_UNDEF); i64 d = I.imm; bool symi = false; for (auto &g : *I.gi) { const Val *x = G(g.o); if (x->e || x->fl) { symi = true; continue; } u64 sv = (u64)x->c; if (g.w < 64) sv = (u64)((i64)(sv << (64 - g.w)) >> (64 - g.w)); d += (i64)(sv * g.scale); }
      if (conc && !symi) { u64 a = (u64)p->c, r = a + d; if (I.inb && d) { Obj *o = lookup(a); if (!o || !o->live || r < o->base || r > o->base + o->size || a < o->base || a > o->base + o->size) VIOL("ub", "pointer arithmetic leaves its object (offset %lld%s)", (long long)d, o ? o->live ? "" : " of a freed object" : " from a dangling pointer"); } base[I.dst] = Val{r, nullptr, 0}; }
      else { Val pv = useV(*p, 64); u8 fl = pv.fl; Z3_ast e = E(pv, 64); if (d) e = Z3_mk_bvadd(Z, e, num((u64)d, 64)); for (auto &g : *I.gi) { const Val *x = G(g.o); if (!(x->e || x->fl)) continue; Val xv = useV(*x, g.w); fl |= xv.fl; Z3_ast y = E(xv, g.w); if (g.w < 64) y = Z3_mk_sign_ext(Z, 64 - g.w, y); if (g.scale != 1) y = Z3_mk_bvmul(Z, y, num(g.scale, 64)); e = Z3_mk_bvadd(Z, e, y); } base[I.dst] = mkS(e, fl); }
      t.ip++; break; }
    case I_BR: gotoBB(t, I.bb1); break;
    case I_CBR: { const Val *c = G(I.a); bool b; if (!c->e && !(c->fl & F_UNDEF)) b = c->c & 1; else { Val v = useV(*c, 1); b = decide(v.e, v.fl & F_TAINT); } gotoBB(fr.back(), b ? I.bb1 : I.bb2); break; }
    case I_SWITCH: { const Val *c = G(I.a); int target = -1; if (c->e || c->fl) { Val v = useV(*c, I.w); // symbolic switch: decide case by case
          bool done = false; for (size_t k = 0; k < I.sw->vals.size() && !done; k++) { Val q = icmp(P_EQ, I.w, v, C(I.sw->vals[k], I.w)); bool h = q.e ? decide(q.e, v.fl & F_TAINT) : (bool)(q.c & 1); if (h) { target = I.sw->bbs[k]; done = true; } } if (!done) target = I.bb1; }
        else { target = I.bb1; for (size_t k = 0; k < I.sw->vals.size(); k++) if (I.sw->vals[k] == c->c) { target = I.sw->bbs[k]; break; } }
        gotoBB(fr.back(), target); break; }
    case I_RET: { const Val *s = I.n ? G(I.a) : nullptr; Val tmp[16]; vector<Val> big; const Val *v = s; if (I.n > 16) { big.assign(s, s + I.n); v = big.data(); } else if (I.n) { for (u32 k = 0; k < I.n; k++) tmp[k] = s[k]; v = tmp; } popFrame(); if (fr.empty()) endPath(0); Instr &CI = fr.back().bb->ins[fr.back().ip]; retTo(CI, v, CI.dst >= 0 ? CI.n : 0); advance(CI); break; }
    case I_UNREACH: VIOL("ub", "unreachable code reached");
    case I_CALL: case I_INVOKE: { Function *f = I.ci->direct; if (!f) { const Val *p = G(I.ci->callee); u64 a = (u64)concretize(*p, 64, "called address"); Obj *o = lookup(a); if (!o || o->kind != OK_FN || a != o->base) VIOL("memory", "call through an invalid function pointer %#llx", (unsigned long long)a); f = o->f; } callFn(I, f); break; }
    case I_LPAD: die("landingpad executed"); 
    case I_RESUME: { const Val *p = G(I.a); Val a = p[0], b = p[1]; popFrame(); unwindFrom(a, b); break; }
    case I_SELECT: { const Val *c = G(I.a), *x = G(I.b), *y = G(I.c); for (u32 k = 0; k < I.n; k++) base[I.dst + k] = selectV(c[I.srcw ? k : 0], x[k], y[k], leafW(I.ty->leaves[k].t)); t.ip++; break; }
    case I_ICMP: { const Val *x = G(I.a), *y = G(I.b); if (I.n == 1) { Val r = icmp(I.sub, I.w, *x, *y); base[I.dst] = r; } else for (u32 k = 0; k < I.n; k++) base[I.dst + k] = icmp(I.sub, I.w, x[k], y[k]); t.ip++; break; }
    case I_BIN: { const Val *x = G(I.a), *y = G(I.b); for (u32 k = 0; k < I.n; k++) base[I.dst + k] = binop(I, I.sub, I.w, x[k], y[k]); t.ip++; break; }
    case I_TRUNC: case I_ZEXT: case I_SEXT: { const Val *x = G(I.a); for (u32 k = 0; k < I.n; k++) base[I.dst + k] = castV(I.op, I.srcw, I.w, x[k], I.nuw); t.ip++; break; }
    case I_MOVE: { const Val *x = G(I.a); for (u32 k = 0; k < I.n; k++) base[I.dst + k] = x[k]; t.ip++; break; }
    case I_BITCAST: { // repack n1 x srcw into n x w, low element first
      const Val *x = G(I.a); u32 n1 = I.imm; bool conc = true; for (u32 k = 0; k < n1; k++) if (x[k].e || x[k].fl) conc = false; if (n1 * I.srcw > 128) engineError("wide bitcast");
      if (conc) { u128 v = 0; for (u32 k = 0; k < n1; k++) v |= (x[k].c & maskw(I.srcw)) << (k * I.srcw); for (u32 k = 0; k < I.n; k++) base[I.dst + k] = C(v >> (k * I.w), I.w); }
      else { Z3_ast e = nullptr; u8 fl = 0; for (u32 k = 0; k < n1; k++) { Val q = useV(x[k], I.srcw); fl |= q.fl; Z3_ast b = E(q, I.srcw); if (I.srcw == 1) b = b2bv(b, 1); e = e ? Z3_mk_concat(Z, b, e) : b; } for (u32 k = 0; k < I.n; k++) { Z3_ast b = mkExtract((k + 1) * I.w - 1, k * I.w, e); if (I.w == 1) b = bv2b(b); base[I.dst + k] = mkS(b, fl); } }
      t.ip++; break; }
    case I_FREEZE: { const Val *x = G(I.a); for (u32 k = 0; k < I.n; k++) { Val v = useV(x[k], leafW(I.ty->leaves.empty() ? I.ty : I.ty->leaves[k].t)); base[I.dst + k] = v; } t.ip++; break; }
    case I_EXTRACTV: { const Val *x = G(I.a); for (u32 k = 0; k < I.n; k++) base[I.dst + k] = x[I.imm + k]; t.ip++; break; }
    case I_INSERTV: { const Val *x = G(I.a), *y = G(I.b); if (base + I.dst != x) for (u32 k = 0; k < I.n; k++) base[I.dst + k] = x[k]; for (u32 k = 0; k < I.srcw; k++) base[I.dst + I.imm + k] = y[k]; t.ip++; break; }
    case I_EXTRACTE: { const Val *x = G(I.a); u64 i = concretize(*G(I.b), 64, "vector index"); base = R + fr.back().rb; base[I.dst] = x[i]; fr.back().ip++; break; }
    case I_INSERTE: { const Val *x = G(I.a); u64 i = concretize(*G(I.c), 64, "vector index"); Val e = *G(I.b); for (u32 k = 0; k < I.n; k++) base[I.dst + k] = x[k]; base[I.dst + i] = e; t.ip++; break; }
    case I_SHUFFLE: { const Val *x = G(I.a), *y = G(I.b); vector<Val> r; for (int m : *I.mask) r.push_back(m < 0 ? Val{0, nullptr, F_UNDEF} : m < (int)I.srcw ? x[m] : y[m - I.srcw]); for (u32 k = 0; k < r.size(); k++) base[I.dst + k] = r[k]; t.ip++; break; }
    case I_CMPXCHG: { u64 a = concretize(*G(I.a), 64, "address", true), off; Obj *o = access(a, bytesOf(I.w), I.align, true, off); Val cur = loadS(o, off, I.w); Val eq = icmp(P_EQ, I.w, cur, *G(I.b)); bool b; if (eq.e) b = decide(eq.e, eq.fl & F_TAINT); else b = eq.c & 1; base = R + fr.back().rb; if (b) storeS(o, off, I.w, *G(I.c)); base[I.dst] = cur; base[I.dst + 1] = C(b, 1); fr.back().ip++; break; }
    case I_RMW: { u64 a = concretize(*G(I.a), 64, "address", true), off; Obj *o = access(a, bytesOf(I.w), I.align, true, off); Val cur = loadS(o, off, I.w); Instr z{}; Val nv = binop(z, I.sub, I.w, cur, *G(I.b)); storeS(o, off, I.w, nv); base[I.dst] = cur; t.ip++; break; }
    case I_FENCE: t.ip++; break;
    case I_UNSUP: engineError("unsupported instruction: %s", I.txt->c_str());
    default: engineError("opcode %d", I.op); } } }

static void sigterm(int) { if (sh) sh->stop = 1; }
int main(int argc, char **argv) {
  vector<string> files, libs; string cov; t0 = now();
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") { string s = nx(); size_t p = 0; while (p <= s.size()) { size_t q = s.find(',', p); if (q == string::npos) q = s.size(); entries.push_back(s.substr(p, q - p)); p = q + 1; } }
    else if (a == "--out") outDir = nx(); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--params") { string s = nx(); size_t p = 0; while (p < s.size()) { size_t q = s.find(',', p); if (q == string::npos) q = s.size(); params.push_back(strtoull(s.substr(p, q - p).c_str(), 0, 10)); p = q + 1; } }
    else if (a == "--max-ins") maxPathIns = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") sampleMax = atoi(nx().c_str()); else if (a == "--rlimit") rlim = strtoul(nx().c_str(), 0, 10); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") maxViol = atoi(nx().c_str()); else if (a == "--names") { FILE *f = fopen(nx().c_str(), "r"); if (f) { fclose(f); } }
    else if (a == "--tests") unitTests = true; else if (a == "--lib") libs.push_back(nx()); else files.push_back(a); }
  if (entries.size() > 64) die("too many entries");
  arenaD = (u8 *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arenaS = (u8 *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); R = (Val *)mmap(0, RMAX * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  nopDrop = new Function; nopDrop->name = "symex_nop_drop"; nopDrop->kind = FK_NOP; nopDrop->addr = newFnObj(nopDrop);
  libCount = libs.size(); files.insert(files.end(), libs.begin(), libs.end());
  prog.load(files);
  { u32 oi; anyVt = newGlobalObj(32, 8, true, false, &oi); u64 z[4] = {0, 0, 1, 0}; initGlobalBytes(oi, 0, (u8 *)z, 32); }
  for (auto g : prog.globals) { if (g->obj) gobjs[g->obj].nm = g->name.c_str(); if (g->ext && has(g->name, "GLOBAL_PANIC_COUNT")) { gPanic = g; } if (g->ext && g->obj && has(g->name, "RandomState3new4KEYS")) gobjs[g->obj].ext = false; }
  bcovBase.resize(prog.funcs.size()); for (auto f : prog.funcs) { bcovBase[f->id] = nbcov; nbcov += f->bb.size(); f->repo = has(f->name, "arche_tape") || has(f->name, "untyped_vec"); }
  fcov = (u8 *)mmap(0, prog.funcs.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bcov = (u8 *)mmap(0, nbcov + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  setPanicGlobal();
  // entries given by suffix match when not exact (unit tests have mangled names)
  vector<Function *> ef; for (auto &e : entries) { Function *f = nullptr; auto it = prog.ext.find(e); if (it != prog.ext.end() && it->second.k == 1) f = it->second.f; if (!f) for (auto g : prog.funcs) if (g->name == e) f = g; if (!f || f->kind != FK_BODY) die("entry %s not found", e.c_str()); ef.push_back(f); }
  int pf[2]; if (pipe2(pf, O_NONBLOCK)) die("pipe"); tokR = pf[0]; tokW = pf[1]; for (int i = 0; i < jobs - 1; i++) if (write(tokW, "x", 1) != 1) die("pipe");
  prctl(PR_SET_CHILD_SUBREAPER, 1); signal(SIGTERM, sigterm); double tl = now() - t0;
  int errs = 0;
  for (size_t en = 0; en < entries.size(); en++) { // one tree of processes per entry, sharing the job tokens
    curEntry = en; S = &sh->st[en]; for (;;) { // limit the number of roots running at once
      char c; if (en == 0) { break; } if (read(tokR, &c, 1) == 1) { break; } int st; pid_t q = waitpid(-1, &st, WNOHANG); if (q > 0 && (!WIFEXITED(st) || WEXITSTATUS(st))) errs++; usleep(2000); if (now() - t0 > budget || sh->stop) { break; } }
    if (sh->stop) break;
    fflush(stdout); pid_t p = fork(); if (p < 0) die("fork");
    if (p == 0) {
      ownToken = true; Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, z3err); TRUE_ = Z3_mk_true(Z); FALSE_ = Z3_mk_false(Z); sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, sol); qp = Z3_mk_params(Z); Z3_params_inc_ref(Z, qp); Z3_params_set_uint(Z, qp, Z3_mk_string_symbol(Z, "rlimit"), rlim); Z3_solver_set_params(Z, sol, qp);
      Z3_solver_check(Z, sol); model = Z3_solver_get_model(Z, sol); Z3_model_inc_ref(Z, model); pushFrame(ef[en]); run(); } }
  for (;;) { int st; pid_t q = waitpid(-1, &st, 0); if (q < 0) { if (errno == ECHILD) break; continue; } if (!WIFEXITED(st) || WEXITSTATUS(st)) { errs++; sh->stop = 1; } }
  // result
  string o = "{"; char b[4000]; snprintf(b, sizeof b, "\"load_s\":%.3f,\"wall_s\":%.3f,\"timed_out\":%s,\"crashed\":%d,\"stopped\":%d,\"violations\":%llu,\"entries\":{", tl, now() - t0, sh->timedOut ? "true" : "false", errs, sh->stop, (unsigned long long)sh->nviol); o += b;
  for (size_t en = 0; en < entries.size(); en++) { Stat &s = sh->st[en]; snprintf(b, sizeof b, "%s\"%s\":{\"paths\":%llu,\"blocked\":%llu,\"assumed_out\":%llu,\"instructions\":%llu,\"branches\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fallback\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,\"assert_queries\":%llu,\"obligations\":%llu,\"states\":%llu,\"violations\":%llu,\"errors\":%llu,\"samples\":%llu,\"max_depth\":%llu,\"concretised\":%llu,\"reach\":{", en ? "," : "", entries[en].c_str(), (unsigned long long)s.paths, (unsigned long long)s.blockedPaths, (unsigned long long)s.assumedOut, (unsigned long long)s.ins, (unsigned long long)s.branchesDecided, (unsigned long long)s.forks, (unsigned long long)s.queries, (unsigned long long)s.sat, (unsigned long long)s.unsat, (unsigned long long)s.unknown, (unsigned long long)s.fallback, s.solverUs * 1e-6, (unsigned long long)s.asserts, (unsigned long long)s.assertQueries, (unsigned long long)s.obligations, (unsigned long long)s.states, (unsigned long long)s.viol, (unsigned long long)s.errors, (unsigned long long)s.samples, (unsigned long long)s.maxDepth, (unsigned long long)s.concretised); o += b; bool first = true;
    for (int i = 0; i < 256; i++) if (s.reach[i]) { snprintf(b, 64, "%s\"%d\":%llu", first ? "" : ",", i, (unsigned long long)s.reach[i]); o += b; first = false; } o += "},\"known\":{"; first = true; for (int i = 0; i < 64; i++) if (s.known[i]) { snprintf(b, 64, "%s\"%d\":%llu", first ? "" : ",", i, (unsigned long long)s.known[i]); o += b; first = false; } o += "}}"; }
  o += "},\"functions\":["; bool first = true; for (auto f : prog.funcs) if (fcov[f->id]) { u32 n = 0; for (size_t i = 0; i < f->bb.size(); i++) n += bcov[bcovBase[f->id] + i]; if (!f->repo) continue; snprintf(b, 64, "\",%u,%u]", n, (u32)f->bb.size()); o += string(first ? "" : ",") + "[\"" + jesc(f->name) + b; first = false; }
  u64 nf = 0; for (auto f : prog.funcs) nf += fcov[f->id]; o += "],\"functions_total\":" + std::to_string(nf) + "}"; writeFile(outDir + "/result.json", o); return 0; }
