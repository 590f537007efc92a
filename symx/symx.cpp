// symx: a bounded symbolic executor for LLVM IR.  It runs a program's main() (or a harness
// linked with the program) with selected input bytes replaced by SMT variables, forks one
// process per feasible side of every branch whose condition depends on them, and writes for
// every completed path: its path condition, what the program wrote (symbolic numbers and bytes
// as placeholders defined by SMT terms), its exit status, and any property violation found.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <z3.h>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <libgen.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef Z3_ast E;
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- shared state between paths
struct Shared {
  volatile int tokens;        // processes allowed to start running concurrently
  volatile int paths, stop;   // completed paths; stop = a budget ran out
  volatile u64 queries, solver_us, insts, forks, unknowns;
  volatile char fnused[4096]; volatile int nnames; char names[65536];   // functions executed
};
static Shared *SH;
static double T0, opt_timeout = 600;
static int opt_max_paths = 100000, opt_jobs = 8, opt_qms = 20000;
static bool opt_verbose, opt_iofail;
static u64 opt_max_insts = 2000000000ull;
static std::string opt_out, opt_marker;
static int outfd;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define FAA(x, v) __sync_fetch_and_add(&(x), (v))

// ---------------------------------------------------------------- SMT layer
static Z3_context C;
static Z3_solver S;
static std::vector<E> PC;          // path constraints (Bool)
static int nums_applied;             // "num" holes met so far
static Z3_model curM;              // a model of PC (or null)
static bool uses_fp;
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); fflush(stderr); _exit(3);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static E bvc(u64 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, w == 64 ? v : v & ((1ull << w) - 1), bvs(w));
  return Z3_mk_zero_ext(C, w - 64, Z3_mk_unsigned_int64(C, v, bvs(64)));
}
static E simp(E e) { return Z3_simplify(C, e); }
static Z3_ast_kind kindof(E e) { return Z3_get_ast_kind(C, e); }
static bool isnum(E e, u64 *v) {
  if (kindof(e) != Z3_NUMERAL_AST) return false;
  return Z3_get_numeral_uint64(C, e, v);
}
static Z3_decl_kind dk(E e) {
  if (kindof(e) != Z3_APP_AST) return (Z3_decl_kind)0;
  return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, e)));
}
static E arg(E e, unsigned i) { return Z3_get_app_arg(C, Z3_to_app(C, e), i); }
static unsigned width(E e) { return Z3_get_bv_sort_size(C, Z3_get_sort(C, e)); }
static bool istrue(E e) { return Z3_get_bool_value(C, e) == Z3_L_TRUE; }
static bool isfalse(E e) { return Z3_get_bool_value(C, e) == Z3_L_FALSE; }
static void msetup(Z3_model m) {
  if (m) Z3_model_inc_ref(C, m);
  if (curM) Z3_model_dec_ref(C, curM);
  curM = m;
}
static void new_solver(bool fp) {
  Z3_solver n = fp ? Z3_mk_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, n);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), opt_qms);
  Z3_solver_set_params(C, n, p);
  S = n;
  for (E e : PC) Z3_solver_assert(C, S, e);
}
static void need_fp() { if (!uses_fp) { uses_fp = true; new_solver(true); } }
// 1 sat, 0 unsat, -1 unknown
static int check(E extra, Z3_model *m = nullptr) {
  double t = now();
  Z3_solver_push(C, S);
  if (extra) Z3_solver_assert(C, S, extra);
  Z3_lbool r = Z3_solver_check(C, S);
  if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, *m); }
  Z3_solver_pop(C, S, 1);
  if (getenv("SYMX_SLOW") && now() - t > .2) { extern void slow_note(double, E); slow_note(now() - t, extra); }
  if (SH->queries % 1000 == 999 && getenv("SYMX_SLOW")) { extern void slow_note(double, E); slow_note(0, extra); }
  FAA(SH->queries, 1); FAA(SH->solver_us, (u64)((now() - t) * 1e6));
  if (r == Z3_L_UNDEF) { FAA(SH->unknowns, 1); return -1; }
  return r == Z3_L_TRUE;
}
static E meval(Z3_model m, E e) {
  E r; if (!Z3_model_eval(C, m, e, true, &r)) return nullptr; return r;
}
#include "dom.inc"
static void add_pc(E c) { PC.push_back(c); Z3_inc_ref(C, c); Z3_solver_assert(C, S, c); dom_learn(c); }
static E Not(E c) { return Z3_mk_not(C, c); }
static E And(E a, E b) { E x[2] = {a, b}; return Z3_mk_and(C, 2, x); }
static E Or(E a, E b) { E x[2] = {a, b}; return Z3_mk_or(C, 2, x); }
static E Eq(E a, E b) { return Z3_mk_eq(C, a, b); }
static E Ite(E c, E a, E b) { return Z3_mk_ite(C, c, a, b); }

// ---------------------------------------------------------------- values and memory
struct alignas(16) Val {
  union { u64 u; double d; float f; long double ld; u64 w[2]; };
  E e;      // null: concrete.  ints/pointers: BV (width 1: Bool sort); FP: FP sort
  Val() : e(nullptr) { w[0] = w[1] = 0; }
  Val(u64 x) : e(nullptr) { w[0] = x; w[1] = 0; }
};
static const u64 ARENA = 0x200000000000ull, ARENA_SZ = 1ull << 34;
static const u64 STK0 = ARENA, STK_SZ = 1ull << 30, HEAP0 = ARENA + STK_SZ;
static uint8_t *const SHADOW = (uint8_t *)0x300000000000ull;
static u64 heap_top = HEAP0 + 4096, stk_top = STK0 + 4096;
struct SymB { E base; uint32_t idx; };        // byte idx of base (a BV), null = concrete
static SymB **sympg;                          // per 4 KB page
static std::map<u64, u64> objs;               // heap & globals: start -> size
static std::map<u64, u64> stkobjs;
static bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
static void poison(u64 a, u64 n) { memset(SHADOW + (a - ARENA), 0, n); }
static void unpoison(u64 a, u64 n) { memset(SHADOW + (a - ARENA), 1, n); }
static SymB *symb(u64 a) {
  SymB *p = sympg[(a - ARENA) >> 12];
  return p ? &p[a & 4095] : nullptr;
}
static void set_symb(u64 a, E base, uint32_t idx) {
  SymB *&p = sympg[(a - ARENA) >> 12];
  if (!p) { if (!base) return; p = (SymB *)calloc(4096, sizeof(SymB)); }
  p[a & 4095] = {base, idx};
}
static bool has_sym(u64 a, u64 n) {
  for (u64 pg = (a - ARENA) >> 12; pg <= (a + n - 1 - ARENA) >> 12; pg++)
    if (sympg[pg]) {
      u64 lo = std::max(a, ARENA + (pg << 12)), hi = std::min(a + n, ARENA + ((pg + 1) << 12));
      for (u64 x = lo; x < hi; x++) if (sympg[pg][x & 4095].base) return true;
    }
  return false;
}
static void clr_sym(u64 a, u64 n) {
  if (!n) return;
  for (u64 pg = (a - ARENA) >> 12; pg <= (a + n - 1 - ARENA) >> 12; pg++)
    if (sympg[pg]) {
      u64 lo = std::max(a, ARENA + (pg << 12)), hi = std::min(a + n, ARENA + ((pg + 1) << 12));
      for (u64 x = lo; x < hi; x++) sympg[pg][x & 4095].base = nullptr;
    }
}
static u64 heap_alloc(u64 n, unsigned al = 16) {
  if (n > (ARENA_SZ >> 2)) return 0;
  u64 a = (heap_top + 32 + al - 1) / al * al;
  heap_top = a + n + 32;
  heap_top = (heap_top + 15) & ~15ull;
  if (heap_top > ARENA + ARENA_SZ - 4096) { fprintf(stderr, "symx: out of arena\n"); _exit(3); }
  if (n) unpoison(a, n);
  objs[a] = n;
  return a;
}
static std::string hole_json(Z3_model m);
[[noreturn]] static void finish(const char *how, int code, const std::string &msg, Z3_model m = nullptr);
struct Frame;
static std::vector<const Function *> callstack;
static std::string where() {
  std::string s;
  for (int i = (int)callstack.size() - 1, k = 0; i >= 0 && k < 10; i--, k++)
    s += (k ? "<" : "") + callstack[i]->getName().str();
  return s;
}
static void chk_mem(u64 a, u64 n, const char *what) {
  if (n == 0) return;
  bool ok = in_arena(a) && in_arena(a + n - 1) && n < ARENA_SZ;
  if (ok) for (u64 i = 0; i < n; i++) if (!SHADOW[a - ARENA + i]) { ok = false; break; }
  if (!ok) {
    char b[200]; snprintf(b, sizeof b, "invalid %s of %llu bytes at 0x%llx in ", what, (unsigned long long)n, (unsigned long long)a);
    finish("memerror", 0, b + where());
  }
}
// i1 <-> Bool helpers
static E toE(const Val &v, unsigned w) {
  if (v.e) return v.e;
  if (w == 1) return (v.u & 1) ? Z3_mk_true(C) : Z3_mk_false(C);
  return bvc(v.u, w);
}
static Val fromE(E e) {    // int expr -> Val, folding constants
  e = simp(e);
  Val r;
  if (istrue(e)) { r.u = 1; return r; }
  if (isfalse(e)) { r.u = 0; return r; }
  u64 x;
  if (kindof(e) == Z3_NUMERAL_AST && isnum(e, &x)) { r.u = x; return r; }
  Z3_inc_ref(C, e);
  r.e = e; return r;
}
static E bool2bv(E b, unsigned w) { return Ite(b, bvc(1, w), bvc(0, w)); }
// read n bytes as an expression
static E load_expr(u64 a, unsigned n) {
  SymB *s0 = symb(a);
  if (s0 && s0->base && s0->idx == 0 && width(s0->base) == n * 8) {
    bool same = true;
    for (unsigned i = 1; i < n; i++) { SymB *s = symb(a + i); if (!s || s->base != s0->base || s->idx != i) { same = false; break; } }
    if (same) return s0->base;
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    SymB *s = symb(a + i);
    E b;
    if (s && s->base) b = width(s->base) == 8 ? s->base : Z3_mk_extract(C, s->idx * 8 + 7, s->idx * 8, s->base);
    else b = bvc(*(uint8_t *)(a + i), 8);
    r = r ? Z3_mk_concat(C, b, r) : b;
  }
  return simp(r);
}
static void store_expr(u64 a, E e, unsigned n) {   // e: BV of n*8
  Z3_inc_ref(C, e);
  for (unsigned i = 0; i < n; i++) set_symb(a + i, e, i);
}
static void mem_move(u64 d, u64 s, u64 n) {
  if (!n) return;
  chk_mem(s, n, "read"); chk_mem(d, n, "write");
  if (has_sym(s, n)) {
    std::vector<SymB> t(n);
    for (u64 i = 0; i < n; i++) { SymB *p = symb(s + i); t[i] = p ? *p : SymB{nullptr, 0}; }
    memmove((void *)d, (void *)s, n);
    for (u64 i = 0; i < n; i++) set_symb(d + i, t[i].base, t[i].idx);
  } else { memmove((void *)d, (void *)s, n); clr_sym(d, n); }
}
// FP sorts
static Z3_sort fps(Type *t) {
  need_fp();
  if (t->isFloatTy()) return Z3_mk_fpa_sort_32(C);
  if (t->isDoubleTy()) return Z3_mk_fpa_sort_64(C);
  return Z3_mk_fpa_sort(C, 15, 64);
}
static E rne() { return Z3_mk_fpa_rne(C); }
static E fpE(const Val &v, Type *t) {
  if (v.e) return v.e;
  Z3_sort s = fps(t);
  if (t->isFloatTy()) { uint32_t x; memcpy(&x, &v.f, 4); return Z3_mk_fpa_to_fp_bv(C, bvc(x, 32), s); }
  if (t->isDoubleTy()) return Z3_mk_fpa_to_fp_bv(C, bvc(v.u, 64), s);
  // fp80: drop the explicit integer bit
  uint16_t se = (uint16_t)v.w[1]; u64 m = v.w[0];
  E bv = Z3_mk_concat(C, bvc(se, 16), Z3_mk_extract(C, 62, 0, bvc(m, 64)));
  return Z3_mk_fpa_to_fp_bv(C, simp(bv), s);
}
static E fp_to_bv(E e, Type *t) {
  need_fp();
  E b = Z3_mk_fpa_to_ieee_bv(C, e);
  if (!t->isX86_FP80Ty()) return b;
  // 79-bit -> 80-bit with explicit integer bit = (exp != 0)
  E ex = Z3_mk_extract(C, 77, 63, b), m = Z3_mk_extract(C, 62, 0, b), s = Z3_mk_extract(C, 78, 78, b);
  E i = Ite(Eq(ex, bvc(0, 15)), bvc(0, 1), bvc(1, 1));
  return Z3_mk_concat(C, s, Z3_mk_concat(C, ex, Z3_mk_concat(C, i, m)));
}

// ---------------------------------------------------------------- path forking
static std::vector<pid_t> kids;
static bool have_token = true;   // does this process hold a run token
static void reap_all() {
  for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); }
  kids.clear();
}
static void budget() {
  if (SH->stop) _exit(0);
  if (now() - T0 > opt_timeout || SH->paths >= opt_max_paths) { SH->stop = now() - T0 > opt_timeout ? 1 : 2; _exit(0); }
}
// returns true in the child.  The parent continues (concurrently or after the child is done).
static bool do_fork() {
  budget();
  FAA(SH->forks, 1);
  bool tok = false;
  int t = SH->tokens;
  while (t > 0) { if (__sync_bool_compare_and_swap(&SH->tokens, t, t - 1)) { tok = true; break; } t = SH->tokens; }
  pid_t p = fork();
  if (p < 0) { perror("symx: fork"); SH->stop = 3; _exit(3); }
  if (p == 0) { kids.clear(); have_token = tok; return true; }
  if (tok) kids.push_back(p);
  else {
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) SH->stop = 4;
  }
  return false;
}
static void ensure_model() {
  if (curM) return;
  Z3_model m = nullptr;
  int r = check(nullptr, &m);
  if (r == 0) _exit(0);         // infeasible path (can only come from an unknown earlier)
  if (r == 1) { msetup(m); Z3_model_dec_ref(C, m); }
}
static void path_exit(int c) {
  if (have_token) FAA(SH->tokens, 1);   // let others run while we wait
  reap_all();
  _exit(c);
}
void slow_note(double d, E e) { fprintf(stderr, "slow %.1f %s %.200s\n", d, where().c_str(), e ? Z3_ast_to_string(C, e) : ""); }
// decide a Bool condition: returns the side this process takes
static bool branch(E c) {
  c = simp(fixsub(c));
  if (istrue(c)) return true;
  if (isfalse(c)) return false;
  { int v; Bits b;
    if (truth(c, &v, &b)) {
      BV8 &x = bvars[v]; bool t = false, f = false;
      for (int i = 0; i < 4; i++) { if (x.dom.w[i] & b.w[i]) t = true; if (x.dom.w[i] & ~b.w[i]) f = true; }
      if (t && !f) return true;
      if (f && !t) return false;
      if (!x.rel && t) {      // both sides are possible
        E nc = simp(Not(c));
        bool side = true;
        if (curM) { E y = meval(curM, c); side = !(y && isfalse(y)); }
        if (do_fork()) { add_pc(side ? nc : c); msetup(nullptr); return !side; }
        add_pc(side ? c : nc);
        return side;
      }
    } }
  ensure_model();
  int ft = -1, ff = -1;     // feasibility of true / false
  Z3_model mt = nullptr, mf = nullptr;
  if (curM) {
    E v = meval(curM, c);
    if (v && istrue(v)) ft = 1; else if (v && isfalse(v)) ff = 1;
  }
  E nc = simp(Not(c));
  if (ft < 0) { ft = check(c, &mt); if (ft < 0) ft = 1; }
  if (ff < 0) { ff = check(nc, &mf); if (ff < 0) ff = 1; }
  if (ft && !ff) { return true; }
  if (ff && !ft) { return false; }
  if (!ft && !ff) { path_exit(0); }
  // both: child takes the side we have no current model for
  bool cur_true = curM && mf ? true : (curM && mt ? false : true);
  if (do_fork()) {
    bool side = !cur_true;
    add_pc(side ? c : nc);
    msetup(side ? mt : mf);
    return side;
  }
  add_pc(cur_true ? c : nc);
  if (cur_true ? mt : mf) msetup(cur_true ? mt : mf);
  return cur_true;
}
// concretise a BV expression: forks once per feasible value (bounded)
static int opt_max_conc = 70000, opt_text = 0;
static bool is_hash(E e) {       // contains a multiplication by a large constant
  static std::unordered_map<E, bool> memo;
  if (kindof(e) != Z3_APP_AST) return false;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = false; u64 k;
  unsigned n = Z3_get_app_num_args(C, Z3_to_app(C, e));
  if (dk(e) == Z3_OP_BMUL) for (unsigned i = 0; i < n; i++) if (isnum(arg(e, i), &k) && k > 0xffffffff && k < 1ull << 62) r = true;
  for (unsigned i = 0; i < n && !r; i++) r = is_hash(arg(e, i));
  Z3_inc_ref(C, e); return memo[e] = r;
}
static bool only_bytes(E e) {
  std::set<E> seen; bool ok = true;
  std::function<void(E)> walk = [&](E x) {
    if (kindof(x) != Z3_APP_AST || !ok || !seen.insert(x).second) return;
    FV f = fv(x);
    if (f.n == 1) return;
    if (is_var(x)) { ok = false; return; }
    for (unsigned i = 0; i < Z3_get_app_num_args(C, Z3_to_app(C, x)); i++) walk(arg(x, i));
  };
  walk(e); return ok;
}
static u64 concretize(E e) {
  e = simp(fixsub(e));
  u64 x; if (isnum(e, &x)) return x;
  unsigned w = width(e);
  if (fv(e).n == 1 && !bvars[fv(e).v].rel && tab(e)) {      // over one byte: its values directly
    int v = fv(e).v; const Tab *t = tab(e);
    std::map<u64, Bits> part;
    for (int i = 0; i < 256; i++) if (bvars[v].dom.get(i)) part[t->v[i]].set(i);
    u64 first = part.begin()->first;
    if (part.size() > 1 && curM) { E y = meval(curM, e); u64 q; if (y && isnum(simp(y), &q) && part.count(q)) first = q; }
    for (auto &p : part) if (p.first != first) {
      if (getenv("SYMX_CONC")) fprintf(stderr, "conc1 %s %.300s\n", where().c_str(), Z3_ast_to_string(C, e));
      if (do_fork()) { add_pc(Eq(e, bvc(p.first, w))); msetup(nullptr); return p.first; }
    }
    if (part.size() > 1) add_pc(Eq(e, bvc(first, w)));
    return first;
  }
  { // a hash of several bytes: one byte after the other
    std::vector<int> vs; std::set<E> seen; bool mul = false, other = false;
    std::function<void(E)> walk = [&](E x) {
      if (kindof(x) != Z3_APP_AST || other || !seen.insert(x).second) return;
      FV f = fv(x);
      if (is_var(x)) { if (f.n == 1) vs.push_back(f.v); else other = true; return; }
      if (dk(x) == Z3_OP_BMUL) mul = true;
      for (unsigned i = 0; i < Z3_get_app_num_args(C, Z3_to_app(C, x)); i++) walk(arg(x, i));
    };
    walk(e);
    if (mul && !other && vs.size() > 1 && vs.size() <= 16) {
      for (int v : vs) concretize(bvars[v].e);
      return concretize(e);
    }
  }
  for (int i = 0; i < opt_max_conc; i++) {
    ensure_model();
    if (!curM) finish("unsupported", 0, "unknown while concretising in " + where());
    E v = meval(curM, e);
    if (!v || !isnum(simp(v), &x)) finish("unsupported", 0, "model eval in " + where());
    E c = Eq(e, bvc(x, w)), nc = Not(c);
    Z3_model m = nullptr;
    int r = check(nc, &m);
    if (r == 0) { if (is_var(e)) add_pc(c); return x; }
    if (getenv("SYMX_CONC")) fprintf(stderr, "conc %s %.300s\n", where().c_str(), Z3_ast_to_string(C, e));
    if (do_fork()) { add_pc(nc); msetup(m); continue; }
    add_pc(c);
    return x;
  }
  finish("unsupported", 0, "too many values in " + where());
}
static u64 conc(const Val &v) { return v.e ? concretize(v.e) : v.u; }
static u64 concw(const Val &v) { return conc(v); }

// ---------------------------------------------------------------- output terms
static std::vector<E> terms;
static std::unordered_map<E, int> termid;
static int term(E e) {
  auto it = termid.find(e);
  if (it != termid.end()) return it->second;
  Z3_inc_ref(C, e);
  int id = terms.size(); terms.push_back(e); termid[e] = id; return id;
}
struct Event { std::string s; };
static std::vector<std::string> events;

// ---------------------------------------------------------------- program representation
enum Opk : uint8_t { O_CONST, O_SLOT };
struct Opnd { int slot; Val c; };     // slot>=0: frame slot, else constant
struct GepIdx { Opnd o; i64 scale; unsigned w; };
struct Fn;
struct Inst {
  unsigned op; int dst = -1; unsigned w = 0;   // w: result/operand int width
  Type *ty = nullptr, *ty2 = nullptr;
  std::vector<Opnd> o;
  const Instruction *I = nullptr;
  i64 off = 0; std::vector<GepIdx> idx;
  int pred = 0;
  int t = -1, f = -1;                      // branch targets (block index)
  std::vector<std::pair<u64, int>> cases;
  const Function *callee = nullptr; int native = -1; int va_from = -1;
  u64 size = 0; unsigned al = 1;
};
struct Phi { int dst; std::map<int, Opnd> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> ins; const BasicBlock *bb; };
struct Fn { const Function *F; int nslots = 0; int nargs = 0; std::vector<Block> blocks; bool built = false; };
static const DataLayout *DL;
static Module *M;
static std::unordered_map<const Function *, Fn> fns;
static std::unordered_map<const Value *, u64> gaddr;
static std::map<u64, const Function *> faddr;
static const u64 FBASE = 0x400000;
static std::unordered_map<std::string, int> natives;
static Val native_call(int id, Inst &in, std::vector<Val> &a);
static unsigned intw(Type *t) { return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0; }

static Val const_val(const Constant *c) {
  Val r;
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { r.w[0] = ci->getValue().extractBitsAsZExtValue(64, 0); if (ci->getValue().getActiveBits() > 64) { fprintf(stderr, "symx: wide int\n"); exit(3);} return r; }
    r.u = ci->getZExtValue(); return r;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    r.w[0] = b.extractBitsAsZExtValue(std::min(64u, b.getBitWidth()), 0);
    if (b.getBitWidth() > 64) r.w[1] = b.extractBitsAsZExtValue(b.getBitWidth() - 64, 64);
    return r;
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return r;
  if (isa<GlobalValue>(c)) {
    const Value *v = c;
    if (auto *ga = dyn_cast<GlobalAlias>(c)) v = ga->getAliaseeObject();
    auto it = gaddr.find(v);
    if (it == gaddr.end()) { fprintf(stderr, "symx: no address for %s\n", c->getName().str().c_str()); exit(3); }
    r.u = it->second; return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
      r.u = const_val(ce->getOperand(0)).u + off.getSExtValue(); return r;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      return const_val(ce->getOperand(0));
    case Instruction::Trunc: r = const_val(ce->getOperand(0)); { unsigned w = intw(ce->getType()); if (w < 64) r.u &= (1ull << w) - 1; } return r;
    case Instruction::Sub: r.u = const_val(ce->getOperand(0)).u - const_val(ce->getOperand(1)).u; { unsigned w = intw(ce->getType()); if (w < 64) r.u &= (1ull << w) - 1; } return r;
    case Instruction::Add: r.u = const_val(ce->getOperand(0)).u + const_val(ce->getOperand(1)).u; { unsigned w = intw(ce->getType()); if (w < 64) r.u &= (1ull << w) - 1; } return r;
    case Instruction::ICmp: {
      u64 a = const_val(ce->getOperand(0)).u, b = const_val(ce->getOperand(1)).u;
      r.u = ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; return r;
    }
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "symx: unsupported constant %s\n", s.c_str()); exit(3);
}
static void init_mem(u64 a, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset((void *)a, 0, DL->getTypeAllocSize(t)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) init_mem(a + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) init_mem(a + i * sz, ca->getOperand(i));
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cd->getRawDataValues(); memcpy((void *)a, s.data(), s.size()); return;
  }
  Val v = const_val(c);
  memcpy((void *)a, v.w, std::min<u64>(16, DL->getTypeStoreSize(t)));
}

static void build(Fn &fn) {
  const Function *F = fn.F;
  fn.built = true;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> bi;
  int n = 0;
  for (auto &a : F->args()) slot[&a] = n++;
  fn.nargs = n;
  int b = 0;
  for (auto &bb : *F) { bi[&bb] = b++; for (auto &i : bb) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
  fn.nslots = n;
  auto opn = [&](const Value *v) -> Opnd {
    Opnd o; o.slot = -1;
    if (auto *c = dyn_cast<Constant>(v)) { o.c = const_val(c); return o; }
    auto it = slot.find(v);
    if (it == slot.end()) { return o; }
    o.slot = it->second; return o;
  };
  for (auto &bb : *F) {
    Block B; B.bb = &bb;
    for (auto &I : bb) {
      if (auto *ph = dyn_cast<PHINode>(&I)) {
        Phi p; p.dst = slot[ph];
        for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) p.in[bi[ph->getIncomingBlock(k)]] = opn(ph->getIncomingValue(k));
        B.phis.push_back(p); continue;
      }
      Inst in; in.I = &I; in.op = I.getOpcode(); in.ty = I.getType();
      if (!I.getType()->isVoidTy()) { in.dst = slot[&I]; in.w = intw(I.getType()); }
      switch (in.op) {
      case Instruction::Br: {
        auto *br = cast<BranchInst>(&I);
        in.t = bi[br->getSuccessor(0)];
        if (br->isConditional()) { in.f = bi[br->getSuccessor(1)]; in.o.push_back(opn(br->getCondition())); }
        break;
      }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(&I);
        in.o.push_back(opn(sw->getCondition())); in.w = intw(sw->getCondition()->getType());
        in.t = bi[sw->getDefaultDest()];
        for (auto &c : sw->cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]});
        break;
      }
      case Instruction::Call: {
        auto *ci = cast<CallInst>(&I);
        if (ci->isInlineAsm()) { fprintf(stderr, "symx: inline asm\n"); exit(3); }
        const Function *cf = ci->getCalledFunction();
        if (auto *ga = dyn_cast<GlobalAlias>(ci->getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject());
        in.callee = cf;
        if (cf && cf->isDeclaration()) {
          std::string nm = cf->getName().str();
          if (nm.rfind("llvm.", 0) == 0) {
            static const char *pfx[] = {"llvm.lifetime", "llvm.assume", "llvm.ctpop", "llvm.fshl", "llvm.fshr", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin",
              "llvm.memcpy", "llvm.memmove", "llvm.memset", "llvm.va_start", "llvm.va_end", "llvm.va_copy", "llvm.load.relative", "llvm.abs", "llvm.bswap",
              "llvm.ctlz", "llvm.cttz", "llvm.stacksave", "llvm.stackrestore", "llvm.experimental.noalias", "llvm.dbg", "llvm.trap", "llvm.fabs", "llvm.usub.sat", "llvm.uadd.sat", "llvm.expect", "llvm.bitreverse", "llvm.umul.with.overflow", "llvm.uadd.with.overflow","llvm.fptosi.sat","llvm.fptoui.sat"};
            in.native = -2;
            for (unsigned k = 0; k < sizeof pfx / sizeof *pfx; k++) if (nm.rfind(pfx[k], 0) == 0) in.native = 1000 + k;
          } else {
            auto it = natives.find(nm);
            in.native = it == natives.end() ? -2 : it->second;
          }
        }
        for (auto &x : ci->args()) {
          if (isa<MetadataAsValue>(x.get())) { in.o.push_back(Opnd{-1, Val()}); continue; }
          in.o.push_back(opn(x.get()));
        }
        if (!cf) in.o.push_back(opn(ci->getCalledOperand()));
        in.va_from = ci->getFunctionType()->isVarArg() ? (int)ci->getFunctionType()->getNumParams() : -1;
        break;
      }
      case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(&I);
        in.o.push_back(opn(g->getPointerOperand()));
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          if (StructType *st = it.getStructTypeOrNull()) {
            in.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
          } else {
            i64 sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *c = dyn_cast<ConstantInt>(it.getOperand())) in.off += sc * c->getSExtValue();
            else in.idx.push_back({opn(it.getOperand()), sc, intw(it.getOperand()->getType())});
          }
        }
        break;
      }
      case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(&I);
        in.size = DL->getTypeAllocSize(al->getAllocatedType()); in.al = std::max<u64>(16, al->getAlign().value());
        in.o.push_back(opn(al->getArraySize()));
        break;
      }
      case Instruction::Load: in.o.push_back(opn(I.getOperand(0))); in.size = DL->getTypeStoreSize(I.getType()); break;
      case Instruction::Store:
        in.o.push_back(opn(I.getOperand(0))); in.o.push_back(opn(I.getOperand(1)));
        in.ty2 = I.getOperand(0)->getType(); in.size = DL->getTypeStoreSize(in.ty2); in.w = intw(in.ty2);
        break;
      case Instruction::ICmp: case Instruction::FCmp:
        in.pred = cast<CmpInst>(&I)->getPredicate(); // fallthrough
      default:
        for (auto &x : I.operands()) in.o.push_back(opn(x.get()));
        if (I.getNumOperands()) { in.ty2 = I.getOperand(0)->getType(); if (in.op != Instruction::Select) { if (in.op == Instruction::ICmp || !in.w || isa<CastInst>(&I)) in.size = intw(in.ty2); } }
        if (auto *iv = dyn_cast<ExtractValueInst>(&I)) in.off = iv->getIndices()[0];
      }
      B.ins.push_back(std::move(in));
    }
    fn.blocks.push_back(std::move(B));
  }
}

// ---------------------------------------------------------------- integer / FP operations
static u64 msk(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static Val ibin(unsigned op, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.u, y = b.u, r = 0; unsigned sm = w == 64 ? 63 : 31;
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break;
    case Instruction::Mul: r = x * y; break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: r = x << (y & sm); break;
    case Instruction::LShr: r = x >> (y & sm); break;
    case Instruction::AShr: r = sx(x, w) >> (y & sm); break;
    case Instruction::UDiv: case Instruction::URem:
      if (!y) finish("divzero", 0, "division by zero in " + where());
      r = op == Instruction::UDiv ? x / y : x % y; break;
    case Instruction::SDiv: case Instruction::SRem: {
      i64 p = sx(x, w), q = sx(y, w);
      if (!q) finish("divzero", 0, "division by zero in " + where());
      if (q == -1) { if (p == sx(1ull << (w - 1), w)) finish("divzero", 0, "INT_MIN / -1 in " + where()); r = op == Instruction::SDiv ? -p : 0; }
      else r = op == Instruction::SDiv ? p / q : p % q; break;
    }
    default: finish("unsupported", 0, "int op");
    }
    return Val(msk(r, w));
  }
  if (w == 1) {
    E p = toE(a, 1), q = toE(b, 1);
    switch (op) {
    case Instruction::And: return fromE(And(p, q)); case Instruction::Or: return fromE(Or(p, q));
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromE(Z3_mk_xor(C, p, q));
    }
    finish("unsupported", 0, "i1 op");
  }
  E p = toE(a, w), q = toE(b, w), r = nullptr;
  switch (op) {
  case Instruction::Add: r = Z3_mk_bvadd(C, p, q); break; case Instruction::Sub: r = Z3_mk_bvsub(C, p, q); break;
  case Instruction::Mul: r = Z3_mk_bvmul(C, p, q); break;
  case Instruction::And: r = Z3_mk_bvand(C, p, q); break; case Instruction::Or: r = Z3_mk_bvor(C, p, q); break; case Instruction::Xor: r = Z3_mk_bvxor(C, p, q); break;
  // an out-of-range count behaves as the x86 instruction the real build executes (count masked)
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    E m = Z3_mk_bvand(C, q, bvc(w == 64 ? 63 : 31, w));
    r = op == Instruction::Shl ? Z3_mk_bvshl(C, p, m) : op == Instruction::LShr ? Z3_mk_bvlshr(C, p, m) : Z3_mk_bvashr(C, p, m); break;
  }
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    if (branch(Eq(q, bvc(0, w)))) finish("divzero", 0, "division by zero in " + where());
    if (op == Instruction::SDiv || op == Instruction::SRem)
      if (branch(And(Eq(q, bvc(~0ull, w)), Eq(p, bvc(1ull << (w - 1), w))))) finish("divzero", 0, "INT_MIN / -1 in " + where());
    r = op == Instruction::UDiv ? Z3_mk_bvudiv(C, p, q) : op == Instruction::URem ? Z3_mk_bvurem(C, p, q) :
        op == Instruction::SDiv ? Z3_mk_bvsdiv(C, p, q) : Z3_mk_bvsrem(C, p, q); break;
  }
  default: finish("unsupported", 0, "int op");
  }
  return fromE(r);
}
static Val icmp(int pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.u, y = b.u; i64 p = sx(x, w), q = sx(y, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
    case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
    case CmpInst::ICMP_SLT: return p < q; case CmpInst::ICMP_SLE: return p <= q; case CmpInst::ICMP_SGT: return p > q; case CmpInst::ICMP_SGE: return p >= q;
    }
  }
  E p = toE(a, w), q = toE(b, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return fromE(Eq(p, q)); case CmpInst::ICMP_NE: return fromE(Not(Eq(p, q)));
  case CmpInst::ICMP_ULT: return fromE(Z3_mk_bvult(C, p, q)); case CmpInst::ICMP_ULE: return fromE(Z3_mk_bvule(C, p, q));
  case CmpInst::ICMP_UGT: return fromE(Z3_mk_bvugt(C, p, q)); case CmpInst::ICMP_UGE: return fromE(Z3_mk_bvuge(C, p, q));
  case CmpInst::ICMP_SLT: return fromE(Z3_mk_bvslt(C, p, q)); case CmpInst::ICMP_SLE: return fromE(Z3_mk_bvsle(C, p, q));
  case CmpInst::ICMP_SGT: return fromE(Z3_mk_bvsgt(C, p, q)); case CmpInst::ICMP_SGE: return fromE(Z3_mk_bvsge(C, p, q));
  }
  finish("unsupported", 0, "icmp");
}
static Val fbin(unsigned op, const Val &a, const Val &b, Type *t) {
  Val r;
  if (!a.e && !b.e) {
#define FB(f) switch (op) { case Instruction::FAdd: r.f = a.f + b.f; break; case Instruction::FSub: r.f = a.f - b.f; break; \
      case Instruction::FMul: r.f = a.f * b.f; break; case Instruction::FDiv: r.f = a.f / b.f; break; default: finish("unsupported", 0, "frem"); }
    if (t->isFloatTy()) { FB(f) } else if (t->isDoubleTy()) { FB(d) } else { FB(ld) }
    return r;
  }
  E p = fpE(a, t), q = fpE(b, t);
  switch (op) {
  case Instruction::FAdd: r.e = Z3_mk_fpa_add(C, rne(), p, q); break; case Instruction::FSub: r.e = Z3_mk_fpa_sub(C, rne(), p, q); break;
  case Instruction::FMul: r.e = Z3_mk_fpa_mul(C, rne(), p, q); break; case Instruction::FDiv: r.e = Z3_mk_fpa_div(C, rne(), p, q); break;
  default: finish("unsupported", 0, "frem");
  }
  Z3_inc_ref(C, r.e);
  return r;
}
static Val fcmp(int pred, const Val &a, const Val &b, Type *t) {
  if (!a.e && !b.e) {
    long double x = t->isFloatTy() ? (long double)a.f : t->isDoubleTy() ? (long double)a.d : a.ld;
    long double y = t->isFloatTy() ? (long double)b.f : t->isDoubleTy() ? (long double)b.d : b.ld;
    bool un = std::isnan(x) || std::isnan(y);
    switch (pred) {
    case CmpInst::FCMP_OEQ: return !un && x == y; case CmpInst::FCMP_OGT: return !un && x > y; case CmpInst::FCMP_OGE: return !un && x >= y;
    case CmpInst::FCMP_OLT: return !un && x < y; case CmpInst::FCMP_OLE: return !un && x <= y; case CmpInst::FCMP_ONE: return !un && x != y;
    case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || x == y;
    case CmpInst::FCMP_UNE: return un || x != y; case CmpInst::FCMP_UGT: return un || x > y; case CmpInst::FCMP_UGE: return un || x >= y;
    case CmpInst::FCMP_ULT: return un || x < y; case CmpInst::FCMP_ULE: return un || x <= y; case CmpInst::FCMP_TRUE: return 1; case CmpInst::FCMP_FALSE: return (u64)0;
    }
  }
  E p = fpE(a, t), q = fpE(b, t), un = Or(Z3_mk_fpa_is_nan(C, p), Z3_mk_fpa_is_nan(C, q)), c = nullptr;
  switch (pred & 7) {
  case CmpInst::FCMP_OEQ: c = Z3_mk_fpa_eq(C, p, q); break; case CmpInst::FCMP_OGT: c = Z3_mk_fpa_gt(C, p, q); break; case CmpInst::FCMP_OGE: c = Z3_mk_fpa_geq(C, p, q); break;
  case CmpInst::FCMP_OLT: c = Z3_mk_fpa_lt(C, p, q); break; case CmpInst::FCMP_OLE: c = Z3_mk_fpa_leq(C, p, q); break;
  case CmpInst::FCMP_ONE: c = And(Not(un), Not(Z3_mk_fpa_eq(C, p, q))); break; case CmpInst::FCMP_ORD: c = Not(un); break; case 0: c = Z3_mk_false(C); break;
  }
  if (pred & 8) c = pred == CmpInst::FCMP_TRUE ? Z3_mk_true(C) : Or(un, c);
  return fromE(c);
}
static Val cast_op(Inst &in, const Val &a) {
  unsigned op = in.op, w = in.w, w0 = in.size; Type *t = in.ty, *t0 = in.ty2; Val r;
  switch (op) {
  case Instruction::Trunc:
    if (!a.e) return Val(msk(a.u, w));
    if (w == 1) return fromE(Eq(Z3_mk_extract(C, 0, 0, a.e), bvc(1, 1)));
    return fromE(Z3_mk_extract(C, w - 1, 0, a.e));
  case Instruction::ZExt:
    if (!a.e) return a;
    if (w0 == 1) return fromE(bool2bv(a.e, w));
    return fromE(Z3_mk_zero_ext(C, w - w0, a.e));
  case Instruction::SExt:
    if (!a.e) return Val(msk(sx(a.u, w0), w));
    if (w0 == 1) return fromE(Ite(a.e, bvc(~0ull, w), bvc(0, w)));
    return fromE(Z3_mk_sign_ext(C, w - w0, a.e));
  case Instruction::PtrToInt: if (w < 64) { return a.e ? fromE(Z3_mk_extract(C, w - 1, 0, a.e)) : Val(msk(a.u, w)); } return a;
  case Instruction::IntToPtr: if (w0 < 64) { return a.e ? fromE(Z3_mk_zero_ext(C, 64 - w0, a.e)) : a; } return a;
  case Instruction::BitCast: {
    bool f0 = t0->isFloatingPointTy(), f1 = t->isFloatingPointTy();
    if (!a.e || f0 == f1) return a;
    if (f0) return fromE(fp_to_bv(a.e, t0));
    r.e = Z3_mk_fpa_to_fp_bv(C, a.e, fps(t)); Z3_inc_ref(C, r.e); return r;
  }
  case Instruction::FPTrunc: case Instruction::FPExt:
    if (!a.e) {
      long double x = t0->isFloatTy() ? (long double)a.f : t0->isDoubleTy() ? (long double)a.d : a.ld;
      if (t->isFloatTy()) { if (t0->isDoubleTy()) r.f = (float)a.d; else r.f = (float)x; } else if (t->isDoubleTy()) r.d = (double)x; else r.ld = x;
      return r;
    }
    r.e = Z3_mk_fpa_to_fp_float(C, rne(), a.e, fps(t)); Z3_inc_ref(C, r.e); return r;
  case Instruction::SIToFP: case Instruction::UIToFP:
    if (!a.e) {
      if (op == Instruction::SIToFP) { i64 x = sx(a.u, w0); if (t->isFloatTy()) r.f = x; else if (t->isDoubleTy()) r.d = x; else r.ld = x; }
      else { u64 x = a.u; if (t->isFloatTy()) r.f = x; else if (t->isDoubleTy()) r.d = x; else r.ld = x; }
      return r;
    }
    { E x = w0 == 1 ? bool2bv(a.e, 8) : a.e; Z3_sort s = fps(t);
      r.e = op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(C, rne(), x, s) : Z3_mk_fpa_to_fp_unsigned(C, rne(), x, s); Z3_inc_ref(C, r.e); return r; }
  case Instruction::FPToSI: case Instruction::FPToUI:
    if (!a.e) {
      long double x = t0->isFloatTy() ? (long double)a.f : t0->isDoubleTy() ? (long double)a.d : a.ld;
      if (op == Instruction::FPToSI) r.u = msk((u64)(i64)x, w); else r.u = msk(w < 64 ? (u64)(i64)x : (u64)x, w);
      return r;
    }
    { E rm = Z3_mk_fpa_rtz(C);
      return fromE(op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(C, rm, a.e, w) : Z3_mk_fpa_to_ubv(C, rm, a.e, w)); }
  }
  finish("unsupported", 0, "cast");
}

// ---------------------------------------------------------------- symbolic addresses
static bool find_obj(u64 a, u64 *lo, u64 *sz) {
  for (auto *mp : {&stkobjs, &objs}) {
    auto it = mp->upper_bound(a);
    if (it == mp->begin()) continue;
    --it;
    if (a < it->first + std::max<u64>(it->second, 1)) { *lo = it->first; *sz = it->second; return true; }
  }
  return false;
}
// Returns a concrete address, forking over feasible ones; checks bounds of each.
static u64 conc_addr(const Val &p, u64 n, const char *what) { u64 a = conc(p); chk_mem(a, n, what); return a; }
static Val load_at(u64 a, Type *t, u64 n, unsigned w);
static Val mem_load(const Val &p, Type *t, u64 n, unsigned w) {
  if (!p.e) return load_at(p.u, t, n, w);
  // symbolic address into one object, integer result: ITE over the feasible cells
  FV pf = fv(p.e);
  if (w && w <= 64 && !t->isPointerTy() && pf.n == 1 && !is_hash(p.e) && tab(p.e)) {
    const Tab *q = tab(p.e);
    std::map<u64, int> as;
    for (int i = 0; i < 256; i++) if (bvars[pf.v].dom.get(i)) as[q->v[i]] = 1;
    u64 lo, sz;
    bool in = as.size() > 4 && find_obj(as.begin()->first, &lo, &sz);
    if (in) for (auto &x : as) if (x.first < lo || x.first + n > lo + sz) in = false;
    if (in) {
      E r = nullptr;
      for (auto &x : as) {
        u64 a = x.first; chk_mem(a, n, "read");
        E y = has_sym(a, n) ? load_expr(a, n) : nullptr;
        if (!y) { u64 z = 0; memcpy(&z, (void *)a, n); y = bvc(z, n * 8); }
        r = r ? Ite(Eq(p.e, bvc(a, 64)), y, r) : y;
      }
      Val v = fromE(r);
      if (w == 1) return v.e ? fromE(Not(Eq(Z3_mk_extract(C, 0, 0, v.e), bvc(0, 1)))) : Val(v.u & 1);
      if (w != n * 8 && v.e) return fromE(Z3_mk_extract(C, w - 1, 0, v.e));
      return v;
    }
  } else if (w && (pf.n == 1 || is_hash(p.e) || only_bytes(p.e)));      // few values, a hash, or a position in a text: fork
  else if (w && w <= 64 && !t->isPointerTy()) {
    if (getenv("SYMX_SLOW")) fprintf(stderr, "ld %s %d %.300s\n", where().c_str(), pf.n, Z3_ast_to_string(C, p.e));
    ensure_model(); u64 v, lo, sz;
    E pv = curM ? meval(curM, p.e) : nullptr;
    if (pv && isnum(simp(pv), &v) && find_obj(v, &lo, &sz) && sz >= n && sz <= 8192) {
      E inb = And(Z3_mk_bvuge(C, p.e, bvc(lo, 64)), Z3_mk_bvule(C, p.e, bvc(lo + sz - n, 64)));
      if (check(Not(inb)) == 0) {
        u64 st = 1;
        for (u64 s = 8; s > 1; s >>= 1) if (n % s == 0 || s <= n) { if (check(Not(Eq(Z3_mk_bvand(C, p.e, bvc(s - 1, 64)), bvc(v & (s - 1), 64)))) == 0) { st = s; break; } }
        if ((sz - n) / st <= 1100) {
          E r = nullptr;
          for (u64 a = lo + ((v - lo) % st); a + n <= lo + sz; a += st) {
            chk_mem(a, n, "read");
            E x = has_sym(a, n) ? load_expr(a, n) : nullptr;
            if (!x) { u64 y = 0; memcpy(&y, (void *)a, n); x = bvc(y, n * 8); }
            r = r ? Ite(Eq(p.e, bvc(a, 64)), x, r) : x;
          }
          Val q = fromE(r);
          if (w == 1) return q.e ? fromE(Not(Eq(q.e, bvc(0, 8)))) : Val(q.u & 1);
          if (w != n * 8 && q.e) return fromE(Z3_mk_extract(C, w - 1, 0, q.e));
          return q;
        }
      }
    }
  }
  return load_at(conc_addr(p, n, "read"), t, n, w);
}
static Val load_at(u64 a, Type *t, u64 n, unsigned w) {
  chk_mem(a, n, "read");
  Val r;
  if (sympg[(a - ARENA) >> 12] || sympg[(a + n - 1 - ARENA) >> 12]) {
    if (has_sym(a, n)) {
      E e = load_expr(a, n);
      if (w) {
        if (w == 1) return fromE(Not(Eq(Z3_mk_extract(C, 0, 0, e), bvc(0, 1))));
        if (w != n * 8) return fromE(Z3_mk_extract(C, w - 1, 0, e));
        return fromE(e);
      }
      if (t->isX86_FP80Ty()) e = Z3_mk_concat(C, Z3_mk_extract(C, 79, 64, e), Z3_mk_extract(C, 62, 0, e));
      r.e = Z3_mk_fpa_to_fp_bv(C, simp(e), fps(t)); Z3_inc_ref(C, r.e); return r;
    }
  }
  memcpy(r.w, (void *)a, std::min<u64>(n, 16));
  if (w && w < 64) r.u = msk(r.u, w);
  return r;
}
static void mem_store(const Val &p, const Val &v, Type *t, u64 n, unsigned w) {
  u64 a = p.e ? conc_addr(p, n, "write") : p.u;
  chk_mem(a, n, "write");
  if (v.e) {
    E e = v.e;
    if (w == 1) e = bool2bv(e, 8);
    else if (w) { if (w != n * 8) e = simp(Z3_mk_zero_ext(C, n * 8 - w, e)); }
    else e = simp(fp_to_bv(e, t));
    store_expr(a, e, n);
    return;
  }
  memcpy((void *)a, v.w, std::min<u64>(n, 16));
  clr_sym(a, n);
}

// ---------------------------------------------------------------- interpreter
static u64 icount;
static Val run(const Function *F, std::vector<Val> &args, u64 va_area);
static Val call_fn(const Function *f, Inst &in, std::vector<Val> &a);
static u64 make_va_area(Inst &in, std::vector<Val> &a, int from) {
  u64 tot = 16; for (size_t i = from; i < a.size(); i++) tot += 16 + 16;
  u64 base = heap_alloc(tot), p = base;
  auto *ci = cast<CallInst>(in.I);
  for (size_t i = from; i < a.size(); i++) {
    Type *t = ci->getArgOperand(i)->getType();
    u64 n = DL->getTypeStoreSize(t);
    if (t->isX86_FP80Ty()) p = (p + 15) & ~15ull;
    if (t->isFloatTy()) finish("unsupported", 0, "float vararg");
    // Store as full 8-byte slot
    if (!a[i].e && !t->isX86_FP80Ty()) { *(u64 *)p = a[i].u; }
    else mem_store(Val(p), a[i], t, n, intw(t));
    p += t->isX86_FP80Ty() ? 16 : 8;
  }
  return base;
}
static void set_va_list(u64 ap, u64 area) {
  chk_mem(ap, 24, "write"); clr_sym(ap, 24);
  ((uint32_t *)ap)[0] = 48; ((uint32_t *)ap)[1] = 176; ((u64 *)ap)[1] = area; ((u64 *)ap)[2] = 0;
}
static Val intrinsic(int k, Inst &in, std::vector<Val> &a, u64 va_area);
static std::map<const Function *, int> fnidx;
static void note_fn(const Function *F) {
  if (fnidx.empty()) for (auto &f : *F->getParent()) { int k = fnidx.size(); fnidx[&f] = k; }
  int k = fnidx[F];
  if (k >= 4096 || SH->fnused[k]) return;
  SH->fnused[k] = 1;
  std::string n = F->getName().str() + ",";
  int at = FAA(SH->nnames, (int)n.size());
  if (at + n.size() < sizeof SH->names) memcpy(SH->names + at, n.data(), n.size());
}
static Val run(const Function *F, std::vector<Val> &args, u64 va_area) {
  Fn &fn = fns[F];
  if (!fn.F) fn.F = F;
  if (!fn.built) { build(fn); note_fn(F); }
  callstack.push_back(F);
  if (callstack.size() > 20000) finish("stackoverflow", 0, "recursion too deep in " + where());
  std::vector<Val> R(fn.nslots);
  for (int i = 0; i < fn.nargs && i < (int)args.size(); i++) R[i] = args[i];
  u64 stk_save = stk_top;
  int cur = 0, prev = -1;
  auto get = [&](const Opnd &o) -> const Val & { return o.slot >= 0 ? R[o.slot] : o.c; };
  Val ret;
  std::vector<Val> tmp;
  for (;;) {
    Block &B = fn.blocks[cur];
    if (!B.phis.empty()) {
      tmp.clear();
      for (auto &p : B.phis) tmp.push_back(get(p.in.find(prev)->second));
      for (size_t i = 0; i < B.phis.size(); i++) R[B.phis[i].dst] = tmp[i];
    }
    int next = -1;
    for (auto &in : B.ins) {
      if ((++icount & 0xfffff) == 0) {
        FAA(SH->insts, 0x100000);
        budget();
        if (icount > opt_max_insts) finish("insts", 0, "instruction budget in " + where());
      }
      switch (in.op) {
      case Instruction::Br:
        if (in.f < 0) { next = in.t; break; }
        { const Val &c = get(in.o[0]); bool t = c.e ? branch(c.e) : (c.u & 1); next = t ? in.t : in.f; }
        break;
      case Instruction::Switch: {
        const Val &c = get(in.o[0]);
        next = in.t;
        if (!c.e) { for (auto &k : in.cases) if (k.first == c.u) { next = k.second; break; } break; }
        // group by destination
        std::map<int, E> dst; E any = nullptr;
        E ce = c.e;
        for (auto &k : in.cases) { E q = in.w == 1 ? (k.first ? ce : Not(ce)) : Eq(ce, bvc(k.first, in.w)); dst[k.second] = dst.count(k.second) ? Or(dst[k.second], q) : q; any = any ? Or(any, q) : q; }
        if (any && branch(any)) {
          size_t i = 0;
          for (auto &d : dst) { if (++i == dst.size() || branch(d.second)) { next = d.first; break; } }
        }
        break;
      }
      case Instruction::Ret: if (!in.o.empty()) ret = get(in.o[0]); goto done;
      case Instruction::Unreachable: finish("unreachable", 0, "unreachable in " + where());
      case Instruction::Alloca: {
        u64 n = conc(get(in.o[0])) * in.size;
        u64 a = (stk_top + 16 + in.al - 1) / in.al * in.al;
        stk_top = a + n + 16;
        if (stk_top > STK0 + STK_SZ - 4096) finish("stackoverflow", 0, "stack overflow in " + where());
        unpoison(a, n); stkobjs[a] = n; clr_sym(a, n);
        R[in.dst] = Val(a); break;
      }
      case Instruction::Load: R[in.dst] = mem_load(get(in.o[0]), in.ty, in.size, in.w); break;
      case Instruction::Store: mem_store(get(in.o[1]), get(in.o[0]), in.ty2, in.size, in.w); break;
      case Instruction::GetElementPtr: {
        Val b = get(in.o[0]);
        if (in.off) b = b.e ? ibin(Instruction::Add, b, Val((u64)in.off), 64) : Val(b.u + in.off);
        for (auto &x : in.idx) {
          const Val &i = get(x.o);
          if (!i.e) b = b.e ? ibin(Instruction::Add, b, Val((u64)(sx(i.u, x.w) * x.scale)), 64) : Val(b.u + sx(i.u, x.w) * x.scale);
          else {
            E e = x.w < 64 ? Z3_mk_sign_ext(C, 64 - x.w, i.e) : i.e;
            e = Z3_mk_bvmul(C, e, bvc(x.scale, 64));
            b = fromE(Z3_mk_bvadd(C, toE(b, 64), e));
          }
        }
        R[in.dst] = b; break;
      }
      case Instruction::ICmp: R[in.dst] = icmp(in.pred, get(in.o[0]), get(in.o[1]), in.size); break;
      case Instruction::FCmp: R[in.dst] = fcmp(in.pred, get(in.o[0]), get(in.o[1]), in.ty2); break;
      case Instruction::Select: {
        const Val &c = get(in.o[0]); const Val &x = get(in.o[1]), &y = get(in.o[2]);
        if (!c.e) { R[in.dst] = (c.u & 1) ? x : y; break; }
        if (!in.w) { if (in.ty->isFloatingPointTy()) { Val r; r.e = Ite(c.e, fpE(x, in.ty), fpE(y, in.ty)); Z3_inc_ref(C, r.e); R[in.dst] = r; break; } R[in.dst] = branch(c.e) ? x : y; break; }
        if (in.ty->isPointerTy() && !(x.e == nullptr && y.e == nullptr && x.u == y.u)) { R[in.dst] = branch(c.e) ? x : y; break; }
        R[in.dst] = fromE(Ite(c.e, toE(x, in.w), toE(y, in.w))); break;
      }
      case Instruction::Freeze: R[in.dst] = get(in.o[0]); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::BitCast: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP:
      case Instruction::FPToSI: case Instruction::FPToUI:
        R[in.dst] = cast_op(in, get(in.o[0])); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        R[in.dst] = fbin(in.op, get(in.o[0]), get(in.o[1]), in.ty); break;
      case Instruction::FNeg: {
        const Val &a = get(in.o[0]); Val r;
        if (a.e) { r.e = Z3_mk_fpa_neg(C, a.e); Z3_inc_ref(C, r.e); }
        else { r = a; if (in.ty->isFloatTy()) r.f = -a.f; else if (in.ty->isDoubleTy()) r.d = -a.d; else r.w[1] ^= 0x8000; }
        R[in.dst] = r; break;
      }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        R[in.dst] = ibin(in.op, get(in.o[0]), get(in.o[1]), in.w); break;
      case Instruction::Call: {
        std::vector<Val> a; a.reserve(in.o.size());
        for (auto &o : in.o) a.push_back(get(o));
        Val r;
        if (in.native >= 1000) r = intrinsic(in.native - 1000, in, a, va_area);
        else r = call_fn(in.callee, in, a);
        if (in.dst >= 0) R[in.dst] = r;
        break;
      }
      default: finish("unsupported", 0, std::string("opcode ") + in.I->getOpcodeName());
      }
      if (next >= 0) break;
    }
    prev = cur; cur = next;
  }
done:
  if (stk_top != stk_save) {
    poison(stk_save, stk_top - stk_save);
    stkobjs.erase(stkobjs.lower_bound(stk_save), stkobjs.end());
    stk_top = stk_save;
  }
  callstack.pop_back();
  return ret;
}
static Val call_fn(const Function *f, Inst &in, std::vector<Val> &a) {
  if (!f) {
    Val fp = a.back(); a.pop_back();
    u64 p = conc(fp);
    auto it = faddr.find(p);
    if (it == faddr.end()) finish("memerror", 0, "call through invalid pointer in " + where());
    f = it->second;
    if (f->isDeclaration()) {
      auto n = natives.find(f->getName().str());
      if (n == natives.end()) finish("unsupported", 0, "external " + f->getName().str());
      return native_call(n->second, in, a);
    }
  }
  if (f->isDeclaration()) {
    if (in.native < 0) finish("unsupported", 0, "external " + f->getName().str());
    return native_call(in.native, in, a);
  }
  u64 va = 0;
  if (f->isVarArg()) va = make_va_area(in, a, f->arg_size());
  return run(f, a, va);
}
static Val intrinsic(int k, Inst &in, std::vector<Val> &a, u64 va_area) {
  unsigned w = in.w;
  switch (k) {
  case 0: return Val();
  case 1: return Val();
  case 2: { if (!a[0].e) return Val(__builtin_popcountll(a[0].u));
      E r = bvc(0, w); for (unsigned i = 0; i < w; i++) r = Z3_mk_bvadd(C, r, Z3_mk_zero_ext(C, w - 1, Z3_mk_extract(C, i, i, a[0].e))); return fromE(r); }
  case 3: case 4: {
      if (!a[0].e && !a[1].e && !a[2].e) { unsigned s = a[2].u % w; u64 r; if (k == 3) r = s ? (a[0].u << s) | (msk(a[1].u, w) >> (w - s)) : a[0].u; else r = s ? (a[0].u << (w - s)) | (msk(a[1].u, w) >> s) : a[1].u; return Val(msk(r, w)); }
      u64 s = conc(a[2]) % w; E c = Z3_mk_concat(C, toE(a[0], w), toE(a[1], w));
      if (k == 3) return fromE(Z3_mk_extract(C, 2 * w - 1 - s, w - s, c));
      return fromE(Z3_mk_extract(C, w - 1 + s, s, c)); }
  case 5: case 6: case 7: case 8: {
      static int pr[] = {CmpInst::ICMP_SGT, CmpInst::ICMP_SLT, CmpInst::ICMP_UGT, CmpInst::ICMP_ULT};
      Val c = icmp(pr[k - 5], a[0], a[1], w);
      if (!c.e) return c.u ? a[0] : a[1];
      return fromE(Ite(c.e, toE(a[0], w), toE(a[1], w))); }
  case 9: case 10: mem_move(conc(a[0]), conc(a[1]), conc(a[2])); return Val();
  case 11: {
      u64 d = conc(a[0]), n = conc(a[2]); if (!n) return Val();
      chk_mem(d, n, "write");
      if (a[1].e) { for (u64 i = 0; i < n; i++) store_expr(d + i, a[1].e, 1); }
      else { memset((void *)d, (int)a[1].u, n); clr_sym(d, n); }
      return Val(); }
  case 12: set_va_list(conc(a[0]), va_area); return Val();
  case 13: return Val();
  case 15: { u64 p = a[0].u; i64 o = sx(conc(a[1]), 64); chk_mem(p + o, 4, "read"); return Val(p + *(int32_t *)(p + o)); }
  case 16: { Val n = ibin(Instruction::Sub, Val(0), a[0], w); Val c = icmp(CmpInst::ICMP_SLT, a[0], Val(0), w); if (!c.e) return c.u ? n : a[0]; return fromE(Ite(c.e, toE(n, w), toE(a[0], w))); }
  case 17: if (!a[0].e) return Val(msk(__builtin_bswap64(a[0].u) >> (64 - w), w)); { E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = Z3_mk_extract(C, i * 8 + 7, i * 8, a[0].e); r = r ? Z3_mk_concat(C, r, b) : b; } return fromE(r); }
  case 18: { u64 x = conc(a[0]); return Val(x ? __builtin_clzll(x) - (64 - w) : w); }
  case 19: { u64 x = conc(a[0]); return Val(x ? __builtin_ctzll(x) : w); }
  case 20: return Val(stk_top);
  case 21: return Val();
  case 22: case 23: return Val();
  case 24: finish("abort", 0, "trap in " + where());
  case 26: { Val c = icmp(CmpInst::ICMP_UGT, a[0], a[1], w); Val d = ibin(Instruction::Sub, a[0], a[1], w); if (!c.e) return c.u ? d : Val(0); return fromE(Ite(c.e, toE(d, w), bvc(0, w))); }
  case 27: { Val d = ibin(Instruction::Add, a[0], a[1], w); Val c = icmp(CmpInst::ICMP_ULT, d, a[0], w); if (!c.e) return c.u ? Val(msk(~0ull, w)) : d; return fromE(Ite(c.e, bvc(~0ull, w), toE(d, w))); }
  case 28: return a[0];
  }
  finish("unsupported", 0, "intrinsic " + in.callee->getName().str());
}
static E find_hole_var(const std::string &n);
struct HoleSpec { std::string name, kind, where; u64 off, len; };
static std::vector<HoleSpec> hspecs;
static std::unordered_map<E, E> hexnib;       // hex char expr -> nibble expr
static bool branch_assume(E c) {              // restrict this path to c; false if impossible
  c = simp(c);
  if (istrue(c)) return true;
  if (isfalse(c)) return false;
  if (curM) { E v = meval(curM, c); if (v && istrue(v)) { add_pc(c); return true; } }
  Z3_model m = nullptr;
  int r = check(c, &m);
  if (r == 0) return false;
  add_pc(c); msetup(m);
  return true;
}
#include "natives.inc"

// ---------------------------------------------------------------- results
static std::vector<std::pair<std::string, E>> holes;    // name, variable
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string hole_json(Z3_model m) {
  std::string s = "{";
  for (auto &h : holes) {
    E v = m ? meval(m, h.second) : nullptr;
    std::string t = v ? Z3_get_numeral_string(C, v) : "?";
    if (s.size() > 1) s += ",";
    s += jstr(h.first) + ":" + jstr(t);
  }
  return s + "}";
}
static std::string smt_script() {
  std::vector<E> as(PC);
  for (size_t i = 0; i < terms.size(); i++) {
    E t = terms[i]; char nm[32]; snprintf(nm, 32, "S!%zu", i);
    E v = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_get_sort(C, t));
    as.push_back(Eq(v, t));
  }
  E tr = Z3_mk_true(C);
  return Z3_benchmark_to_smtlib_string(C, "p", "", "unknown", "", as.size(), as.data(), tr);
}
static std::string stream_text(u64 buf, u64 n) {
  std::string s;
  for (u64 i = 0; i < n; i++) {
    SymB *b = symb(buf + i);
    if (b && b->base) {
      E e = load_expr(buf + i, 1); u64 x;
      if (isnum(e, &x)) { s += (char)x; continue; }
      char t[40]; snprintf(t, 40, "\x02" "B%d\x03", term(e)); s += t;
    } else s += *(char *)(buf + i);
  }
  return s;
}
static bool finishing;
static void write_rec(std::string s) {      // one write() on an O_APPEND descriptor per record
  s += "\n";
  size_t o = 0;
  while (o < s.size()) { ssize_t n = write(outfd, s.data() + o, s.size() - o); if (n <= 0) { if (errno == EINTR) continue; SH->stop = 5; break; } o += n; }
}
[[noreturn]] static void finish(const char *how, int code, const std::string &msg, Z3_model m) {
  if (finishing) { _exit(3); }
  finishing = true;
  FAA(SH->insts, icount & 0xfffff);
  FAA(SH->paths, 1);
  ensure_model();
  if (!m) m = curM;
  std::string o = "{\"end\":" + jstr(how) + ",\"code\":" + std::to_string(code) + ",\"msg\":" + jstr(msg) + ",\"model\":" + hole_json(m);
  o += ",\"files\":{";
  bool first = true;
  for (auto &f : files_out()) {
    if (!first) o += ","; first = false;
    o += jstr(f.first) + ":" + jstr(stream_text(f.second.first, f.second.second));
  }
  o += "},\"events\":[";
  for (size_t i = 0; i < events.size(); i++) o += (i ? "," : "") + jstr(events[i]);
  o += "],\"nums\":" + std::to_string(nums_applied) + ",\"npc\":" + std::to_string(PC.size()) + ",\"smt\":" + jstr(smt_script()) + "}";
  write_rec(o);
  path_exit(0);
  _exit(0);
}

// ---------------------------------------------------------------- driver
static std::vector<std::string> prog_args;
static void apply_holes(u64 buf, u64 n, const std::string &which);
static std::vector<std::string> asserts;      // SMT-LIB2 text over hole variables
static std::set<std::string> applied;
static E hole_var(const std::string &nm, unsigned w) {
  E v = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bvs(w));
  Z3_inc_ref(C, v);
  holes.push_back({nm, v});
  return v;
}
static void pre_declare() {     // declare all hole variables and add the assumptions on them
  for (auto &h : hspecs) {
    if (h.kind == "hex") hole_var(h.name, h.len * 4);
    else if (h.kind == "num" || h.kind == "var") hole_var(h.name, h.len);
    else hole_var(h.name, h.len * 8);
  }
  std::string txt;
  for (auto &h : holes) txt += "(declare-const |" + h.first + "| (_ BitVec " + std::to_string(width(h.second)) + "))\n";
  for (auto &a : asserts) {
    std::string t = txt + "(assert " + a + ")";
    Z3_ast_vector v = Z3_parse_smtlib2_string(C, t.c_str(), 0, 0, 0, 0, 0, 0);
    Z3_ast_vector_inc_ref(C, v);
    for (unsigned i = 0; i < Z3_ast_vector_size(C, v); i++) add_pc(Z3_ast_vector_get(C, v, i));
  }
}
static E find_hole_var(const std::string &n) { for (auto &h : holes) if (h.first == n) return h.second; return nullptr; }
static void apply_holes(u64 buf, u64 n, const std::string &which) {
  for (auto &h : hspecs) {
    if (h.where != which || h.kind == "num" || h.kind == "var") continue;
    if (h.off + h.len > n) { fprintf(stderr, "symx: hole %s outside %s\n", h.name.c_str(), which.c_str()); _exit(3); }
    E v = find_hole_var(h.name);
    for (u64 i = 0; i < h.len; i++) {
      E b;
      if (h.kind == "hex") {
        unsigned hi = (h.len - i) * 4 - 1;
        E nb = h.len == 1 ? v : Z3_mk_extract(C, hi, hi - 3, v);
        E n8 = Z3_mk_zero_ext(C, 4, nb);
        b = simp(Ite(Z3_mk_bvult(C, nb, bvc(10, 4)), Z3_mk_bvadd(C, n8, bvc('0', 8)), Z3_mk_bvadd(C, n8, bvc('a' - 10, 8))));
        Z3_inc_ref(C, b); Z3_inc_ref(C, nb);
        hexnib[b] = nb;
      } else {                   // bytes: byte i of the hole = bits [8i+7:8i]
        b = h.len == 1 ? v : Z3_mk_extract(C, i * 8 + 7, i * 8, v);
      }
      b = simp(b);
      store_expr(buf + i + h.off, b, 1);
    }
  }
}
static void *main_thread(void *) {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, zerr);
  new_solver(false);
  pre_declare();
  ensure_model();
  // argv
  std::vector<Val> a;
  u64 av = heap_alloc((prog_args.size() + 1) * 8);
  memset((void *)av, 0, (prog_args.size() + 1) * 8);
  for (size_t i = 0; i < prog_args.size(); i++) {
    u64 s = heap_alloc(prog_args[i].size() + 1);
    memcpy((void *)s, prog_args[i].c_str(), prog_args[i].size() + 1);
    apply_holes(s, prog_args[i].size(), "argv" + std::to_string(i));
    ((u64 *)av)[i] = s;
  }
  a.push_back(Val(prog_args.size())); a.push_back(Val(av));
  Function *mf = M->getFunction("sym_main");
  if (!mf || mf->isDeclaration()) mf = M->getFunction("main");
  Val r = run(mf, a, 0);
  do_exit(r.e ? (int)conc(r) : (int)r.u);
  return nullptr;
}
// code points up to 255 of the configuration stand for bytes
static std::string latin1(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if ((c == 0xc2 || c == 0xc3) && i + 1 < s.size()) r += (char)((c & 3) << 6 | (s[++i] & 63)); else r += (char)c; }
  return r;
}
int main(int argc, char **argv) {
  // symx module.bc config.json : see harness in lib/symx.py
  if (argc < 3) { fprintf(stderr, "usage: symx module.bc config.json\n"); return 3; }
  auto cfgb = MemoryBuffer::getFile(argv[2]);
  if (!cfgb) { fprintf(stderr, "symx: cannot read config\n"); return 3; }
  auto js = json::parse((*cfgb)->getBuffer());
  if (!js) { fprintf(stderr, "symx: bad config\n"); return 3; }
  auto *o = js->getAsObject();
  auto str = [&](const json::Object *x, const char *k, const char *d) { auto v = x->getString(k); return v ? v->str() : std::string(d); };
  opt_out = str(o, "out", "/dev/stdout");
  if (auto v = o->getNumber("timeout")) opt_timeout = *v;
  if (auto v = o->getInteger("max_paths")) opt_max_paths = *v;
  if (auto v = o->getInteger("jobs")) opt_jobs = *v;
  if (auto v = o->getInteger("query_ms")) opt_qms = *v;
  if (auto v = o->getInteger("max_insts")) opt_max_insts = *v;
  if (auto v = o->getInteger("max_conc")) opt_max_conc = *v;
  if (auto v = o->getInteger("concrete_text")) opt_text = *v;   // numbers are printed as text, one path per value
  if (auto v = o->getBoolean("iofail")) opt_iofail = *v;
  if (auto *v = o->getArray("argv")) for (auto &x : *v) prog_args.push_back(latin1(x.getAsString()->str()));
  if (auto *v = o->getObject("vfs")) for (auto &x : *v) vfs_add(x.first.str(), latin1(x.second.getAsString()->str()));
  if (auto *v = o->getObject("vfs_any")) { use_any = true; any_prefix = str(v, "prefix", ""); any_data = latin1(str(v, "data", "")); }
  if (auto *v = o->getArray("holes")) for (auto &x : *v) {
    auto *h = x.getAsObject();
    hspecs.push_back({str(h, "name", ""), str(h, "kind", "bytes"), str(h, "where", ""), (u64)h->getInteger("off").value_or(0), (u64)h->getInteger("len").value_or(0)});
  }
  if (auto *v = o->getArray("assume")) for (auto &x : *v) asserts.push_back(x.getAsString()->str());
  std::set<std::string> keep;
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("symx", errs()); return 3; }
  M = m.get(); DL = &M->getDataLayout();
  void *p1 = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *p2 = mmap((void *)SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  sympg = (SymB **)mmap(nullptr, (ARENA_SZ >> 12) * sizeof(SymB *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p1 != (void *)ARENA || p2 != (void *)SHADOW || sympg == MAP_FAILED || SH == MAP_FAILED) { perror("symx: mmap"); return 3; }
  SH->tokens = opt_jobs - 1;
  natives_init();
  u64 fa = FBASE;
  for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
  for (auto &g : M->globals()) {
    u64 n = DL->getTypeAllocSize(g.getValueType());
    gaddr[&g] = heap_alloc(n, std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 1));
  }
  for (auto &g : M->globals()) {
    if (g.hasInitializer()) init_mem(gaddr[&g], g.getInitializer());
    else init_extern_global(g.getName().str(), gaddr[&g]);
  }
  T0 = now();
  outfd = open(opt_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (outfd < 0) { perror("symx: out"); return 3; }
  // the whole exploration runs in a child so that this process can always report
  pid_t top = fork();
  if (top == 0) {
    setpgid(0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30);
    pthread_t th;
    if (pthread_create(&th, &at, main_thread, nullptr)) { perror("symx: thread"); _exit(3); }
    pthread_join(th, nullptr);
    _exit(0);
  }
  setpgid(top, top);
  int st = 0; bool killed = false;
  for (;;) {
    pid_t r = waitpid(top, &st, WNOHANG);
    if (r == top) break;
    if (now() - T0 > opt_timeout + 10) { kill(-top, SIGKILL); killed = true; waitpid(top, &st, 0); break; }
    usleep(3000);
  }
  bool bad = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
  printf("{\"paths\":%d,\"stop\":%d,\"queries\":%llu,\"solver_s\":%.3f,\"insts\":%llu,\"forks\":%llu,\"unknowns\":%llu,\"wall_s\":%.3f,\"crash\":%d,\"functions\":\"%.65000s\"}\n",
    SH->paths, killed ? 1 : SH->stop, (unsigned long long)SH->queries, SH->solver_us / 1e6, (unsigned long long)SH->insts,
    (unsigned long long)SH->forks, (unsigned long long)SH->unknowns, now() - T0, bad ? 1 : 0, SH->names);
  return 0;
}
