// Byte variables: for every 8-bit variable the set of values the path still allows. Conditions over one such variable are
// decided by evaluating them for all 256 values, without the solver; variables with one value left are substituted.
struct Bits { u64 w[4]; bool get(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; } void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  int count() const { int n = 0; for (u64 x : w) n += __builtin_popcountll(x); return n; } };
struct BV8 { E e; Bits dom; bool rel, fixed; };
static std::vector<BV8> bvars;
static std::unordered_map<E, int> bvid;
static std::vector<E> fixV, fixN;
struct FV { int n; int v; };          // n: 0 none, 1 only byte variable v, 2 several or others
static std::unordered_map<E, FV> fvmemo;
static bool is_var(E e) {
  if (kindof(e) != Z3_APP_AST) return false;
  Z3_app a = Z3_to_app(C, e);
  return Z3_get_app_num_args(C, a) == 0 && Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_UNINTERPRETED;
}
static FV fv(E e) {
  Z3_ast_kind k = kindof(e);
  if (k == Z3_NUMERAL_AST) return FV{0, 0};
  if (k != Z3_APP_AST) return FV{2, 0};
  auto it = fvmemo.find(e);
  if (it != fvmemo.end()) return it->second;
  FV r{0, 0};
  Z3_app a = Z3_to_app(C, e);
  unsigned n = Z3_get_app_num_args(C, a);
  if (n == 0) {
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_UNINTERPRETED) {
      Z3_sort s = Z3_get_sort(C, e);
      if (Z3_get_sort_kind(C, s) == Z3_BV_SORT && Z3_get_bv_sort_size(C, s) == 8) {
        auto b = bvid.find(e); int id;
        if (b == bvid.end()) { id = bvars.size(); bvid[e] = id; Bits all; for (u64 &x : all.w) x = ~0ull; bvars.push_back(BV8{e, all, false, false}); Z3_inc_ref(C, e); }
        else id = b->second;
        r = FV{1, id};
      } else r = FV{2, 0};
    }
  } else {
    if (Z3_get_decl_kind(C, Z3_get_app_decl(C, a)) == Z3_OP_UNINTERPRETED) r = FV{2, 0};
    else for (unsigned i = 0; i < n && r.n < 2; i++) {
      FV x = fv(Z3_get_app_arg(C, a, i));
      if (x.n == 2 || (x.n == 1 && r.n == 1 && x.v != r.v)) r = FV{2, 0};
      else if (x.n == 1) r = x;
    }
  }
  Z3_inc_ref(C, e); fvmemo[e] = r;
  return r;
}
static void rel_mark(E e, std::set<E> &seen) {
  if (kindof(e) != Z3_APP_AST || !seen.insert(e).second) return;
  FV f = fv(e);
  if (f.n == 0) return;
  if (f.n == 1) { bvars[f.v].rel = true; return; }
  Z3_app a = Z3_to_app(C, e);
  for (unsigned i = 0; i < Z3_get_app_num_args(C, a); i++) rel_mark(Z3_get_app_arg(C, a, i), seen);
}
struct Tab { u64 v[256]; };
static std::unordered_map<E, Tab *> tabmemo;     // null: cannot be tabulated
static const Tab *tab(E e) {
  auto it = tabmemo.find(e);
  if (it != tabmemo.end()) return it->second;
  Tab *t = new Tab; bool ok = true;
  Z3_sort s = Z3_get_sort(C, e); bool isb = Z3_get_sort_kind(C, s) == Z3_BOOL_SORT;
  unsigned w = isb ? 1 : Z3_get_sort_kind(C, s) == Z3_BV_SORT ? Z3_get_bv_sort_size(C, s) : 99;
  u64 num;
  if (w > 64) ok = false;
  else if (!isb && isnum(e, &num)) { for (u64 &x : t->v) x = num; }
  else if (kindof(e) != Z3_APP_AST) ok = false;
  else {
    Z3_app a = Z3_to_app(C, e); Z3_func_decl d = Z3_get_app_decl(C, a); Z3_decl_kind k = Z3_get_decl_kind(C, d);
    unsigned n = Z3_get_app_num_args(C, a);
    std::vector<const Tab *> x; std::vector<unsigned> xw;
    for (unsigned i = 0; i < n && ok; i++) {
      E y = Z3_get_app_arg(C, a, i);
      const Tab *q = tab(y); if (!q) { ok = false; break; }
      x.push_back(q); Z3_sort ys = Z3_get_sort(C, y); xw.push_back(Z3_get_sort_kind(C, ys) == Z3_BV_SORT ? Z3_get_bv_sort_size(C, ys) : 1);
    }
    u64 m = w >= 64 ? ~0ull : (1ull << w) - 1;
    auto sxt = [](u64 v, unsigned w) -> i64 { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); };
#define EACH(expr) for (int i = 0; i < 256; i++) t->v[i] = (u64)(expr) & m
#define A0 (x[0]->v[i])
#define A1 (x[1]->v[i])
#define FOLD(op) do { EACH(A0); for (unsigned j = 1; j < n; j++) for (int i = 0; i < 256; i++) t->v[i] = (t->v[i] op x[j]->v[i]) & m; } while (0)
    if (ok) switch (k) {
    case Z3_OP_UNINTERPRETED: if (n || w != 8) ok = false; else EACH(i); break;
    case Z3_OP_TRUE: EACH(1); break;
    case Z3_OP_FALSE: EACH(0); break;
    case Z3_OP_EQ: case Z3_OP_IFF: EACH(A0 == A1); break;
    case Z3_OP_DISTINCT: if (n == 2) EACH(A0 != A1); else ok = false; break;
    case Z3_OP_NOT: EACH(!A0); break;
    case Z3_OP_AND: FOLD(&); break;
    case Z3_OP_OR: FOLD(|); break;
    case Z3_OP_XOR: FOLD(^); break;
    case Z3_OP_IMPLIES: EACH(!A0 | A1); break;
    case Z3_OP_ITE: EACH(A0 ? A1 : x[2]->v[i]); break;
    case Z3_OP_BADD: FOLD(+); break;
    case Z3_OP_BMUL: FOLD(*); break;
    case Z3_OP_BAND: FOLD(&); break;
    case Z3_OP_BOR: FOLD(|); break;
    case Z3_OP_BXOR: FOLD(^); break;
    case Z3_OP_BSUB: EACH(A0 - A1); if (n != 2) ok = false; break;
    case Z3_OP_BNEG: EACH(-A0); break;
    case Z3_OP_BNOT: EACH(~A0); break;
    case Z3_OP_ULEQ: EACH(A0 <= A1); break;
    case Z3_OP_UGEQ: EACH(A0 >= A1); break;
    case Z3_OP_ULT: EACH(A0 < A1); break;
    case Z3_OP_UGT: EACH(A0 > A1); break;
    case Z3_OP_SLEQ: EACH(sxt(A0, xw[0]) <= sxt(A1, xw[1])); break;
    case Z3_OP_SGEQ: EACH(sxt(A0, xw[0]) >= sxt(A1, xw[1])); break;
    case Z3_OP_SLT: EACH(sxt(A0, xw[0]) < sxt(A1, xw[1])); break;
    case Z3_OP_SGT: EACH(sxt(A0, xw[0]) > sxt(A1, xw[1])); break;
    case Z3_OP_CONCAT: EACH(A0); for (unsigned j = 1; j < n; j++) for (int i = 0; i < 256; i++) t->v[i] = (t->v[i] << xw[j] | x[j]->v[i]) & m; break;
    case Z3_OP_SIGN_EXT: EACH(sxt(A0, xw[0])); break;
    case Z3_OP_ZERO_EXT: EACH(A0); break;
    case Z3_OP_EXTRACT: { int lo = Z3_get_decl_int_parameter(C, d, 1); EACH(A0 >> lo); break; }
    case Z3_OP_BSHL: EACH(A1 >= w ? 0 : A0 << A1); break;
    case Z3_OP_BLSHR: EACH(A1 >= w ? 0 : A0 >> A1); break;
    case Z3_OP_BASHR: EACH(sxt(A0, w) >> (A1 >= w ? 63 : A1)); break;
    case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: EACH(A1 ? A0 / A1 : ~0ull); break;
    case Z3_OP_BUREM: case Z3_OP_BUREM_I: EACH(A1 ? A0 % A1 : A0); break;
    default: ok = false;
    }
  }
#undef EACH
#undef A0
#undef A1
#undef FOLD
  if (!ok) { delete t; t = nullptr; }
  Z3_inc_ref(C, e); tabmemo[e] = t;
  return t;
}
static E fixsub(E e) {
  if (fixV.empty() || fv(e).n == 0) return e;
  return Z3_substitute(C, e, fixV.size(), fixV.data(), fixN.data());
}
// truth of c over its only variable; false if not applicable
static bool truth(E c, int *v, Bits *b) {
  FV f = fv(c); if (f.n != 1) return false;
  const Tab *t = tab(c); if (!t) return false;
  *v = f.v; for (u64 &x : b->w) x = 0;
  for (int i = 0; i < 256; i++) if (t->v[i] & 1) b->set(i);
  return true;
}
static void dom_learn(E c) {
  c = simp(fixsub(c));
  int v; Bits b;
  FV f = fv(c);
  if (f.n == 0) return;
  if (f.n == 1 && truth(c, &v, &b)) {
    BV8 &x = bvars[v];
    for (int i = 0; i < 4; i++) x.dom.w[i] &= b.w[i];
    if (x.dom.count() == 1 && !x.fixed) {
      x.fixed = true;
      for (int i = 0; i < 256; i++) if (x.dom.get(i)) { E n = bvc(i, 8); Z3_inc_ref(C, n); fixV.push_back(x.e); fixN.push_back(n); }
    }
    return;
  }
  std::set<E> seen; rel_mark(c, seen);
}
