// libc as the engine models it: memory, strings over symbolic bytes, formatted output with
// placeholders, a private file system, recorded process creation.
#include <glob.h>
struct Stream {
  std::string path; int kind = 0;       // 0 read, 1 write, 2 memory
  u64 buf = 0, len = 0, cap = 0, pos = 0, pbuf = 0, psize = 0;
  bool closed = false, err = false, eof = false;
};
static std::map<u64, Stream> streams;
static std::vector<u64> stream_order;
static std::map<std::string, std::string> vfsmap;
static u64 h_stdin, h_stdout, h_stderr, errno_addr, strtok_p;
static std::vector<u64> atexit_fns;
static bool in_child; static int nforks, ntmp, nwait;
static int fault_op; static E fault_var;
static std::string any_prefix, any_data; static bool use_any;      // every other file below this directory has this content
static bool vfs_has(const std::string &p) {
  if (vfsmap.count(p)) return true;
  if (!use_any || p.compare(0, any_prefix.size(), any_prefix) || p.size() == any_prefix.size() || p.find('/', any_prefix.size()) != std::string::npos) return false;
  vfsmap[p] = any_data; return true;
}
static void vfs_add(const std::string &p, const std::string &c) { vfsmap[p] = c; }
static E hole_var(const std::string &nm, unsigned w);
static void apply_holes(u64 buf, u64 n, const std::string &which);
static std::string stream_text(u64 buf, u64 n);

static void set_errno(int e) { *(int *)errno_addr = e; clr_sym(errno_addr, 4); }
// a fault schedule is a symbolic number: the I/O operation with that number fails
static bool fault(const char *op, const std::string &what) {
  if (!opt_iofail) return false;
  if (!fault_var) fault_var = find_hole_var("io_fault");
  fault_op++;
  if (branch(Eq(fault_var, bvc(fault_op, width(fault_var))))) {
    events.push_back(std::string("fault:") + op + ":" + what);
    set_errno(ENOSPC);
    return true;
  }
  return false;
}
static Val rdb(u64 a) { return load_at(a, nullptr, 1, 8); }
static E b8(const Val &v) { return toE(v, 8); }
// is this byte equal to c (forks when undecided)
static bool beq(const Val &v, int c) { return v.e ? branch(Eq(v.e, bvc((uint8_t)c, 8))) : (uint8_t)v.u == (uint8_t)c; }
static bool beq2(const Val &x, const Val &y) {
  if (!x.e && !y.e) return (uint8_t)x.u == (uint8_t)y.u;
  return branch(Eq(b8(x), b8(y)));
}
static u64 s_len(u64 s, u64 max = ~0ull) {
  u64 n = 0;
  while (n < max) { Val v = rdb(s + n); if (beq(v, 0)) break; n++; }
  return n;
}
static std::string cstr(u64 s) {      // concrete C string (concretises symbolic bytes)
  std::string r;
  for (;;) { Val v = rdb(s++); u64 c = conc(v); if (!c) return r; r += (char)c; }
}
static u64 new_str(const std::string &s) {
  u64 a = heap_alloc(s.size() + 1); memcpy((void *)a, s.c_str(), s.size() + 1); return a;
}
static void grow(Stream &f, u64 need) {
  if (need <= f.cap) return;
  u64 nc = std::max<u64>(need * 2, 256);
  u64 nb = heap_alloc(nc);
  if (f.len) mem_move(nb, f.buf, f.len);
  memset((void *)(nb + f.len), 0, nc - f.len);
  if (f.buf) { poison(f.buf, f.cap); objs.erase(f.buf); }
  f.buf = nb; f.cap = nc;
}
static u64 wr_prep(Stream &f, u64 n) {
  grow(f, f.pos + n + 1);
  u64 d = f.buf + f.pos;
  f.pos += n; if (f.pos > f.len) f.len = f.pos;
  return d;
}
static void sput(Stream &f, const char *s, u64 n) { u64 d = wr_prep(f, n); memcpy((void *)d, s, n); clr_sym(d, n); }
static void sputs(Stream &f, const std::string &s) { sput(f, s.data(), s.size()); }
static void smove(Stream &f, u64 a, u64 n) { if (!n) return; chk_mem(a, n, "read"); u64 d = wr_prep(f, n); mem_move(d, a, n); }
static void sbyte(Stream &f, const Val &v) {
  u64 d = wr_prep(f, 1);
  if (v.e) store_expr(d, v.e, 1); else { *(uint8_t *)d = v.u; clr_sym(d, 1); }
}
struct ArgSrc {
  std::vector<Val> *a = nullptr; size_t i = 0; u64 ap = 0;
  Val integer(unsigned w) {
    if (a) {
      if (i >= a->size()) finish("memerror", 0, "missing printf argument in " + where());
      Val v = (*a)[i++];
      return v;
    }
    u64 p = *(u64 *)(ap + 8); *(u64 *)(ap + 8) = p + 8;
    return load_at(p, nullptr, w / 8, w);
  }
  Val fp(bool ld) {
    if (a) { if (i >= a->size()) finish("memerror", 0, "missing printf argument"); return (*a)[i++]; }
    u64 p = *(u64 *)(ap + 8);
    if (ld) p = (p + 15) & ~15ull;
    *(u64 *)(ap + 8) = p + (ld ? 16 : 8);
    Val v; memcpy(v.w, (void *)p, ld ? 16 : 8); return v;
  }
};
static u64 format_out(Stream &f, u64 fmt, ArgSrc &as) {
  u64 start = f.pos;
  std::string fs = cstr(fmt);
  for (size_t i = 0; i < fs.size(); i++) {
    if (fs[i] != '%') { size_t j = fs.find('%', i); if (j == std::string::npos) j = fs.size(); sput(f, &fs[i], j - i); i = j - 1; continue; }
    i++;
    if (fs[i] == '%') { sput(f, "%", 1); continue; }
    std::string flags; i64 width_ = -1, prec = -1;
    while (i < fs.size() && strchr("-+ #0", fs[i])) flags += fs[i++];
    if (fs[i] == '*') { i++; width_ = (int)conc(as.integer(32)); if (width_ < 0) { flags += '-'; width_ = -width_; } }
    else while (isdigit((unsigned char)fs[i])) { if (width_ < 0) width_ = 0; width_ = width_ * 10 + fs[i++] - '0'; }
    if (fs[i] == '.') {
      i++; prec = 0;
      if (fs[i] == '*') { i++; prec = (int)conc(as.integer(32)); if (prec < 0) prec = -1; }
      else while (isdigit((unsigned char)fs[i])) prec = prec * 10 + fs[i++] - '0';
    }
    std::string len; while (strchr("hlLzjt", fs[i]) && fs[i]) len += fs[i++];
    char cv = fs[i];
    std::string spec = "%" + flags + (width_ >= 0 ? std::to_string(width_) : "") + (prec >= 0 ? "." + std::to_string(prec) : "");
    char b[512];
    switch (cv) {
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
      bool l64 = len == "l" || len == "ll" || len == "z" || len == "j" || len == "t";
      Val v = as.integer(l64 ? 64 : 32);
      if (v.e) {
        unsigned w = l64 ? 64 : 32; E e = v.e;
        if (width(e) > w) e = simp(Z3_mk_extract(C, w - 1, 0, e));
        if (len == "hh") e = simp(Z3_mk_sign_ext(C, 24, Z3_mk_extract(C, 7, 0, e)));
        if (opt_text) {
          u64 u = conc(v); int n = snprintf(b, sizeof b, (spec + (l64 ? "l" : len == "hh" ? "hh" : "") + cv).c_str(), u);
          sput(f, b, n); break;
        }
        snprintf(b, sizeof b, "\x02%c%d\x03", cv == 'd' || cv == 'i' ? 'I' : cv == 'u' ? 'U' : cv == 'o' ? 'O' : 'X', term(e));
        sputs(f, b); break;
      }
      int n;
      if (l64) n = snprintf(b, sizeof b, (spec + "l" + cv).c_str(), (long)v.u);
      else if (len == "hh") n = snprintf(b, sizeof b, (spec + "hh" + cv).c_str(), (int)v.u);
      else n = snprintf(b, sizeof b, (spec + cv).c_str(), (int)v.u);
      sput(f, b, n); break;
    }
    case 'c': sbyte(f, [&] { Val v = as.integer(32); if (v.e) return fromE(Z3_mk_extract(C, 7, 0, v.e)); return Val(v.u & 255); }()); break;
    case 'p': { Val v = as.integer(64); int n = snprintf(b, sizeof b, "%p", (void *)conc(v)); sput(f, b, n); break; }
    case 's': {
      u64 p = conc(as.integer(64));
      if (!p) finish("memerror", 0, "printf %s of a null pointer in " + where());
      u64 n = s_len(p, prec >= 0 ? (u64)prec : ~0ull);
      std::string pad(width_ > (i64)n ? width_ - n : 0, ' ');
      bool left = flags.find('-') != std::string::npos;
      if (!left) sputs(f, pad);
      smove(f, p, n);
      if (left) sputs(f, pad);
      break;
    }
    case 'f': case 'g': case 'e': case 'a': case 'F': case 'G': case 'E': case 'A': {
      Val v = as.fp(len == "L"); int n;
      if (v.e) finish("unsupported", 0, "symbolic float in printf");
      if (len == "L") n = snprintf(b, sizeof b, (spec + "L" + cv).c_str(), v.ld);
      else n = snprintf(b, sizeof b, (spec + cv).c_str(), v.d);
      sput(f, b, n); break;
    }
    default: finish("unsupported", 0, "printf format " + fs);
    }
  }
  return f.pos - start;
}
static Stream &strm(u64 h) {
  auto it = streams.find(h);
  if (it == streams.end()) finish("memerror", 0, "invalid FILE in " + where());
  if (it->second.closed) finish("memerror", 0, "use of a closed FILE in " + where());
  return it->second;
}
static void mem_sync(Stream &f) {
  grow(f, f.len + 1); *(uint8_t *)(f.buf + f.len) = 0; clr_sym(f.buf + f.len, 1);
  *(u64 *)f.pbuf = f.buf; clr_sym(f.pbuf, 8);
  *(u64 *)f.psize = f.pos < f.len ? f.pos : f.len; clr_sym(f.psize, 8);
}
static u64 new_stream(const Stream &f) { u64 h = heap_alloc(16); poison(h, 16); streams[h] = f; stream_order.push_back(h); return h; }
static bool read_host(const std::string &p, std::string &out, bool &dir) {
  struct stat st; dir = false;
  if (stat(p.c_str(), &st)) return false;
  if (S_ISDIR(st.st_mode)) { dir = true; return true; }
  FILE *f = fopen(p.c_str(), "rb"); if (!f) return false;
  char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
  fclose(f); return true;
}
static std::map<std::string, std::pair<u64, u64>> files_out() {
  std::map<std::string, std::pair<u64, u64>> r;
  for (u64 h : stream_order) { Stream &f = streams[h]; if (f.kind == 1) r[f.path] = {f.buf, f.len}; }
  return r;
}
static void init_extern_global(const std::string &n, u64 a) {
  if (n == "stdin") *(u64 *)a = h_stdin; else if (n == "stdout") *(u64 *)a = h_stdout; else if (n == "stderr") *(u64 *)a = h_stderr;
  else if (n == "environ") *(u64 *)a = 0;
  else { fprintf(stderr, "symx: external global %s\n", n.c_str()); exit(3); }
}
enum { N_NONE,
#define NATIVES X(__assert_fail) X(__errno_location) X(__xpg_basename) X(_exit) X(atexit) X(calloc) X(close) X(ctime_r) X(dirname) X(execvp) X(exit) \
  X(fclose) X(fflush) X(fopen) X(fork) X(fprintf) X(fputc) X(fputs) X(fread) X(free) X(fseek) X(ftell) X(fwrite) X(getrusage) X(glob) X(globfree) X(localtime) \
  X(malloc) X(memcmp) X(memcpy) X(memmove) X(memset) X(mkstemp) X(open_memstream) X(printf) X(realloc) X(snprintf) X(stat) X(strchr) X(strcmp) X(strcspn) X(strspn) \
  X(strdup) X(strerror) X(strlen) X(strncmp) X(strndup) X(strrchr) X(strstr) X(strtok) X(strtold) X(strtod) X(strtof) X(strtoul) X(strtol) X(strtoull) X(time) X(unlink) X(vfprintf) X(wait) \
  X(waitpid) X(puts) X(putchar) X(memchr) X(strcpy) X(strcat) X(strncpy) X(strpbrk) X(strcasecmp) X(strncasecmp) X(abort) X(basename) X(ferror) X(feof) X(fgetc) X(getc) X(vsnprintf) \
  X(sprintf) X(getenv) X(isatty) X(fileno) X(exp2l) X(ldexpl) X(sym_make) X(sym_assume) X(sym_assert) X(sym_event) X(sym_concrete) X(access) X(getpid) X(rand) X(remove) X(putc) X(strnlen) X(stpcpy) X(mempcpy)
#define X(n) N_##n,
NATIVES
#undef X
};
static void natives_init() {
#define X(n) natives[#n] = N_##n;
  NATIVES
#undef X
  errno_addr = heap_alloc(8);
  Stream o; o.kind = 1; o.path = "stdout"; h_stdout = new_stream(o); o.path = "stderr"; h_stderr = new_stream(o);
  o.kind = 0; o.path = "stdin"; h_stdin = new_stream(o);
}
static void do_exit(int code) {
  while (!atexit_fns.empty()) {
    u64 f = atexit_fns.back(); atexit_fns.pop_back();
    std::vector<Val> no; run(faddr[f], no, 0);
  }
  finish("exit", code & 255, in_child ? "child" : "");
}
static int sgn_cmp(const Val &x, const Val &y) {   // both bytes, known different
  if (!x.e && !y.e) return (uint8_t)x.u < (uint8_t)y.u ? -1 : 1;
  return branch(Z3_mk_bvult(C, b8(x), b8(y))) ? -1 : 1;
}
static Val lower(const Val &v) {
  if (!v.e) return Val((u64)(uint8_t)tolower((int)(v.u & 255)));
  E up = And(Z3_mk_bvuge(C, v.e, bvc('A', 8)), Z3_mk_bvule(C, v.e, bvc('Z', 8)));
  return fromE(Ite(up, Z3_mk_bvadd(C, v.e, bvc(32, 8)), v.e));
}
static Val s_cmp(u64 p, u64 q, u64 n, bool str, bool fold = false) {
  for (u64 i = 0; i < n; i++) {
    Val x = rdb(p + i), y = rdb(q + i);
    if (fold) { x = lower(x); y = lower(y); }
    if (!beq2(x, y)) return Val((u64)(uint32_t)sgn_cmp(x, y));
    if (str && beq(x, 0)) return Val(0);
  }
  return Val(0);
}
static bool in_set(const Val &c, const std::string &set) {
  if (!c.e) return set.find((char)c.u) != std::string::npos;
  E q = nullptr; for (unsigned char s : set) { E t = Eq(c.e, bvc(s, 8)); q = q ? Or(q, t) : t; }
  return q ? branch(q) : false;
}
static Val do_strtoul(std::vector<Val> &a, bool sign) {
  u64 p = conc(a[0]), endp = conc(a[1]); int base = (int)conc(a[2]);
  u64 s = p; bool neg = false;
  for (;;) { Val c = rdb(p); if (in_set(c, " \t\n\v\f\r")) p++; else break; }
  { Val c = rdb(p); if (beq(c, '-')) { neg = true; p++; } else if (beq(c, '+')) p++; }
  if ((base == 0 || base == 16)) {
    Val c = rdb(p);
    if (beq(c, '0')) {
      Val x = rdb(p + 1);
      if (in_set(x, "xX")) {
        Val d = rdb(p + 2); bool hx;
        if (d.e) hx = hexnib.count(d.e) || in_set(d, "0123456789abcdefABCDEF"); else hx = isxdigit((int)(d.u & 255));
        if (hx) { p += 2; base = 16; }
      }
      if (!base) base = 8;
    }
    if (!base) base = 10;
  }
  // "num" holes: a digit string that stands for an arbitrary number
  for (auto &h : hspecs) if (h.kind == "num") {
    u64 n = h.where.size(), i = 0;
    while (i < n) { Val c = rdb(p + i); if (c.e || (uint8_t)c.u != (uint8_t)h.where[i]) break; i++; }
    if (i == n && !isalnum((int)(conc(rdb(p + n)) & 255))|| i == n && strchr("uUlL", (int)conc(rdb(p + n)))) {
      nums_applied++;
      if (endp) { chk_mem(endp, 8, "write"); *(u64 *)endp = p + n; clr_sym(endp, 8); }
      E v = find_hole_var(h.name);
      return fromE(h.len < 64 ? Z3_mk_zero_ext(C, 64 - h.len, v) : v);
    }
  }
  Val acc(0); bool any = false, ovf = false;
  for (;; p++) {
    Val c = rdb(p); Val d;
    if (!c.e) {
      int ch = (int)(c.u & 255), v;
      if (isdigit(ch)) v = ch - '0'; else if (isalpha(ch)) v = tolower(ch) - 'a' + 10; else break;
      if (v >= base) break;
      d = Val((u64)v);
    } else if (base == 16 && hexnib.count(c.e)) d = fromE(Z3_mk_zero_ext(C, 60, hexnib[c.e]));
    else {
      E x = c.e; int nd = std::min(base, 10);
      E isd = And(Z3_mk_bvuge(C, x, bvc('0', 8)), Z3_mk_bvult(C, x, bvc('0' + nd, 8)));
      if (branch(isd)) d = fromE(Z3_mk_zero_ext(C, 56, Z3_mk_bvsub(C, x, bvc('0', 8))));
      else if (base > 10) {
        E lo = And(Z3_mk_bvuge(C, x, bvc('a', 8)), Z3_mk_bvult(C, x, bvc('a' + base - 10, 8)));
        E up = And(Z3_mk_bvuge(C, x, bvc('A', 8)), Z3_mk_bvult(C, x, bvc('A' + base - 10, 8)));
        if (branch(lo)) d = fromE(Z3_mk_zero_ext(C, 56, Z3_mk_bvsub(C, x, bvc('a' - 10, 8))));
        else if (branch(up)) d = fromE(Z3_mk_zero_ext(C, 56, Z3_mk_bvsub(C, x, bvc('A' - 10, 8))));
        else break;
      } else break;
    }
    any = true;
    if (ovf) continue;
    if (!acc.e && !d.e) {
      u64 r;
      if (__builtin_mul_overflow(acc.u, (u64)base, &r) || __builtin_add_overflow(r, d.u, &r)) { ovf = true; continue; }
      acc = Val(r);
    } else {
      u64 lim = ~0ull / base, rem = ~0ull % base;
      E A = toE(acc, 64), D = toE(d, 64);
      E over = Or(Z3_mk_bvugt(C, A, bvc(lim, 64)), And(Eq(A, bvc(lim, 64)), Z3_mk_bvugt(C, D, bvc(rem, 64))));
      if (branch(over)) { ovf = true; continue; }
      if ((base & (base - 1)) == 0) {     // keep it a concatenation
        unsigned sh = __builtin_ctz(base);
        acc = fromE(Z3_mk_concat(C, Z3_mk_extract(C, 63 - sh, 0, A), Z3_mk_extract(C, sh - 1, 0, D)));
      } else acc = fromE(Z3_mk_bvadd(C, Z3_mk_bvmul(C, A, bvc(base, 64)), D));
    }
  }
  if (!any) p = s;
  if (endp) { chk_mem(endp, 8, "write"); *(u64 *)endp = p; clr_sym(endp, 8); }
  if (sign && (ovf || acc.e)) { if (acc.e) { if (branch(Z3_mk_bvslt(C, acc.e, bvc(0, 64)))) ovf = true; } if (ovf) { set_errno(ERANGE); return Val(neg ? 1ull << 63 : ~0ull >> 1); } }
  if (ovf) { set_errno(ERANGE); return Val(~0ull); }
  if (neg) return ibin(Instruction::Sub, Val(0), acc, 64);
  return acc;
}
static Val native_call(int id, Inst &in, std::vector<Val> &a) {
  auto A = [&](int i) { return conc(a[i]); };
  switch (id) {
  case N_malloc: case N_calloc: {
    u64 n = id == N_malloc ? A(0) : A(0) * A(1);
    u64 p = heap_alloc(n);
    if (p && n) memset((void *)p, id == N_malloc ? 0xa5 : 0, n);
    return Val(p); }
  case N_realloc: {
    u64 o = A(0), n = A(1);
    u64 p = heap_alloc(n); if (!p) return Val(0);
    if (n) memset((void *)p, 0xa5, n);
    if (o) {
      auto it = objs.find(o);
      if (it == objs.end()) finish("memerror", 0, "realloc of an invalid pointer in " + where());
      u64 m = std::min(n, it->second); if (m) mem_move(p, o, m);
      if (it->second) poison(o, it->second);
      objs.erase(it);
    }
    return Val(p); }
  case N_free: {
    u64 o = A(0); if (!o) return Val();
    auto it = objs.find(o);
    if (it == objs.end()) finish("memerror", 0, "free of an invalid pointer in " + where());
    if (it->second) { poison(o, it->second); clr_sym(o, it->second); }
    objs.erase(it); return Val(); }
  case N_memcpy: case N_memmove: mem_move(A(0), A(1), A(2)); return a[0];
  case N_mempcpy: mem_move(A(0), A(1), A(2)); return Val(A(0) + A(2));
  case N_memset: {
    u64 d = A(0), n = A(2); if (!n) return a[0];
    chk_mem(d, n, "write");
    if (a[1].e) { E b = simp(Z3_mk_extract(C, 7, 0, a[1].e)); for (u64 i = 0; i < n; i++) store_expr(d + i, b, 1); }
    else { memset((void *)d, (int)a[1].u, n); clr_sym(d, n); }
    return a[0]; }
  case N_memcmp: return s_cmp(A(0), A(1), A(2), false);
  case N_strcmp: return s_cmp(A(0), A(1), ~0ull, true);
  case N_strncmp: return s_cmp(A(0), A(1), A(2), true);
  case N_strcasecmp: return s_cmp(A(0), A(1), ~0ull, true, true);
  case N_strncasecmp: return s_cmp(A(0), A(1), A(2), true, true);
  case N_strlen: return Val(s_len(A(0)));
  case N_strnlen: return Val(s_len(A(0), A(1)));
  case N_strchr: case N_strrchr: {
    if (a[1].e && id == N_strchr) {       // symbolic character in a concrete string: the result is a conditional pointer
      u64 s = A(0), n = 0; bool conc_ = true;
      for (;; n++) { Val v = rdb(s + n); if (v.e || n > 64) { conc_ = false; break; } if (!(v.u & 255)) break; }
      if (conc_) {
        E c = simp(Z3_mk_extract(C, 7, 0, toE(a[1], 32))), r = bvc(0, 64);
        for (u64 i = n + 1; i-- > 0;) r = Ite(Eq(c, bvc(rdb(s + i).u & 255, 8)), bvc(s + i, 64), r);
        return fromE(r);
      }
    }
    u64 s = A(0), r = 0; int c = (int)A(1) & 255;
    for (;; s++) {
      Val v = rdb(s);
      if (beq(v, c)) { if (id == N_strchr || c == 0) return Val(s); r = s; continue; }
      if (beq(v, 0)) return Val(r);
    } }
  case N_memchr: { u64 s = A(0), n = A(2); int c = (int)A(1) & 255; for (u64 i = 0; i < n; i++) if (beq(rdb(s + i), c)) return Val(s + i); return Val(0); }
  case N_strcspn: case N_strspn: case N_strpbrk: {
    u64 s = A(0), n = 0; std::string set = cstr(A(1));
    for (;; n++) { Val v = rdb(s + n); if (beq(v, 0)) return Val(id == N_strpbrk ? 0 : n); bool h = in_set(v, set); if (h == (id != N_strspn)) return Val(id == N_strpbrk ? s + n : n); } }
  case N_strstr: {
    u64 h = A(0), n = A(1);
    for (;; h++) {
      u64 i = 0; bool ok = true;
      for (;; i++) { Val y = rdb(n + i); if (beq(y, 0)) break; Val x = rdb(h + i); if (!beq2(x, y)) { ok = false; break; } }
      if (ok) return Val(h);
      if (beq(rdb(h), 0)) return Val(0);
    } }
  case N_strdup: case N_strndup: {
    u64 s = A(0), n = id == N_strdup ? s_len(s) : s_len(s, A(1));
    u64 p = heap_alloc(n + 1); mem_move(p, s, n); *(char *)(p + n) = 0; return Val(p); }
  case N_strcpy: case N_stpcpy: { u64 n = s_len(A(1)); mem_move(A(0), A(1), n + 1); return id == N_strcpy ? a[0] : Val(A(0) + n); }
  case N_strcat: { u64 n = s_len(A(1)); mem_move(A(0) + s_len(A(0)), A(1), n + 1); return a[0]; }
  case N_strncpy: { u64 n = A(2), l = s_len(A(1), n); mem_move(A(0), A(1), l); for (; l < n; l++) mem_store(Val(A(0) + l), Val(0), nullptr, 1, 8); return a[0]; }
  case N_strtok: {
    u64 s = A(0); std::string set = cstr(A(1));
    if (s) strtok_p = s;
    if (!strtok_p) return Val(0);
    for (;;) { Val v = rdb(strtok_p); if (beq(v, 0)) { strtok_p = 0; return Val(0); } if (!in_set(v, set)) break; strtok_p++; }
    u64 st = strtok_p;
    for (;;) { Val v = rdb(strtok_p); if (beq(v, 0)) { strtok_p = 0; return Val(st); } if (in_set(v, set)) break; strtok_p++; }
    chk_mem(strtok_p, 1, "write"); *(char *)strtok_p = 0; clr_sym(strtok_p, 1); strtok_p++;
    return Val(st); }
  case N_strtoul: case N_strtoull: return do_strtoul(a, false);
  case N_strtol: return do_strtoul(a, true);
  case N_strtold: case N_strtod: case N_strtof: {
    // decide by character classes how far the number goes, then fix the value of these characters only
    u64 p = A(0), e = A(1), q = p;
    auto is = [&](u64 at, const char *set) { return in_set(rdb(at), set); };
    bool special = false;
    while (is(q, " \t\n\v\f\r")) q++;
    if (is(q, "+-")) q++;
    const char *dg = "0123456789", *hx = "0123456789abcdefABCDEF", *ex = "eE";
    if (is(q, "iInN")) special = true;
    else {
      if (is(q, "0") && is(q + 1, "xX") && (is(q + 2, hx) || is(q + 2, ".") && is(q + 3, hx))) { q += 2; dg = hx; ex = "pP"; }
      bool any = false;
      while (is(q, dg)) { any = true; q++; }
      if (is(q, ".") && (any || is(q + 1, dg))) { q++; while (is(q, dg)) { any = true; q++; } }
      if (any && is(q, ex)) {
        u64 r = q + 1; if (is(r, "+-")) r++;
        if (is(r, "0123456789")) { while (is(r, "0123456789")) r++; q = r; }
      }
    }
    std::string s;
    if (special) s = cstr(p); else for (u64 x = p; x < q; x++) s += (char)conc(rdb(x));
    char *ep; Val r;
    if (id == N_strtold) r.ld = strtold(s.c_str(), &ep); else if (id == N_strtod) r.d = strtod(s.c_str(), &ep); else r.f = strtof(s.c_str(), &ep);
    if (e) { chk_mem(e, 8, "write"); *(u64 *)e = p + (ep - s.c_str()); clr_sym(e, 8); }
    return r; }
  case N_exp2l: { Val r; r.ld = exp2l(a[0].ld); return r; }
  case N_ldexpl: { Val r; r.ld = ldexpl(a[0].ld, (int)A(1)); return r; }
  case N___errno_location: return Val(errno_addr);
  case N_strerror: return Val(new_str(strerror((int)A(0))));
  case N___xpg_basename: case N_basename: case N_dirname: {
    u64 p = A(0); if (!p) return Val(new_str("."));
    std::string s = cstr(p); std::vector<char> b(s.begin(), s.end()); b.push_back(0);
    std::string r = id == N_dirname ? ::dirname(b.data()) : ::basename(b.data());
    return Val(new_str(r)); }
  case N_atexit: atexit_fns.push_back(A(0)); return Val(0);
  case N_exit: do_exit((int)A(0));
  case N__exit: finish("exit", (int)A(0) & 255, in_child ? "child" : "");
  case N_abort: finish("abort", 0, "abort() in " + where());
  case N___assert_fail: finish("assert", 0, "assertion " + cstr(A(0)) + " at " + cstr(A(1)) + ":" + std::to_string(A(2)) + " in " + where());
  case N_open_memstream: { Stream f; f.kind = 2; f.pbuf = A(0); f.psize = A(1); u64 h = new_stream(f); mem_sync(streams[h]); return Val(h); }
  case N_fopen: {
    std::string p = cstr(A(0)), m = cstr(A(1)); Stream f; f.path = p;
    if (fault("fopen", p)) { set_errno(EACCES); return Val(0); }
    if (m[0] == 'r') {
      for (size_t k = stream_order.size(); k-- > 0;) {      // a file written before
        Stream &w = streams[stream_order[k]];
        if (w.kind != 1 || w.path != p) continue;
        f.kind = 0; f.buf = heap_alloc(w.len + 1); f.len = w.len; if (w.len) mem_move(f.buf, w.buf, w.len);
        return Val(new_stream(f));
      }
      std::string data; bool dir = false; vfs_has(p); auto it = vfsmap.find(p);
      if (it != vfsmap.end()) data = it->second;
      else if (!read_host(p, data, dir)) { set_errno(ENOENT); return Val(0); }
      f.kind = 0; f.buf = heap_alloc(data.size() + 1); memcpy((void *)f.buf, data.data(), data.size()); f.len = data.size();
      if (dir) { f.err = true; f.path += "/"; }
      apply_holes(f.buf, f.len, p);
      return Val(new_stream(f));
    }
    f.kind = 1;
    struct stat st;
    if (!vfs_has(p) && stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { set_errno(EISDIR); return Val(0); }
    events.push_back("create:" + p);
    return Val(new_stream(f)); }
  case N_fclose: {
    Stream &f = strm(A(0));
    if (f.kind == 2) mem_sync(f);
    bool bad = f.kind == 1 && fault("fclose", f.path);
    f.closed = true;
    return Val(bad ? 0xffffffffu : 0); }
  case N_fflush: { if (!A(0)) return Val(0); Stream &f = strm(A(0)); if (f.kind == 2) mem_sync(f); else if (f.kind == 1 && fault("fflush", f.path)) { f.err = true; return Val(0xffffffffu); } return Val(0); }
  case N_ferror: return Val(strm(A(0)).err ? 1 : 0);
  case N_feof: return Val(strm(A(0)).eof ? 1 : 0);
  case N_fgetc: case N_getc: { Stream &f = strm(A(0)); if (f.err || f.pos >= f.len) { f.eof = !f.err; return Val(0xffffffffu); } Val v = rdb(f.buf + f.pos++); return v.e ? fromE(Z3_mk_zero_ext(C, 24, v.e)) : v; }
  case N_fread: {
    u64 d = A(0), sz = A(1), n = A(2); Stream &f = strm(A(3));
    if (!sz || !n) return Val(0);
    if (f.err && f.kind == 0) { set_errno(EISDIR); return Val(0); }
    if (fault("fread", f.path)) { set_errno(EIO); f.err = true; return Val(0); }
    u64 k = std::min(n, (f.len - f.pos) / sz);
    if (k < n) f.eof = true;
    if (k) { mem_move(d, f.buf + f.pos, k * sz); f.pos += k * sz; }
    return Val(k); }
  case N_fwrite: {
    u64 s = A(0), n = A(1) * A(2); Stream &f = strm(A(3));
    if (f.kind == 1 && n && fault("fwrite", f.path)) { f.err = true; return Val(0); }
    smove(f, s, n); return a[2]; }
  case N_fputc: case N_putc: { Stream &f = strm(A(1)); Val v = a[0].e ? fromE(Z3_mk_extract(C, 7, 0, a[0].e)) : Val(a[0].u & 255);
    if (f.kind == 1 && fault("fputc", f.path)) { f.err = true; return Val(0xffffffffu); }
    sbyte(f, v); return a[0]; }
  case N_putchar: sbyte(streams[h_stdout], Val(A(0) & 255)); return a[0];
  case N_puts: { u64 s = A(0); smove(streams[h_stdout], s, s_len(s)); sput(streams[h_stdout], "\n", 1); return Val(1); }
  case N_fputs: { u64 s = A(0); Stream &f = strm(A(1)); if (f.kind == 1 && fault("fputs", f.path)) { f.err = true; return Val(0xffffffffu); } smove(f, s, s_len(s)); return Val(1); }
  case N_fprintf: case N_vfprintf: {
    Stream &f = strm(A(0)); ArgSrc as;
    if (id == N_fprintf) { as.a = &a; as.i = 2; } else as.ap = A(2);
    if (f.kind == 1 && f.path != "stderr" && fault("fprintf", f.path)) { f.err = true; return Val(0xffffffffu); }
    return Val(format_out(f, A(1), as)); }
  case N_printf: { ArgSrc as; as.a = &a; as.i = 1; Stream &f = streams[h_stdout]; if (fault("printf", f.path)) { f.err = true; return Val(0xffffffffu); } return Val(format_out(f, A(0), as)); }
  case N_snprintf: case N_vsnprintf: case N_sprintf: {
    Stream t; ArgSrc as; u64 n = id == N_sprintf ? ~0ull : A(1); int fi = id == N_sprintf ? 1 : 2;
    if (id == N_vsnprintf) as.ap = A(3); else { as.a = &a; as.i = fi + 1; }
    u64 r = format_out(t, A(fi), as);
    if (n) {
      u64 k = std::min(r, n - 1), d = A(0);
      if (k) mem_move(d, t.buf, k);
      chk_mem(d + k, 1, "write"); *(char *)(d + k) = 0; clr_sym(d + k, 1);
    }
    return Val(r); }
  case N_fseek: { Stream &f = strm(A(0)); i64 o = (i64)A(1); int wh = (int)A(2); u64 np = wh == 0 ? o : wh == 1 ? f.pos + o : f.len + o;
    if (f.kind == 2) mem_sync(f);
    if (np > f.len) { u64 old = f.len; grow(f, np + 1); memset((void *)(f.buf + old), 0, np - old); f.len = np; }
    f.pos = np; return Val(0); }
  case N_ftell: return Val(strm(A(0)).pos);
  case N_stat: {
    std::string p = cstr(A(0)); u64 st = A(1); chk_mem(st, sizeof(struct stat), "write");
    if (vfs_has(p)) { memset((void *)st, 0, sizeof(struct stat)); ((struct stat *)st)->st_mode = S_IFREG | 0644; ((struct stat *)st)->st_size = vfsmap[p].size(); clr_sym(st, sizeof(struct stat)); return Val(0); }
    struct stat s; int r = stat(p.c_str(), &s);
    if (r) { set_errno(ENOENT); return Val(0xffffffffu); }
    memcpy((void *)st, &s, sizeof s); clr_sym(st, sizeof s);
    return Val(0); }
  case N_access: { std::string p = cstr(A(0)); return Val(vfs_has(p) || !access(p.c_str(), F_OK) ? 0 : 0xffffffffu); }
  case N_glob: {
    std::string p = cstr(A(0)); u64 g = A(3); chk_mem(g, sizeof(glob_t), "write"); memset((void *)g, 0, sizeof(glob_t));
    glob_t b = {}; int r = glob(p.c_str(), 0, nullptr, &b);
    if (!r) { u64 v = heap_alloc(8 * (b.gl_pathc + 1)); memset((void *)v, 0, 8 * (b.gl_pathc + 1)); for (size_t i = 0; i < b.gl_pathc; i++) ((u64 *)v)[i] = new_str(b.gl_pathv[i]); ((glob_t *)g)->gl_pathc = b.gl_pathc; ((glob_t *)g)->gl_pathv = (char **)v; }
    return Val((u64)(uint32_t)r); }
  case N_globfree: return Val();
  case N_getrusage: { u64 p = A(1); chk_mem(p, sizeof(struct rusage), "write"); memset((void *)p, 0, sizeof(struct rusage)); clr_sym(p, sizeof(struct rusage));
    if (E v = find_hole_var("rss")) store_expr(p + offsetof(struct rusage, ru_maxrss), v, 8);
    return Val(0); }
  case N_time: { if (A(0)) mem_store(a[0], Val(1000000000), nullptr, 8, 64); return Val(1000000000); }
  case N_localtime: { time_t t = *(time_t *)A(0); struct tm *r = gmtime(&t); u64 p = heap_alloc(sizeof *r); memcpy((void *)p, r, sizeof *r); return Val(p); }
  case N_ctime_r: { time_t t = *(time_t *)A(0); char b[64]; struct tm *g = gmtime(&t); asctime_r(g, b); u64 d = A(1); chk_mem(d, strlen(b) + 1, "write"); strcpy((char *)d, b); return Val(d); }
  case N_getenv: return Val(0);
  case N_isatty: return Val(0);
  case N_fileno: return Val(1);
  case N_getpid: return Val(4242);
  case N_rand: return Val(1804289383);
  case N_mkstemp: {
    if (fault("mkstemp", "")) return Val(0xffffffffu);
    u64 p = A(0); std::string s = cstr(p); char b[16]; snprintf(b, sizeof b, "t%05d", ntmp++);
    memcpy((void *)(p + s.size() - 6), b, 6); events.push_back("mkstemp:" + cstr(p)); return Val(100 + ntmp); }
  case N_close: return Val(0);
  case N_unlink: case N_remove: events.push_back("unlink:" + cstr(A(0))); return Val(0);
  case N_fork: {
    if (fault("fork", "")) { nwait = -1; return Val(0xffffffffu); }
    nforks++;
    if (do_fork()) { in_child = true; events.push_back("child:" + std::to_string(nforks)); return Val(0); }
    events.push_back("fork:" + std::to_string(nforks));
    return Val(1000 + nforks); }
  case N_wait: case N_waitpid: {
    if (nwait < 0) { set_errno(ECHILD); return Val(0xffffffffu); }
    u64 p = id == N_wait ? A(0) : A(1);
    E v = find_hole_var("wait" + std::to_string(++nwait));
    if (p) { chk_mem(p, 4, "write"); if (v) store_expr(p, v, 4); else { *(int *)p = 0; clr_sym(p, 4); } }
    return Val(1000 + nforks); }
  case N_execvp: {
    u64 v = A(1); std::string s = "exec";
    for (;;) { u64 p = conc(load_at(v, nullptr, 8, 64)); if (!p) break; s += std::string(1, '\x1f') + stream_text(p, s_len(p)); v += 8; }
    events.push_back(s);
    if (opt_iofail) { set_errno(ENOENT); return Val(0xffffffffu); }
    finish("exec", 0, "child"); }
  case N_sym_make: {
    u64 p = A(0), n = A(1); std::string nm = cstr(A(2));
    for (u64 i = 0; i < n; i++) {
      E v = hole_var(n == 1 ? nm : nm + "." + std::to_string(i), 8); store_expr(p + i, v, 1);
    }
    return Val(); }
  case N_sym_assume: { if (a[0].e) { E c = Not(Eq(a[0].e, bvc(0, width(a[0].e)))); if (!branch_assume(c)) path_exit(0); } else if (!(uint32_t)a[0].u) path_exit(0); return Val(); }
  case N_sym_assert: {
    bool ok; if (a[0].e) ok = branch(Not(Eq(a[0].e, bvc(0, width(a[0].e))))); else ok = (uint32_t)a[0].u != 0;
    if (!ok) finish("assertfail", 0, cstr(A(1)));
    return Val(); }
  case N_sym_event: events.push_back(cstr(A(0))); return Val();
  case N_sym_concrete: { u64 v = A(0); return Val(v); }
  }
  finish("unsupported", 0, "native " + in.callee->getName().str());
}
