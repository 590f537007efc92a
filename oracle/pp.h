// A reference lexer and macro expander (Prosser's algorithm), written from the C standard.
// skip(): the standard leaves this input undefined, unspecified or to the implementation; reject(): it must be refused.
typedef struct T { struct T *next; const char *s; int n, k, sp, bol, line, eol; unsigned mn, mx; } T;   // line: physical line, -1 if unspecified; eol: line of the new-line after the token
enum { K_ID, K_NUM, K_STR, K_CHR, K_PUN, K_OTHER, K_PLACE };
static void skip(void) { stop("skip"); }
static void reject(void) { stop("reject"); }

static int is_id0(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int is_dig(int c) { return c >= '0' && c <= '9'; }
static T *mk(int k, const char *s, int n, int line) { T *t = calloc(1, sizeof *t); t->k = k; t->s = s; t->n = n; t->line = line; return t; }
static int is(T *t, const char *s) { if (!t) return 0; int i = 0; for (; i < t->n; i++) if (!s[i] || t->s[i] != s[i]) return 0; return s[i] == 0; }
static int same(T *a, T *b) { if (a->n != b->n) return 0; for (int i = 0; i < a->n; i++) if (a->s[i] != b->s[i]) return 0; return 1; }

// translation phases 1 and 2: new-lines and line splices.  line[] holds the physical line of each remaining character
static char *splice(const unsigned char *p, int n, int **lines) {
  char *o = malloc(n + 2); int *l = malloc((n + 2) * sizeof(int)); int m = 0, line = 1;
  for (int i = 0; i < n;) {
    int c = p[i];
    if (c == 0) skip();
    if (c == '\\' && i + 1 < n && (p[i + 1] == '\n' || p[i + 1] == '\r')) {
      i += p[i + 1] == '\r' && i + 2 < n && p[i + 2] == '\n' ? 3 : 2; line++;
      if (i >= n) skip();
      continue;
    }
    if (c == '\\' && i + 1 < n && (p[i + 1] == ' ' || p[i + 1] == '\t' || p[i + 1] == '\v' || p[i + 1] == '\f')) {  // a splice to some compilers
      int j = i + 1; while (j < n && (p[j] == ' ' || p[j] == '\t' || p[j] == '\v' || p[j] == '\f')) j++;
      if (j >= n || p[j] == '\n' || p[j] == '\r') skip();
    }
    if (c == '\\' && i + 1 >= n) skip();
    if (c == '\r') { i += i + 1 < n && p[i + 1] == '\n' ? 2 : 1; l[m] = line++; o[m++] = '\n'; continue; }
    if (c == '\n') { l[m] = line++; o[m++] = '\n'; i++; continue; }
    if (c >= 128) skip();
    l[m] = line; o[m++] = c; i++;
  }
  l[m] = line; o[m++] = '\n'; o[m] = 0; l[m] = line + 1;
  *lines = l; return o;
}

// length of the literal starting at the quote, 0 if it does not end on its line
static int quoted(const char *p) {
  int q = p[0], i = 1;
  while (p[i] != q) {
    if (p[i] == '\n' || !p[i]) return 0;
    if (p[i] == '\\') { i++; if (p[i] == '\n' || !p[i]) return 0; if (p[i] == 'x' || p[i] == 'u' || p[i] == 'U') skip(); }
    i++;
  }
  if (q == '\'' && i == 1) skip();
  return i + 1;
}
static int punct(const char *p) {
  int a = p[0], b = p[1], c = b ? p[2] : 0;
  if ((a == '<' && (b == ':' || b == '%')) || (a == ':' && b == '>') || (a == '%' && (b == '>' || b == ':'))) skip();  // digraphs are not claimed
  if (a == ':' && b == ':') skip();
  if (((a == '<' && b == '<') || (a == '>' && b == '>')) && c == '=') return 3;
  if (a == '.' && b == '.' && c == '.') return 3;
  if (b == '=' && (a == '=' || a == '!' || a == '<' || a == '>' || a == '+' || a == '-' || a == '*' || a == '/' || a == '%' || a == '&' || a == '|' || a == '^')) return 2;
  if (a == b && (a == '+' || a == '-' || a == '&' || a == '|' || a == '<' || a == '>' || a == '#')) return 2;
  if (a == '-' && b == '>') return 2;
  switch (a) { case '[': case ']': case '(': case ')': case '{': case '}': case '.': case '&': case '*': case '+': case '-': case '~': case '!': case '/': case '%': case '<': case '>': case '^': case '|': case '?': case ':': case ';': case '=': case ',': case '#': return 1; }
  return 0;
}
static int number(const char *p) {
  int i = p[0] == '.' ? 2 : 1;
  for (;;) {
    int c = p[i];
    if ((c == '+' || c == '-') && (p[i - 1] == 'e' || p[i - 1] == 'E' || p[i - 1] == 'p' || p[i - 1] == 'P')) i++;
    else if (is_id0(c) || is_dig(c) || c == '.') i++;
    else if (c == '\'') { if (is_id0(p[i + 1]) || is_dig(p[i + 1])) i += 2; else skip(); }
    else if (c == '$' || c == '\\') skip();
    else return i;
  }
}
// phase 3
static T *lex(const char *p, const int *line) {
  T h = {0}, *cur = &h; int i = 0, bol = 1, sp = 0;
  while (p[i]) {
    int c = p[i], k, n = 0;
    if (c == '\n') { if (line && cur != &h && !cur->eol) cur->eol = line[i]; i++; bol = 1; sp = 0; continue; }
    if (c == ' ' || c == '\t' || c == '\v' || c == '\f') { i++; sp = 1; continue; }
    if (c == '/' && p[i + 1] == '/') { while (p[i] != '\n') i++; sp = 1; continue; }
    if (c == '/' && p[i + 1] == '*') {
      for (i += 2; !(p[i] == '*' && p[i + 1] == '/'); i++) if (!p[i]) reject();
      i += 2; sp = 1; continue;
    }
    if (is_dig(c) || (c == '.' && is_dig(p[i + 1]))) { k = K_NUM; n = number(p + i); }
    else if (is_id0(c)) {
      k = K_ID; n = 1;
      while (is_id0(p[i + n]) || is_dig(p[i + n])) n++;
      if (p[i + n] == '$' || p[i + n] == '\\') skip();
      int q = p[i + n];
      if ((q == '"' || q == '\'') && ((n == 1 && (c == 'L' || c == 'u' || c == 'U')) || (n == 2 && c == 'u' && p[i + 1] == '8'))) {
        if (n == 2 && q == '\'') skip();   // C23
        int m = quoted(p + i + n); if (!m) skip();
        k = q == '"' ? K_STR : K_CHR; n += m;
      }
    }
    else if (c == '"' || c == '\'') { k = c == '"' ? K_STR : K_CHR; n = quoted(p + i); if (!n) skip(); }
    else { k = K_PUN; n = punct(p + i); if (!n) skip(); }
    cur = cur->next = mk(k, p + i, n, line ? line[i] == line[i + n - 1] ? line[i] : -1 : 0);
    cur->bol = bol; cur->sp = sp || bol; bol = sp = 0; i += n;
  }
  return h.next;
}

typedef struct { T *name, *body; int fn, np, va, dead; T *par[8]; } M;
static M mac[24]; static int nmac;
static M *find(T *t) { if (t->k == K_ID) for (int i = nmac - 1; i >= 0; i--) if (same(mac[i].name, t)) return mac[i].dead ? 0 : &mac[i]; return 0; }
static int param(M *m, T *t) { if (t && t->k == K_ID) for (int i = 0; i < m->np; i++) if (same(m->par[i], t)) return i; return -1; }
static T *cp(T *t) { T *n = malloc(sizeof *n); *n = *t; n->next = 0; return n; }
static T *last(T *t) { while (t && t->next) t = t->next; return t; }
static T *cat(T *a, T *b) { if (!a) return b; last(a)->next = b; return a; }
static T *place(void) { return mk(K_PLACE, "", 0, 0); }

static T *strz(T *t) {
  char *o = malloc(512); int n = 0; o[n++] = '"';
  for (T *x = t; x; x = x->next) {
    if (x->k == K_PLACE) continue;
    if (x != t && x->sp) o[n++] = ' ';
    for (int i = 0; i < x->n; i++) {
      if ((x->k == K_STR || x->k == K_CHR) && (x->s[i] == '"' || x->s[i] == '\\')) o[n++] = '\\';
      if (n > 500) skip();
      o[n++] = x->s[i];
    }
  }
  o[n++] = '"'; o[n] = 0;
  if (quoted(o) != n) skip();
  return mk(K_STR, o, n, 0);
}
static T *glue(T *a, T *b) {
  T *r;
  if (a->k == K_PLACE) { r = cp(b); r->sp = a->sp; return r; }
  if (b->k == K_PLACE) { r = cp(a); return r; }
  char *o = malloc(a->n + b->n + 2);
  for (int i = 0; i < a->n; i++) o[i] = a->s[i];
  for (int i = 0; i < b->n; i++) o[a->n + i] = b->s[i];
  o[a->n + b->n] = '\n'; o[a->n + b->n + 1] = 0;
  if (o[0] == '/' && (o[1] == '/' || o[1] == '*')) skip();
  T *l = lex(o, 0);
  if (!l || l->next || l->n != a->n + b->n) skip();
  l->sp = a->sp; l->line = a->line; l->mn = a->mn & b->mn; l->mx = a->mx | b->mx;
  return l;
}

static T *expand(T *ts, int top);
static int lines, delta; static const char *curfile;   // lines: __LINE__ and __FILE__ are known
static T *line_tok(T *t) {
  char *o = malloc(512); int n = 0;
  if (is(t, "__LINE__")) {
    if (t->line < 0) skip();
    int v = t->line + delta;
    if (v <= 0) skip();
    char b[16]; int k = 0; while (v) { b[k++] = 48 + v % 10; v /= 10; }
    while (k) o[n++] = b[--k];
    o[n] = 0; T *x = mk(K_NUM, o, n, t->line); x->sp = t->sp; return x;
  }
  o[n++] = '"';
  for (const char *p = curfile; *p; p++) { if (*p == '"' || *p == '\\') o[n++] = '\\'; o[n++] = *p; }
  o[n++] = '"'; o[n] = 0;
  T *x = mk(K_STR, o, n, t->line); x->sp = t->sp; return x;
}
static T *body(M *m, T *b, T **arg, T **exp, int depth, int at) {
  T *out = 0; int n = 0;
  // parameters, # and __VA_OPT__; operands of ## stay marked by the operator itself (mn bit 31 marks an operator of the body)
  for (T *t = b; t; t = t->next) {
    T *x;
    if (m->fn && is(t, "#")) {
      int i = param(m, t->next);
      if (i >= 0) { x = strz(arg[i]); x->sp = t->sp; t = t->next; }
      else if (m->va && is(t->next, "__VA_OPT__")) skip();
      else reject();
    } else if (is(t, "##")) { x = cp(t); x->mn = 1u << 31; }
    else if (m->va && is(t, "__VA_OPT__")) {
      int lv = 0; T *c = t->next; if (!is(c, "(")) reject();
      T *in = 0; c = c->next;
      for (;; c = c->next) {
        if (!c) reject();
        if (is(c, ")") && !lv--) break;
        if (is(c, "(")) lv++;
        if (is(c, "__VA_OPT__")) reject();
        in = cat(in, cp(c));
      }
      if (in && (is(in, "##") || is(last(in), "##"))) reject();
      x = 0;
      if (exp[m->np - 1]) { if (in) x = body(m, in, arg, exp, 1, at); }
      else if (in) body(m, in, arg, exp, 1, at);     // constraints hold either way
      if (!x) x = place();
      x->sp = t->sp;
      t = c;
    } else {
      int i = m->fn ? param(m, t) : -1;
      if (i >= 0) {
        int pasted = (t->next && is(t->next, "##")) || (out && (last(out)->mn >> 31));
        x = 0;
        for (T *s = pasted ? arg[i] : exp[i]; s; s = s->next) { T *c = cp(s); x = cat(x, c); }
        if (!x) x = place();
        x->sp = t->sp;
        for (T *s = x; s; s = s->next) s->mn &= ~(1u << 31);
      } else { x = cp(t); x->line = at; }
    }
    out = cat(out, x);
  }
  // ##
  T h = {0}, *cur = &h;
  for (T *t = out; t; t = t->next) {
    while (t->next && t->next->mn >> 31) {
      T *r = t->next->next; if (!r || r->mn >> 31) reject();
      T *g = glue(t, r); g->next = r->next; t = g;
    }
    cur = cur->next = cp(t); cur->next = 0;
  }
  // placemarkers
  T *res = 0; int sp = 0;
  for (T *t = h.next; t; t = t->next) { if (t->k == K_PLACE && !depth) { sp |= t->sp; continue; } T *c = cp(t); c->sp |= sp && res; sp = 0; res = cat(res, c); }
  return res;
}

static T *expand(T *ts, int top) {
  T h = {0}, *cur = &h; int steps = 0;
  while (ts) {
    T *t = ts; M *m = find(t);
    if (++steps > 400) skip();
    if (!m) { cur = cur->next = lines && (is(t, "__LINE__") || is(t, "__FILE__")) ? line_tok(t) : cp(t); ts = t->next; continue; }
    unsigned bit = 1u << (m - mac);
    if ((t->mx & bit) != (t->mn & bit)) skip();          // 6.10.4.4p4: unspecified
    if (t->mn & bit) { cur = cur->next = cp(t); ts = t->next; continue; }
    unsigned mn = t->mn, mx = t->mx; T *rest, *b;
    if (!m->fn) { b = body(m, m->body, 0, 0, 0, t->line); rest = t->next; }
    else {
      T *a = t->next;
      if (!a) { if (top == 2) skip(); cur = cur->next = cp(t); ts = 0; continue; }
      if (!is(a, "(")) { cur = cur->next = cp(t); ts = t->next; continue; }
      T *arg[9] = {0}, *exp[9]; int n = 0, lv = 0, any = 0;
      for (a = a->next;; a = a->next) {
        if (!a) { if (top) reject(); skip(); }           // within an argument: the rest may follow
        if (a->bol && is(a, "#")) skip();
        if (is(a, ")") && !lv--) break;
        if (is(a, "(")) lv++;
        if (is(a, ",") && !lv && !(m->va && n == m->np - 1)) { if (++n >= 8) skip(); any = 1; continue; }
        arg[n] = cat(arg[n], cp(a)); any = 1;
      }
      if (m->np == 0) { if (any) reject(); }
      else if (n + 1 != m->np && !(m->va && n + 1 == m->np - 1)) reject();
      for (int i = 0; i < m->np; i++) { exp[i] = expand(arg[i], 0); if (arg[i]) arg[i]->sp = 0; }
      mx |= a->mx; mn &= a->mn;
      b = body(m, m->body, arg, exp, 0, t->line == a->line ? t->line : -1); rest = a->next;
    }
    for (T *x = b; x; x = x->next) { x->mn |= mn | bit; x->mx |= mx | bit; }
    if (b) b->sp = t->sp; else if (rest) { T *r = cp(rest); r->next = rest->next; r->sp |= t->sp; rest = r; }
    ts = cat(b, rest);
  }
  return h.next;
}

static void define(T *t) {
  if (!t || t->bol || t->k != K_ID) reject();
  if (is(t, "defined") || is(t, "__VA_ARGS__") || is(t, "__VA_OPT__")) skip();
  if (nmac >= 24) skip();
  M *old = find(t);
  M *m = &mac[nmac]; *m = (M){.name = t};
  T *b = t->next;
  if (b && !b->bol && !b->sp && is(b, "(")) {
    m->fn = 1; b = b->next;
    if (!b || b->bol) reject();
    if (is(b, ")")) b = b->next;
    else for (;;) {
      if (!b || b->bol) reject();
      if (m->np >= 7) skip();
      if (is(b, "...")) { m->par[m->np++] = mk(K_ID, "__VA_ARGS__", 11, 0); m->va = 1; b = b->next; if (!b || b->bol || !is(b, ")")) reject(); b = b->next; break; }
      if (b->k != K_ID) reject();
      if (is(b, "__VA_ARGS__") || is(b, "__VA_OPT__")) skip();
      if (param(m, b) >= 0) skip();            // a constraint, but of no consequence
      m->par[m->np++] = b; b = b->next;
      if (!b || b->bol) reject();
      if (is(b, ")")) { b = b->next; break; }
      if (is(b, "...")) skip();                // GNU
      if (!is(b, ",")) reject();
      b = b->next;
    }
  } else if (b && !b->bol && !b->sp) skip();   // white space is required
  T *r = 0;
  for (; b && !b->bol; b = b->next) {
    T *c = cp(b);
    if (c->k == K_ID && (is(c, "__VA_ARGS__") || is(c, "__VA_OPT__")) && !m->va) skip();
    if (m->fn && is(c, ",") && b->next && !b->next->bol && is(b->next, "##") && m->va && b->next->next && is(b->next->next, "__VA_ARGS__")) skip();   // GNU
    r = cat(r, c);
  }
  if (r && (is(r, "##") || is(last(r), "##"))) reject();
  if (r) r->sp = 0;
  m->body = r;
  if (old) skip();
  nmac++;
}

static int digits(T *t) { if (!t || t->k != K_NUM || t->n > 8) return -1; int v = 0; for (int i = 0; i < t->n; i++) { if (!is_dig(t->s[i])) return -1; v = v * 10 + t->s[i] - 48; } return v; }
static void line_directive(T *h, T *t) {     // t: the tokens up to the end of the line
  T *l = last(t);
  if (h->line < 0 || l->eol != h->line) skip();          // the directive spans several lines
  for (T *x = t; x; x = x->next) if (x->bol || x->line != h->line) skip();
  t = expand(t, 1);
  int v = digits(t); if (v <= 0) skip();
  delta = v - h->line - 1; t = t->next;
  if (!t) return;
  if (t->k != K_STR || t->s[0] != '"' || t->next) skip();
  char *o = malloc(t->n); int n = 0;
  for (int i = 1; i < t->n - 1; i++) { if (t->s[i] == '\\') { i++; if (t->s[i] != '\\' && t->s[i] != '"') skip(); } o[n++] = t->s[i]; }
  o[n] = 0; curfile = o;
}
static T *rest_of_line(T *d) { T *r = 0; for (; d && !d->bol; d = d->next) { T *c = cp(d); r = cat(r, c); } return r; }

static T *preprocess(T *t);
static T *(*include)(T *name);
// all tokens after preprocessing (known: #define, #undef, null directives; with lines also #line, #include "...", #if x == y / #endif)
static T *preprocess(T *t) {
  T *out = 0;
  while (t) {
    if (t->bol && is(t, "#")) {
      T *d = t->next;
      if (d && !d->bol) {
        if (is(d, "define")) define(d->next);
        else if (is(d, "undef")) {
          T *x = d->next; if (!x || x->bol || x->k != K_ID) reject();
          if (x->next && !x->next->bol) skip();
          M *m = find(x); if (m) m->dead = 1;
        }
        else if (lines && is(d, "line")) { if (!d->next || d->next->bol) reject(); line_directive(t, rest_of_line(d->next)); }
        else if (lines && digits(d) > 0) { line_directive(t, rest_of_line(d)); }
        else if (lines && include && is(d, "include")) {
          if (!d->next || d->next->bol) reject();
          if (is(d->next, "<")) {        // the text up to >
            const char *a = d->next->s; int n = 1; while (a[n] != '>' && a[n] != '\n') n++;
            if (a[n] != '>') skip();
            d->next->n = n + 1;
            T *e = d->next->next; while (e && !e->bol && e->s != a + n) e = e->next;
            if (!e || (e->next && !e->next->bol)) skip();
          } else if (d->next->k != K_STR || (d->next->next && !d->next->next->bol)) skip();
          int od = delta; const char *of = curfile;
          T *x = include(d->next);
          out = cat(out, x);
          delta = od; curfile = of;
        }
        else if (lines && is(d, "endif")) { if (d->next && !d->next->bol) skip(); }
        else if (lines && is(d, "if")) {
          T *x = expand(rest_of_line(d->next), 1); int a = digits(x), b = x && x->next && x->next->next ? digits(x->next->next) : -1;
          if (a < 0 || b < 0 || !is(x->next, "==") || x->next->next->next) skip();
          if (a != b) {
            while (d && !(d->bol && is(d, "#") && d->next && is(d->next, "endif"))) { if (d->bol && is(d, "#") && d != t && d->next && !is(d->next, "line") && !is(d->next, "define")) skip(); d = d->next; }
            if (!d) reject();
            t = d; continue;
          }
        }
        else skip();
        while (d && !d->bol) d = d->next;
      }
      t = d; continue;
    }
    T *seg = 0; int more = 0;
    T h = {0}, *cur = &h;
    for (; t; t = t->next) { if (t->bol && is(t, "#")) { more = 1; break; } cur = cur->next = cp(t); }
    seg = h.next;
    out = cat(out, expand(seg, more ? 2 : 1));
  }
  return out;
}
