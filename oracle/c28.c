// What each name stands for: a small interpreter for declarations, nested scopes and macros.
#include "main.h"
enum { END, ID, NUM, PUN };
static char *src, *end;
static struct { int k, v; char t[16]; } tok;
static int failed;             // 1: nothing is claimed, 2: must be refused
static void fail(int k) { if (!failed) failed = k; }

enum { OBJ = 1, CONST_, TYPE, ARRAY, STRUCT, UNION };
static struct Ent { char n[16]; int tag, depth, kind, v, sz, ext; } ent[64];
static int nent, depth;
static struct Mac { char n[16], body[16]; } mac[64];
static int nmac;
static int labels; static char lab[16][16];
static int skipping[16], taken[16], nif;

static int same(const char *a, const char *b) { return !strcmp(a, b); }
static struct Mac *macro(char *n) { for (int i = 0; i < nmac; i++) if (same(mac[i].n, n)) return &mac[i]; return 0; }
static int idch(int c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'; }
static void word(char *b) { int i = 0; while (*src == ' ') src++; while (src < end && idch(*src) && i < 15) b[i++] = *src++; b[i] = 0; }
static void undef(char *n) { struct Mac *m = macro(n); if (m) *m = mac[--nmac]; }
static void define(char *n, char *body) { struct Mac *m = macro(n); if (m) { if (!same(m->body, body)) fail(1); } else m = &mac[nmac++]; strcpy(m->n, n); strcpy(m->body, body); }

static void directive(void) {
  char d[16], n[16], b[16];
  word(d);
  int off = 0; for (int i = 0; i < nif; i++) off |= skipping[i];
  if (same(d, "ifdef") || same(d, "ifndef")) { word(n); int t = !!macro(n) == (d[2] == 'd'); taken[nif] = t; skipping[nif++] = !t; }
  else if (same(d, "else")) { skipping[nif - 1] = taken[nif - 1]; }
  else if (same(d, "endif")) nif--;
  else if (off) ;
  else if (same(d, "define")) { word(n); word(b); define(n, b); }
  else if (same(d, "undef")) { word(n); undef(n); }
  while (src < end && *src != '\n') src++;
}

static void next(void) {
  for (;;) {
    int off = 0; for (int i = 0; i < nif; i++) off |= skipping[i];
    while (src < end && (*src == ' ' || *src == '\n')) src++;
    if (src >= end) { tok.k = END; return; }
    if (*src == '#') { src++; directive(); continue; }
    if (!off) break;
    while (src < end && *src != '\n') src++;
  }
  int c = *src;
  if (c >= '0' && c <= '9') { tok.k = NUM; tok.v = 0; while (*src >= '0' && *src <= '9') tok.v = tok.v * 10 + *src++ - '0'; return; }
  if (idch(c)) {
    tok.k = ID; word(tok.t);
    char seen[8][16]; int ns = 0;
    for (struct Mac *m; tok.k == ID && (m = macro(tok.t));) {
      for (int i = 0; i < ns; i++) if (same(seen[i], tok.t)) m = 0;
      if (!m) break;
      strcpy(seen[ns++], tok.t);
      if (m->body[0] >= '0' && m->body[0] <= '9') { tok.k = NUM; tok.v = atoi_(m->body); }
      else if (!m->body[0]) { next(); return; }
      else strcpy(tok.t, m->body);
    }
    return;
  }
  tok.k = PUN; tok.t[0] = c; tok.t[1] = 0; src++;
}
static int is(const char *s) { return tok.k >= ID && tok.k != NUM && same(tok.t, s); }
static void need(const char *s) { if (!is(s)) fail(1); else next(); }
static int eat(const char *s) { if (is(s)) { next(); return 1; } return 0; }
static int isword(const char *s) { return tok.k == ID && same(tok.t, s); }
static int keyword(char *s) { static char k[][10] = { "int", "char", "enum", "struct", "union", "typedef", "sizeof", "extern", "for", "if", "while", "break", "return", "else", "do" }; for (int i = 0; i < sizeof k / 10; i++) if (same(k[i], s)) return 1; return 0; }
static void name(char *b) { if (tok.k != ID || keyword(tok.t)) { fail(1); b[0] = 0; return; } strcpy(b, tok.t); next(); }

static struct Ent *find(char *n, int tag) { for (int i = nent - 1; i >= 0; i--) if (ent[i].tag == tag && same(ent[i].n, n)) return &ent[i]; return 0; }
static struct Ent *add(char *n, int tag, int kind, int v, int sz) {
  struct Ent *e = find(n, tag);
  if (e && e->depth == depth) {
    if (!(tag && e->kind == kind && e->sz == 0)) { fail(1); return e; }      // declared twice: nothing is claimed
  } else { e = &ent[nent++]; strcpy(e->n, n); }
  e->tag = tag; e->depth = depth; e->kind = kind; e->v = v; e->sz = sz; e->ext = 0;
  return e;
}
static int expr(void), constant(void);
static int objects;
static int tagged(int *sz);
static int bracket(void) { need("["); int v = constant(); need("]"); if (v <= 0) fail(1); return v; }

// sizeof (...)
static int size(void) {
  int sz = 0; char n[16];
  need("(");
  if (isword("struct") || isword("union") || isword("enum")) { tagged(&sz); if (!sz) fail(1); }
  else if (eat("char")) sz = is("[") ? bracket() : 1;
  else if (eat("int")) sz = 4;
  else { name(n); struct Ent *e = find(n, 0); if (!e) fail(2); else sz = e->sz; }
  need(")");
  return sz;
}
static int prim(void) {
  char n[16]; int v;
  if (tok.k == NUM) { v = tok.v; next(); return v; }
  if (eat("sizeof")) return size();
  name(n);
  struct Ent *e = find(n, 0);
  if (!e) { fail(2); return 0; }
  if (e->kind == TYPE || e->kind == ARRAY) fail(1);
  if (e->kind == OBJ) objects++;
  return e->v;
}
static int expr(void) { int v = prim(); while (eat("+")) v += prim(); return v; }
static int constant(void) { int o = objects; int v = expr(); if (o != objects) fail(1); return v; }

// struct / union / enum specifier
static int tagged(int *sz) {
  char n[16] = ""; int k = isword("struct") ? STRUCT : isword("union") ? UNION : CONST_;
  next();
  if (!is("{")) name(n);
  if (is("{")) {
    next();
    if (k == CONST_) {
      int v = -1; char m[16];
      struct Ent *e = n[0] ? add(n, 1, k, 0, 4) : 0;
      do { name(m); v++; if (eat("=")) v = constant(); add(m, 0, CONST_, v, 4); } while (eat(","));
      need("}"); *sz = 4; return k;
    }
    if (n[0]) add(n, 1, k, 0, 0);
    int s = 0; char seen[4][16]; int ns = 0, i = n[0] ? find(n, 1) - ent : -1;
    while (!is("}") && !failed) {
      char m[16]; need("char"); name(m); for (int j = 0; j < ns; j++) if (same(seen[j], m)) fail(1);
      strcpy(seen[ns++], m); int z = bracket(); s = k == STRUCT ? s + z : z > s ? z : s; need(";");
    }
    need("}"); if (i >= 0) ent[i].sz = s; *sz = s; return k;
  }
  struct Ent *e = find(n, 1);
  if (is(";") && (!e || e->depth != depth)) { add(n, 1, k, 0, 0); *sz = 0; return k; }
  if (!e) { fail(1); *sz = 0; return k; }
  if (e->kind != k) fail(e->kind != k ? 1 : 0);
  *sz = e->sz; return k;
}
static void leave(int n) { nent = n; depth--; }
static int res[16];
static void stmt(void);
static void block(void) { int n = nent; depth++; while (!is("}") && tok.k != END && !failed) stmt(); leave(n); need("}"); }
static void stmt(void) {
  char n[16]; int sz = 0, v;
  if (eat("{")) { block(); return; }
  if (eat(";")) return;
  if (eat("break")) { need(";"); return; }
  if (eat("typedef")) {
    if (eat("char")) { name(n); v = bracket(); add(n, 0, TYPE, 0, v); need(";"); return; }
    tagged(&sz); name(n); if (!sz) fail(1); add(n, 0, TYPE, 0, sz); need(";"); return;
  }
  if (eat("extern")) {
    need("int"); name(n); struct Ent *e = 0; for (int i = 0; i < nent; i++) if (!ent[i].tag && !ent[i].depth && same(ent[i].n, n)) e = &ent[i];
    if (!e || e->kind != OBJ) { fail(1); return; }
    // an extern declaration sees through what hides the name
    struct Ent *c = find(n, 0); v = e->v; if (depth && c != e && c->depth == depth && !c->ext) fail(1);
    if (c->kind == OBJ && c->depth && !c->ext) fail(1);          // hides an object without linkage
    if (c->depth != depth) { c = add(n, 0, OBJ, v, 4); c->ext = 1; }
    need(";"); return;
  }
  if (eat("int")) { do { name(n); struct Ent *e = add(n, 0, OBJ, 0, 4); int i = e - ent; if (eat("=")) { v = depth ? expr() : constant(); ent[i].v = v; } else fail(1); } while (eat(",")); need(";"); return; }
  if (eat("char")) { name(n); v = bracket(); add(n, 0, ARRAY, 0, v); need(";"); return; }
  if (isword("struct") || isword("union") || isword("enum")) { tagged(&sz); need(";"); return; }
  if (eat("for")) {
    int k = nent; depth++; need("("); need("int"); name(n); need("="); v = expr(); add(n, 0, OBJ, v, 4); need(";"); need(";"); need(")"); stmt(); leave(k); return;
  }
  if (eat("if")) { int k = nent; depth++; need("("); v = expr(); need(")"); if (v <= 0) fail(1); int k2 = nent; depth++; stmt(); leave(k2);
    if (eat("else")) { int r[16]; struct Ent e[64]; memcpy(r, res, sizeof r); memcpy(e, ent, sizeof e); depth++; stmt(); leave(k2); memcpy(res, r, sizeof r); memcpy(ent, e, sizeof e); }
    leave(k); return; }
  if (eat("while")) { int k = nent; depth++; need("("); v = expr(); need(")"); int k2 = nent; depth++; stmt(); leave(k2); leave(k); if (v <= 0) fail(1); return; }
  if (eat("do")) { int k = nent; depth++; stmt(); leave(k); need("while"); need("("); need(tok.k == NUM ? tok.t : "0"); return; }
  if (tok.k == ID && tok.t[0] == 'g' && tok.t[1] >= '0' && tok.t[1] <= '9') {      // observation
    int i = atoi_(tok.t + 1); next(); need("="); v = expr(); need(";"); res[i] = v; return;
  }
  // assignment or label
  name(n);
  if (eat(":")) { for (int i = 0; i < labels; i++) if (same(lab[i], n)) fail(1); strcpy(lab[labels++], n); stmt(); return; }
  need("="); struct Ent *e = find(n, 0); int i = e - ent; v = expr(); if (!e) { fail(2); return; }
  if (e->kind == CONST_ && !e->tag) { fail(2); return; }
  if (e->kind != OBJ) { fail(1); return; }
  ent[i].v = v; if (ent[i].ext) { for (int j = 0; j < nent; j++) if (!ent[j].tag && same(ent[j].n, ent[i].n) && (ent[j].ext || !ent[j].depth)) ent[j].v = v; }
  need(";");
}
// declarations; void F(int N) { ... } runs with the argument 50; the function is called test
static void oracle(int mode, unsigned char *p, int n) {
  src = (char *)p; end = src + n;
  next();
  while (tok.k != END && !failed) {
    if (eat("void")) {
      char f[16], m[16]; name(f); need("("); int k = nent; depth++; labels = 0;
      if (eat("void")) ; else { need("int"); name(m); add(m, 0, OBJ, 50, 4); }
      need(")"); if (is(";")) { leave(k); next(); continue; }
      need("{"); while (!is("}") && tok.k != END && !failed) stmt(); leave(k); need("}"); continue;
    }
    stmt();
  }
  if (nif) fail(1);
  if (failed == 1) { fprintf(ref, "skip\n"); return; }
  if (failed == 2) { fprintf(ref, "reject\n"); return; }
  fprintf(ref, "X test 50\n");
  for (int i = 0; i < mode; i++) fprintf(ref, "S g%d 4 %d\n", i, res[i]);
}
