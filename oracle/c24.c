// Dependency output.  The reference reads the command line and the files, and reads the rules the way GNU make does.
#include "main2.h"
#include "pp.h"
enum { MAX = 64 };
static const char *files_[MAX]; static int sys_[MAX], nfiles;     // files read, each once
static int style, md, mp, e, s_only, ms; static const char *mf, *out, *input, *sysdir, *usrdir;
static const char *tgt[8]; static int quoted_[8], ntgt;
static int eq(const char *a, const char *b) { int i = 0; for (; a[i] && a[i] == b[i]; i++); return a[i] == b[i]; }
static int len(const char *s) { int n = 0; while (s[n]) n++; return n; }
static int readable(const char *p) { unsigned char b[2]; return load(p, b, 2) >= 0; }
static int cur_sys; static const char *realfile;
static int below(const char *p, const char *d) { int i = 0; for (; d[i]; i++) if (p[i] != d[i]) return 0; return p[i] == '/'; }
static void enter(const char *p, int sys) {
  for (int i = 0; i < nfiles; i++) if (eq(files_[i], p)) { if (style == 2 && sys_[i] != sys) skip(); return; }   // both: not claimed
  if (nfiles >= MAX) skip();
  files_[nfiles] = p; sys_[nfiles++] = sys;
}
static T *incl(T *name) {
  const char *dirs[3]; int n = 0;
  char *d = malloc(len(realfile) + 1); int k = 0;
  for (int i = 0; realfile[i]; i++) { d[i] = realfile[i]; if (realfile[i] == '/') k = i; }
  d[k] = 0; if (!k) skip();
  if (name->s[0] == '"') dirs[n++] = d;
  if (usrdir) dirs[n++] = usrdir;
  if (sysdir) dirs[n++] = sysdir;
  for (int i = 0; i < n; i++) {
    char *p = malloc(len(dirs[i]) + name->n + 2); int m = 0;
    for (const char *q = dirs[i]; *q; q++) p[m++] = *q;
    p[m++] = '/';
    for (int j = 1; j < name->n - 1; j++) { if (name->s[j] == '\\') skip(); p[m++] = name->s[j]; }
    p[m] = 0;
    unsigned char *b = calloc(1, 4096); int sz = load(p, b, 4096);
    if (sz < 0) continue;
    int os = cur_sys; cur_sys = cur_sys || (sysdir && below(p, sysdir));
    enter(p, cur_sys);
    static int depth; if (depth > 6) skip();
    depth++; curfile = p; const char *orf = realfile; realfile = p;
    int *l; char *s = splice(b, sz, &l);
    T *t = preprocess(lex(s, l));
    depth--; cur_sys = os; realfile = orf;
    return t;
  }
  reject(); return 0;
}
static void before(int mode, unsigned char *p, int n) {
  char **a = g_argv + 4; int c = g_argc - 4;
  for (int i = 0; i < c; i++) {
    if (eq(a[i], "-M")) { if (style) { if (style != 1 || md) skip(); } style = 1; }
    else if (eq(a[i], "-MM")) { if (style) { if (style != 2 || md) skip(); } style = 2; }
    else if (eq(a[i], "-MD")) { if (style) { if (style != 1 || !md) skip(); } style = 1; md = 1; }
    else if (eq(a[i], "-MMD")) { if (style) { if (style != 2 || !md) skip(); } style = 2; md = 1; }
    else if (eq(a[i], "-MP")) mp = 1;
    else if (eq(a[i], "-MF")) { if (mf) skip(); mf = a[++i]; }
    else if (eq(a[i], "-MT") || eq(a[i], "-MQ")) { if (ntgt >= 8 || i + 1 >= c) skip(); quoted_[ntgt] = a[i][2] == 'Q'; tgt[ntgt++] = a[++i]; }
    else if (eq(a[i], "-o")) out = a[++i];
    else if (eq(a[i], "-S")) s_only = 1;
    else if (eq(a[i], "-E")) e = 1;
    else if (eq(a[i], "-I")) usrdir = a[++i];
    else if (eq(a[i], "-isystem")) sysdir = a[++i];
    else if (a[i][0] == 0) ;
    else if (a[i][0] == '-') { if (!eq(a[i], "-w")) skip(); }
    else { if (input) skip(); input = a[i]; }
  }
  if (!style || !input) skip();                // nothing is requested
  if (!md && s_only) skip();
  if (md && !mf) skip();                       // the default name is not claimed
  if (!mf && !out) skip();
  const char *dst = mf ? mf : out;
  if (!eq(dst, g_argv[2])) skip();
  curfile = realfile = input; lines = 1; include = incl;
  for (const char *x = input; *x; x++) if (*x == '\\' && (x[1] == '#' || !x[1])) skip();
  enter(input, 0);
  unsigned char *b = calloc(1, 4096); int sz = load(input, b, 4096); if (sz < 0) reject();
  int *l; char *s = splice(b, sz, &l);
  preprocess(lex(s, l));
}
// one word of a rule as GNU make reads it; the end of the word; what ended it in *why: ' ', ':', '\n', 0, '#'
static int word(const unsigned char *p, int i, int n, char *o, int *why) {
  int m = 0;
  while (i < n) {
    int c = p[i];
    if (c == '$') { if (i + 1 < n && p[i + 1] == '$') { o[m++] = '$'; i += 2; continue; } *why = '$'; o[m] = 0; return i; }
    if (c == '\\') {
      int k = i; while (k < n && p[k] == '\\') k++;
      int b = k - i;
      if (k < n && (p[k] == ' ' || p[k] == '\t' || p[k] == '#')) {          // halved before white space and #
        for (int j = 0; j < b / 2; j++) o[m++] = '\\';
        if (b & 1) o[m++] = p[k++]; else { i = k; break; }
        i = k; continue;
      }
      if (k < n && p[k] == '\n') { for (int j = 0; j < b / 2; j++) o[m++] = '\\'; i = b & 1 ? k - 1 : k; break; }
      for (int j = 0; j < b; j++) o[m++] = '\\';
      i = k; continue;
    }
    if (c == ' ' || c == '\t' || c == '\n' || c == ':' || c == '#') break;
    o[m++] = c; i++;
  }
  o[m] = 0; *why = i < n ? p[i] : 0;
  return i;
}
static char words[MAX][512]; static int nwords, bad;
// blank characters and continued lines
static int blanks(const unsigned char *p, int i, int n) {
  for (;;) {
    if (i < n && (p[i] == ' ' || p[i] == '\t')) i++;
    else if (i + 1 < n && p[i] == '\\' && p[i + 1] == '\n') i += 2;
    else return i;
  }
}
// reads one rule: words[0 .. *nt-1] are its targets, the rest its prerequisites
static int rule(const unsigned char *p, int i, int n, int *nt) {
  nwords = 0; *nt = -1;
  for (;;) {
    i = blanks(p, i, n);
    if (i >= n || p[i] == '\n') { if (*nt < 0) bad = 1; return i < n ? i + 1 : i; }
    if (p[i] == ':') { if (*nt >= 0) { bad = 1; return n; } *nt = nwords; i++; continue; }
    if (p[i] == '#' || nwords >= MAX) { bad = 1; return n; }
    int w; i = word(p, i, n, words[nwords], &w);
    if (w == '$') { bad = 1; return n; }
    nwords++;
  }
}
static void show(const char *w, const char *s) { fprintf(ref, "%s ", w); while (*s) { fputc(*s < 32 ? '?' : *s, ref); s++; } fprintf(ref, "\n"); }
static void after(int mode, unsigned char *p, int n) {
  static char want[16][512]; int nw = 0, nt;
  // the targets
  if (!ntgt) {
    const char *b = input; for (const char *q = input; *q; q++) if (*q == '/') b = q + 1;
    int m = 0, dot = -1; for (; b[m]; m++) { want[0][m] = b[m]; if (b[m] == '.') dot = m; }
    if (dot < 0) dot = m;
    want[0][dot] = '.'; want[0][dot + 1] = 'o'; want[0][dot + 2] = 0; nw = 1;
  }
  for (int i = 0; i < ntgt; i++) {
    if (quoted_[i]) { int m = 0; for (; tgt[i][m]; m++) want[nw][m] = tgt[i][m]; want[nw++][m] = 0; continue; }
    const unsigned char *t = (const unsigned char *)tgt[i]; int l = len(tgt[i]), k = 0, w;      // as it stands
    for (;;) {
      k = blanks(t, k, l); if (k >= l) break;
      if (t[k] == ':' || t[k] == '#' || t[k] == '\n') { fprintf(ref, "ok\n"); return; }        // the user's own text is no target
      k = word(t, k, l, want[nw], &w); if (w == '$' || w == '#' || w == ':' || w == '\n') { fprintf(ref, "ok\n"); return; } nw++;
    }
    if (l && t[l - 1] == '\\') { fprintf(ref, "ok\n"); return; }
  }
  int i = rule(p, 0, n, &nt);
  if (bad) { fprintf(ref, "the first rule cannot be read\n"); return; }
  if (nt != nw) { fprintf(ref, "%d targets instead of %d\n", nt, nw); return; }
  for (int k = 0; k < nt; k++) if (!eq(words[k], want[k])) { show("wrong target", words[k]); return; }
  int cnt = 0;
  for (int f = 0; f < nfiles; f++) {
    if (style == 2 && sys_[f]) continue;
    cnt++; int hits = 0;
    for (int k = nt; k < nwords; k++) hits += eq(words[k], files_[f]);
    if (hits != 1) { show(hits ? "listed more than once:" : "not listed:", files_[f]); return; }
  }
  if (nwords - nt != cnt) { fprintf(ref, "%d prerequisites instead of %d\n", nwords - nt, cnt); return; }
  static int seen[MAX];
  for (int f = 0; f < nfiles; f++) seen[f] = 0;
  for (;;) {
    while (i < n && p[i] == '\n') i++;
    if (i >= n) break;
    i = rule(p, i, n, &nt);
    if (bad || nt != 1 || nwords != 1) { fprintf(ref, "a further rule is not a phony target\n"); return; }
    int f = 0; while (f < nfiles && (!eq(files_[f], words[0]) || (style == 2 && sys_[f]))) f++;
    if (f == nfiles || f == 0 || seen[f]++) { show("wrong phony target", words[0]); return; }
  }
  for (int f = 1; f < nfiles; f++) if (!(style == 2 && sys_[f]) && seen[f] != mp) { show(mp ? "no phony target for" : "phony target for", files_[f]); return; }
  fprintf(ref, "ok\n");
}
