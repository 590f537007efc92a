#include "main2.h"
#include "pp.h"
// mode 0: macros are expanded, 1: tokens only, 2: with line numbers
static T *want; static const char *inpath;
static T *incl(T *name) {     // "h.h" next to the source file
  char path[512]; int n = 0, k = 0, *l; unsigned char *b = calloc(1, 4096);
  for (int i = 0; inpath[i]; i++) if (inpath[i] == '/') k = i + 1;
  for (; n < k; n++) path[n] = inpath[n];
  for (int i = 1; i < name->n - 1; i++) path[n++] = name->s[i];
  path[n] = 0;
  int m = load(path, b, 4096); if (m < 0) reject();
  delta = 0; char *f = malloc(n + 1); for (int i = 0; i <= n; i++) f[i] = path[i];
  curfile = f;
  char *s = splice(b, m, &l);
  return preprocess(lex(s, l));
}
static void before(int mode, unsigned char *p, int n) {
  int *l; char *s = splice(p, n, &l);
  lines = mode == 2; inpath = curfile = g_argv[g_argc - 1]; include = incl;
  want = mode == 1 ? lex(s, l) : preprocess(lex(s, l));
#ifdef NATIVE
  for (T *t = want; t; t = t->next) fprintf(stderr, "%.*s ", t->n, t->s);
#endif
}
static void put(T *t) { for (int i = 0; i < t->n; i++) fputc(t->s[i], ref); }
static void after(int mode, unsigned char *p, int n) {
  // drop the line markers
  unsigned char *o = calloc(1, n + 1); int m = 0;
  for (int i = 0; i < n;) {
    if (p[i] == '#' && p[i + 1] == ' ' && is_dig(p[i + 2]) && (i == 0 || p[i - 1] == '\n')) { while (i < n && p[i] != '\n') i++; continue; }
    o[m++] = p[i++];
  }
  int *l; T *got = lex(splice(o, m, &l), 0), *w = want;
  for (; got && w; got = got->next, w = w->next)
    if (!same(got, w)) { fprintf(ref, "expected "); put(w); fprintf(ref, " but got "); put(got); fprintf(ref, "\n"); return; }
  if (w) { fprintf(ref, "missing "); put(w); fprintf(ref, "\n"); return; }
  if (got) { fprintf(ref, "unexpected "); put(got); fprintf(ref, "\n"); return; }
  fprintf(ref, "ok\n");
}
