// The compiler's hash table and arenas against simple models.
// argv: t <history> <ops: kind byte, key bytes...> <last key>      table
//       a <script> <sizes: two bytes each>                        arena
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static struct { uintptr_t p; size_t n; int live; } blk[64]; static int nblk;
static void *h_malloc(size_t n) { void *p = malloc(n); blk[nblk].p = (uintptr_t)p; blk[nblk].n = n; blk[nblk++].live = 1; return p; }
static void *h_calloc(size_t a, size_t b) { void *p = calloc(a, b); blk[nblk].p = (uintptr_t)p; blk[nblk].n = a * b; blk[nblk++].live = 1; return p; }
static void h_free(void *p) { for (int i = 0; i < nblk; i++) if (blk[i].p == (uintptr_t)p && blk[i].live) blk[i].live = 0; free(p); }
#define malloc h_malloc
#define calloc h_calloc
#define free h_free
#include "alloc.c"
#undef malloc
#undef calloc
#undef free
#ifdef NATIVE
#define FAIL(c, m) do { fprintf(stderr, "%s\n", m); exit(c); } while (0)
#else
#define FAIL(c, m) exit(c)
#endif
enum { MAXK = 80 };
static struct { char k[4]; int n; intptr_t v; } model[MAXK]; static int nm;
static intptr_t find(char *k, int n) {
  intptr_t r = 0;
  for (int i = 0; i < nm; i++) if (model[i].n == n && !memcmp(model[i].k, k, n)) r = model[i].v;
  return r;
}
static void set(char *k, int n, intptr_t v) { memcpy(model[nm].k, k, n); model[nm].n = n; model[nm++].v = v; }
static void look(HashMap *m, char *k, int n) {
  char q[4]; memcpy(q, k, n); q[n] = 0;
  intptr_t e = find(k, n), g = (intptr_t)hashmap_get2(m, q, n);
  if (g != e) FAIL(77, "a look-up finds something else than the latest definition");
  if ((intptr_t)hashmap_get(m, q) != e) FAIL(77, "hashmap_get differs from hashmap_get2");
}
static char keys[MAXK][4]; static int nk;
static char *keep(char *k, int n) { char *r = keys[nk++]; memcpy(r, k, n); return r; }
static void apply(HashMap *m, int op, char *k, int n, int v) {
  if (op == 'd') { char q[4]; memcpy(q, k, n); q[n] = 0; if (v & 1) hashmap_delete(m, q); else hashmap_delete2(m, q, n); set(k, n, 0); }
  else { char *c = keep(k, n); if (v & 1) hashmap_put(m, c, (void *)(intptr_t)v); else hashmap_put2(m, c, n, (void *)(intptr_t)v); set(k, n, v); }
}
static int table(char **argv) {
  HashMap m = {0}; int v = 1, n;
  for (char *p = argv[2]; *p; p += 1 + n) { n = *p < 'a' ? 2 : 1; apply(&m, *p | 32, p + 1, n, v++); }          // capitals: keys of two bytes
  // kind, length, two key bytes
  for (char *p = argv[3]; *p; p += 4) {
    n = p[1] - '0';
    if (*p == 'g') look(&m, p + 2, n); else apply(&m, *p, p + 2, n, v++);
  }
  char *l = argv[4]; look(&m, l + 1, l[0] - '0');
  return 0;
}
enum { MAXA = 16 };
static int arena(char **argv) {
  static Arena a, b; char *sz = argv[3]; int n = 0;
  struct { uintptr_t p; size_t n; int which; } o[MAXA]; int mark[2] = { 0, 0 };
  free_alloc = 0;
  for (char *s = argv[2]; *s; s++) {
    Arena *x = *s >= 'A' && *s <= 'Z' ? &b : &a; int w = x == &b, c = *s | 32;
    if (c == 'o') { arena_on(x); for (int i = 0; i < n; i++) if (o[i].which == w) o[i].n = 0, o[i].which = -1; }
    else if (c == 'f') { arena_off(x); for (int i = 0; i < n; i++) if (o[i].which == w) o[i].which = -1; }
    else if (c == 'r') free_alloc = !free_alloc;
    else if (c == 'z' || c == 'm' || c == 'x') {
      size_t k = c == 'x' ? 1000 : (size_t)(unsigned char)sz[0] * (c == 'z' ? 1 : 4) + (unsigned char)sz[1] % 16;
      if (c != 'x') sz += 2;
      char *p = c == 'z' ? arena_calloc(x, k) : arena_malloc(x, k);
      uintptr_t q = (uintptr_t)p;
      if (q & 15) FAIL(77, "storage is not aligned");
      for (int i = 0; i < n; i++) if (o[i].which >= 0 && !(q + k <= o[i].p || o[i].p + o[i].n <= q)) FAIL(77, "storage of two live objects overlaps");
      int in = 0;          // inside one block the arena still owns
      for (int i = 0; i < nblk; i++) if (blk[i].live && q >= blk[i].p && q + k <= blk[i].p + blk[i].n) { in = 1; break; }
      if (!in) FAIL(77, "storage reaches outside its page");
      if (c == 'z') for (int i = 0; i < k; i++) if (p[i]) FAIL(77, "cleared storage is not zero");
      if (c == 'x') memset(p, 0x5a, 1000);
      o[n].p = q; o[n].n = k; o[n++].which = w;
    }
  }
  return 0;
}
#ifdef NATIVE
#undef main
#define sym_main main
#endif
int sym_main(int argc, char **argv) { return argv[1][0] == 't' ? table(argv) : arena(argv); }
