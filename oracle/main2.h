// Harness: the reference reads the same source, the compiler runs, the reference judges its output.
// argv: mode output <compiler arguments> input.  /ref: reject | skip | expect; /verdict (after a successful run): ok | what is wrong
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *ref;
static int atoi_(const char *s) { int v = 0; while (*s) v = v * 10 + *s++ - 48; return v; }
static void before(int mode, unsigned char *p, int n);     // verdict to ref
static void after(int mode, unsigned char *p, int n);      // judgement to ref
static int load(const char *path, unsigned char *b, int max) { FILE *f = fopen(path, "r"); if (!f) return -1; int n = fread(b, 1, max - 1, f); fclose(f); return n; }
static unsigned char ibuf[16384], obuf[65536];
static int phase, g_argc; static char **g_argv;
static void stop(const char *what);                          // ends the reference with this verdict
#ifdef NATIVE
int main(int argc, char **argv) {
  int mode = atoi_(argv[1]), n = load(argv[argc - 1], ibuf, sizeof ibuf);
  ref = stdout; g_argc = argc; g_argv = argv;
  before(mode, ibuf, n);
  printf("expect\n--\n");
  phase = 1;
  n = load(argv[2], obuf, sizeof obuf);
  if (n >= 0) after(mode, obuf, n); else printf("no output\n");
  return 0;
}
static void stop(const char *what) {
  if (phase) printf("the output cannot be split into tokens\n"); else printf("%s\n--\n", what);
  exit(0);
}
#else
int main(int, char **);
static int compile(void) { return main(g_argc - 3, g_argv + 3); }
int sym_main(int argc, char **argv) {
  g_argc = argc; g_argv = argv;
  int mode = atoi_(argv[1]), n = load(argv[argc - 1], ibuf, sizeof ibuf);
  ref = fopen("/ref", "w");
  before(mode, ibuf, n);
  fprintf(ref, "expect\n");
  fclose(ref);
  int rc = compile();
  if (rc == 0) {
    ref = fopen("/verdict", "w");
    phase = 1;
    n = load(argv[2], obuf, sizeof obuf);
    if (n < 0) fprintf(ref, "no output\n"); else after(mode, obuf, n);
    fclose(ref);
  }
  return rc;
}
static void stop(const char *what) {
  fprintf(ref, "%s\n", phase ? "the output cannot be split into tokens" : what);
  fclose(ref);
  exit(phase || what[0] == 's' ? 0 : compile());
}
#endif
