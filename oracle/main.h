// Harness: runs the oracle on the same input as the compiler, then the compiler itself.
// argv: mode offset length <compiler arguments>.  The oracle writes its verdict to /ref:
//   reject            the input must be refused
//   skip              the property says nothing about this input
//   S name width v..  the object name must consist of these values (unsigned decimal)
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *ref;
static int atoi_(const char *s) { int v = 0; while (*s) v = v * 10 + *s++ - 48; return v; }
static void oracle(int mode, unsigned char *p, int n);
#ifdef NATIVE
int main(int argc, char **argv) {
#else
int main(int, char **);
int sym_main(int argc, char **argv) {
#endif
  int mode = atoi_(argv[1]), off = atoi_(argv[2]), len = atoi_(argv[3]);
  static unsigned char buf[65536];
  FILE *f = fopen(argv[argc - 1], "r");
  fread(buf, 1, sizeof buf - 1, f);
  fclose(f);
#ifdef NATIVE
  ref = stdout;
  oracle(mode, buf + off, len);
  return 0;
#else
  ref = fopen("/ref", "w");
  oracle(mode, buf + off, len);
  fclose(ref);
  return main(argc - 4, argv + 4);
#endif
}
