// Replay of a fault schedule: linked before libc with --wrap; operations are numbered as in symx
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
static int op, target = -1, nwait, bad_wait; static FILE *mem[256]; static int nmem; static FILE *wr[256]; static int nwr;
static void note(const char *a, const char *b) {
  char s[512]; int n = snprintf(s, sizeof s, "%s %s\n", a, b ? b : "");
  FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
  const char *l = getenv("IOLOG"); if (!l) return;
  FILE *f = __real_fopen(l, "a"); if (f) { fwrite(s, 1, n, f); __real_fclose(f); }
}
static int fault(const char *what) {
  if (target < 0) target = getenv("IOF") ? atoi(getenv("IOF")) : 0;
  if (++op != target) return 0;
  note("fault", what); return 1;
}
static int counted(FILE *f) { if (f == stdout) return 1; for (int i = nwr - 1; i >= 0; i--) if (wr[i] == f) return 1; return 0; }
static void drop(FILE *f) { for (int i = 0; i < nwr; i++) if (wr[i] == f) wr[i] = 0; }
static void seterr(FILE *f) { f->_flags |= 0x20; errno = ENOSPC; }
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
  if (fault("fopen")) { errno = EACCES; return 0; }
  FILE *f = __real_fopen(p, m); if (f && m[0] != 'r') wr[nwr++] = f;
  return f;
}
size_t __real_fread(void *b, size_t s, size_t n, FILE *f);
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if (fault("fread")) { f->_flags |= 0x20; errno = EIO; return 0; } return __real_fread(b, s, n, f); }
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) { int b = counted(f) && f != stdout && fault("fclose"); drop(f); if (b) { __real_fclose(f); errno = ENOSPC; return -1; } return __real_fclose(f); }
int __real_fflush(FILE *f);
int __wrap_fflush(FILE *f) { if (f && counted(f) && fault("fflush")) { seterr(f); return -1; } return __real_fflush(f); }
size_t __real_fwrite(const void *b, size_t s, size_t n, FILE *f);
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (counted(f) && s * n && fault("fwrite")) { seterr(f); return 0; } return __real_fwrite(b, s, n, f); }
int __real_fputc(int c, FILE *f);
int __wrap_fputc(int c, FILE *f) { if (counted(f) && fault("fputc")) { seterr(f); return -1; } return __real_fputc(c, f); }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __real_fputs(const char *s, FILE *f);
int __wrap_fputs(const char *s, FILE *f) { if (counted(f) && fault("fputs")) { seterr(f); return -1; } return __real_fputs(s, f); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { if (counted(f) && fault("fprintf")) { seterr(f); return -1; } va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int __real_vfprintf(FILE *f, const char *fmt, va_list ap);
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { if (counted(f) && fault("vfprintf")) { seterr(f); return -1; } return __real_vfprintf(f, fmt, ap); }
int __wrap_printf(const char *fmt, ...) { if (fault("printf")) { seterr(stdout); return -1; } va_list ap; va_start(ap, fmt); int r = __real_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int __real_mkstemp(char *t);
int __wrap_mkstemp(char *t) { if (fault("mkstemp")) return -1; int r = __real_mkstemp(t); note("tmp", t); return r; }
pid_t __real_fork(void);
pid_t __wrap_fork(void) { if (fault("fork")) { bad_wait = 1; errno = EAGAIN; return -1; } return __real_fork(); }
pid_t __real_wait(int *st);
pid_t __wrap_wait(int *st) {
  if (bad_wait) { errno = ECHILD; return -1; }
  pid_t p = __real_wait(st);
  const char *w = getenv("WAITS"); nwait++;
  if (w && p > 0) { for (int i = 1; i < nwait && w; i++) { w = strchr(w, ','); if (w) w++; } if (w && *w) *st = strtoul(w, 0, 10); }
  return p;
}
pid_t __wrap_waitpid(pid_t q, int *st, int fl) { return __wrap_wait(st); }
int __wrap_execvp(const char *f, char *const *a) {
  if (getenv("EXECOK")) _exit(0);
  errno = ENOENT; return -1;
}
