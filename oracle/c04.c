// numeric literals: mode 0 decides integer literals (value and type), mode 1 also floating ones
#include "main.h"
// the digit value of c, or -1; without branches so that symbolic digits stay one path
static int dig(int c, int base) {
  unsigned a = (unsigned)c - '0', b = ((unsigned)c | 32) - 'a';
  unsigned isd = -(unsigned)(a < 10), isl = -(unsigned)(b < 6);
  unsigned v = (a & isd) | ((b + 10) & isl) | ~(isd | isl);
  return (int)(v | -(unsigned)((int)v >= base));
}
// C23 6.4.4.1; returns 0 malformed, 1 fine, 2 too large, 3 not an integer literal
static int integer(unsigned char *p, int n, unsigned long *val, int *type) {
  int base = 10, i = 0, any = 0, over = 0;
  unsigned long v = 0;
  if (p[0] == '0') {
    if (n > 1 && (p[1] == 'x' || p[1] == 'X')) base = 16, i = 2;
    else if (n > 1 && (p[1] == 'b' || p[1] == 'B')) base = 2, i = 2;
    else base = 8;
  }
  int prev = 0;     // was the previous character a digit
  for (; i < n; i++) {
    if (p[i] == '\'') { if (!prev || i + 1 >= n || dig(p[i + 1], base) < 0) return 0; prev = 0; continue; }
    int d = dig(p[i], base);
    if (d < 0) break;
    over |= (v > ~0ul / base) | ((v == ~0ul / base) & ((unsigned long)d > ~0ul % base));
    v = v * base + d;
    any = prev = 1;
  }
  if (!any) return 0;
  int u = 0, l = 0;
  while (i < n) {
    if (!u && (p[i] == 'u' || p[i] == 'U')) { u = 1; i++; continue; }
    if (!l && (p[i] == 'l' || p[i] == 'L')) { if (i + 1 < n && p[i + 1] == p[i]) l = 2, i += 2; else l = 1, i++; continue; }
    return 0;
  }
  if (over) return 2;
  *val = v;
  // int 1, unsigned 2, long 3, unsigned long 4, long long 5, unsigned long long 6
  int sig = !u, uns = u || base != 10;
  if (l == 0 && sig && v <= 0x7fffffff) *type = 1;
  else if (l == 0 && uns && v <= 0xffffffff) *type = 2;
  else if (l <= 1 && sig && v <= 0x7fffffffffffffff) *type = 3;
  else if (l <= 1 && uns) *type = 4;
  else if (l == 2 && sig && v <= 0x7fffffffffffffff) *type = 5;
  else if (l == 2 && uns) *type = 6;
  else return 3;      // no type fits
  return 1;
}
// C23 6.4.4.2; 0: not a floating literal
static int floating(unsigned char *p, int n, int *type) {
  int hex = n > 1 && p[0] == '0' && (p[1] == 'x' || p[1] == 'X'), i = hex ? 2 : 0, base = hex ? 16 : 10;
  int any = 0, dot = 0, prev = 0, exp = 0;
  for (; i < n; i++) {
    if (p[i] == '\'') { if (!prev || i + 1 >= n || dig(p[i + 1], base) < 0) return 0; prev = 0; continue; }
    if (p[i] == '.') { if (dot) return 0; dot = 1; prev = 0; continue; }
    if (dig(p[i], base) < 0) break;
    any = prev = 1;
  }
  if (!any) return 0;
  if (i < n && (hex ? p[i] == 'p' || p[i] == 'P' : p[i] == 'e' || p[i] == 'E')) {
    i++; exp = 1;
    if (i < n && (p[i] == '+' || p[i] == '-')) i++;
    int ed = 0; prev = 0;
    for (; i < n; i++) {
      if (p[i] == '\'') { if (!prev || i + 1 >= n || dig(p[i + 1], 10) < 0) return 0; prev = 0; continue; }
      if (dig(p[i], 10) < 0) break;
      ed = prev = 1;
    }
    if (!ed) return 0;
  }
  if (hex && !exp) return 0;
  if (!exp && !dot) return i + 1 == n && (p[i] | 32) == 'f' ? 2 : 0;    // 1f: the tests of slimcc demand this extension
  *type = 8;
  if (i < n && (p[i] == 'f' || p[i] == 'F')) *type = 7, i++;
  else if (i < n && (p[i] == 'l' || p[i] == 'L')) *type = 9, i++;
  return i == n;
}
static void oracle(int mode, unsigned char *p, int n) {
  unsigned long v; int t;
  for (int i = 1; i < n; i++)     // an expression, not a literal
    if ((p[i] == '+' || p[i] == '-') && !((p[i - 1] | 32) == 'e' || (p[i - 1] | 32) == 'p')) { fprintf(ref, "skip\n"); return; }
  int fl = floating(p, n, &t);
  if (fl == 2) { fprintf(ref, "skip\n"); return; }
  if (fl) {
    fprintf(ref, "S t 1 %d\n", t);
    if (mode == 1) {
      char b[64]; int k = 0;
      for (int i = 0; i < n; i++) if (p[i] != '\'') b[k++] = p[i];
      b[k] = 0;
      char *e;
      union { long double x; unsigned long w[2]; double d; float f; unsigned u; } c;
      c.w[0] = c.w[1] = 0;
      c.x = strtold(b, &e);
      if (t == 8) { c.w[0] = c.w[1] = 0; c.d = strtod(b, &e); fprintf(ref, "S d 8 %lu\n", c.w[0]); }
      else if (t == 7) { c.w[0] = c.w[1] = 0; c.f = strtof(b, &e); fprintf(ref, "S f 4 %u\n", c.u); }
      else { fprintf(ref, "S x 1"); for (int i = 0; i < 10; i++) fprintf(ref, " %u", ((unsigned char *)&c)[i]); fprintf(ref, "\n"); }
    }
    return;
  }
  int r = integer(p, n, &v, &t);
  if (r == 0 || r == 2) { fprintf(ref, "reject\n"); return; }
  if (r == 3) { fprintf(ref, "skip\n"); return; }
  fprintf(ref, "S t 1 %d\n", t);
  if (mode == 0) fprintf(ref, "S v 8 %lu\n", v);
}
