// character constants (mode 1) and string literals (mode 0; mode 2: universal character names enabled)
#include "main.h"
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }
typedef struct { unsigned long v; int code; int bad; } Ch;     // code: a code point (to be encoded), otherwise a numeric escape
// one character or escape at p; returns the bytes consumed, 0 nothing is claimed, -1 malformed
static int onechar(unsigned char *p, int n, int ucn, Ch *r) {
  r->code = 1;
  if (p[0] == '\\') {
    if (n < 2) return 0;
    int c = p[1];
    if (c >= '0' && c <= '7') {
      unsigned v = 0; int i = 1;
      for (; i < 4 && i < n && p[i] >= '0' && p[i] <= '7'; i++) v = v * 8 + (p[i] - '0');
      r->v = v; r->code = 0; return i;
    }
    if (c == 'x') {
      unsigned long v = 0; int i = 2;
      if (n < 3 || hexv(p[2]) < 0) return -1;
      for (; i < n && hexv(p[i]) >= 0; i++) { if (v >> 28) return 0; v = v * 16 + hexv(p[i]); }
      r->v = v; r->code = 0; return i;
    }
    if (c == 'u' || c == 'U') {
      int k = c == 'u' ? 4 : 8; unsigned long v = 0;
      if (!ucn || n < 2 + k) return 0;
      for (int i = 0; i < k; i++) { if (hexv(p[2 + i]) < 0) return 0; v = v * 16 + hexv(p[2 + i]); }
      if (v < 0xa0 || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return 0;
      r->v = v; return 2 + k;
    }
    static const char from[] = "abfnrtve'\"?\\", to[] = "\a\b\f\n\r\t\v\033'\"?\\";
    for (int i = 0; from[i]; i++) if (c == from[i]) { r->v = to[i]; return 2; }
    return 0;
  }
  if (p[0] < 128) { r->v = p[0]; return 1; }
  int k = p[0] >= 0xf0 && p[0] <= 0xf4 ? 4 : p[0] >= 0xe0 ? 3 : 2;
  if (p[0] < 0xc2 || p[0] > 0xf4 || n < k) return 0;
  unsigned long v = p[0] & (0xff >> (k + 1));
  for (int i = 1; i < k; i++) { if ((p[i] & 0xc0) != 0x80) return 0; v = v << 6 | (p[i] & 63); }
  if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000) || (k == 3 && v < 0x800) || (k == 4 && v < 0x10000)) return 0;
  r->v = v; return k;
}
// prefix at p: 0 none, 1 u8, 2 u, 4 U, 5 L; returns the bytes consumed
static int prefix(unsigned char *p, int n, int *k) {
  *k = 0;
  if (n > 2 && p[0] == 'u' && p[1] == '8') { *k = 1; return 2; }
  if (n > 1 && p[0] == 'u') { *k = 2; return 1; }
  if (n > 1 && p[0] == 'U') { *k = 4; return 1; }
  if (n > 1 && p[0] == 'L') { *k = 5; return 1; }
  return 0;
}
static void oracle(int mode, unsigned char *p, int n) {
  int i = 0, k = 0, declared = mode >> 4, c23 = mode & 8;
  mode &= 7;
  if (mode == 1) {
    i = prefix(p, n, &k);
    if (p[i++] != '\'') { fprintf(ref, "skip\n"); return; }
    if (p[i] == '\'') { fprintf(ref, i + 1 == n ? "reject\n" : "skip\n"); return; }
    for (int j = i; j < n; j++) if (p[j] == '\n' || p[j] == '\r') { fprintf(ref, "reject\n"); return; }    // never closed on its line
    Ch c; int m = onechar(p + i, n - i, 0, &c);
    if (m < 0) { fprintf(ref, "reject\n"); return; }
    if (m == 0 || i + m + 1 != n || p[i + m] != '\'') { fprintf(ref, "skip\n"); return; }
    long v = c.v;
    if (k == 0) { if (c.v > (c.code ? 127 : 255)) { fprintf(ref, "skip\n"); return; } v = (signed char)c.v; }
    if (k == 1 && c.v > (c.code ? 127 : 255)) { fprintf(ref, "skip\n"); return; }
    if (k == 2 && c.v > 65535) { fprintf(ref, "skip\n"); return; }
    if (k == 4) v = (unsigned)c.v;
    if (k == 5) v = (int)c.v;
    fprintf(ref, "S t 1 %d\nS v 8 %ld\n", k == 0 ? 5 : k == 1 ? 2 : k == 2 ? 3 : k == 4 ? 4 : 5, v);
    return;
  }
  static Ch cs[256]; int nc = 0, pre = -1, seen = 0;
  while (i < n) {
    if (p[i] == ' ') { i++; continue; }
    i += prefix(p + i, n - i, &k);
    if (p[i] != '"' || (k && pre > 0 && k != pre)) { fprintf(ref, "skip\n"); return; }
    if (k || pre < 0) pre = k;
    seen = 1;
    for (i++; ; ) {
      if (i >= n) { fprintf(ref, "skip\n"); return; }
      if (p[i] == '\n') { fprintf(ref, "reject\n"); return; }
      if (p[i] == '"') { i++; break; }
      Ch c; int m = onechar(p + i, n - i, mode == 2, &c);
      if (m < 0) { fprintf(ref, "reject\n"); return; }
      if (m == 0) { fprintf(ref, "skip\n"); return; }
      for (int j = 0; j < m; j++) if (p[i + j] == '\n') { fprintf(ref, "skip\n"); return; }
      cs[nc++] = c; i += m;
    }
  }
  if (!seen) { fprintf(ref, "skip\n"); return; }
  k = pre;
  if (k != declared) { fprintf(ref, "skip\n"); return; }
  int w = k < 2 ? 1 : k == 2 ? 2 : 4;
  static unsigned long out[1024]; int no = 0;
  for (int j = 0; j < nc; j++) {
    unsigned long v = cs[j].v;
    if (!cs[j].code) { if (w < 4 && v >> (8 * w)) { fprintf(ref, "skip\n"); return; } out[no++] = v; }
    else if (w == 4 || v < (w == 1 ? 0x80ul : 0x10000ul)) out[no++] = v;
    else if (w == 2) { v -= 0x10000; out[no++] = 0xd800 + (v >> 10); out[no++] = 0xdc00 + (v & 0x3ff); }
    else {
      if (v < 0x800) out[no++] = 0xc0 | v >> 6;
      else {
        if (v < 0x10000) out[no++] = 0xe0 | v >> 12;
        else { out[no++] = 0xf0 | v >> 18; out[no++] = 0x80 | (v >> 12 & 63); }
        out[no++] = 0x80 | (v >> 6 & 63);
      }
      out[no++] = 0x80 | (v & 63);
    }
  }
  out[no++] = 0;
  fprintf(ref, "S s %d", w);
  for (int j = 0; j < no; j++) fprintf(ref, " %lu", out[j]);
  fprintf(ref, "\nS n 8 %d\nS t 1 %d\n", no * w, k == 0 ? 1 : k == 1 ? c23 ? 2 : 1 : k == 2 ? 3 : k == 4 ? 4 : 5);
}
