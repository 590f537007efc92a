"""inline assembly: operands, clobbers, flags and jumps of extended asm"""
import random
import core, equiv
from equiv import T

HEAD = ('struct S { char c; short h; int n; long l; int a[4]; }; struct B { int p : 5; unsigned q : 9; int r : 18; long w : 33; unsigned long z : 31; };\n'
        'int gi; long gl; short gh; signed char gc; static int si; static long sl; struct S gs; static struct S ss; int ga[4]; struct B gb; static _Thread_local int ti;\n')
IN = 'int x, int y, long v, long w'
OUT = 'long o[10]'

# (name, body with asm, body in plain C[, declarations])
H = [
 ('mem', 'int i; struct S t = {1, 2, 3, 4}; short h[6] = {0}; __asm__("movl %1, %0" : "=m"(i) : "r"(x)); __asm__("movw %w1, %0" : "=m"(h[3]) : "r"(y)); __asm__("movq %1, %0" : "=m"(t.l) : "r"(v)); __asm__("addl $3, %0" : "+m"(gs.a[2])); __asm__("movb %b1, %0" : "=m"(ss.c) : "q"(y)); o[0] = i; o[1] = h[3] + h[2] + h[4]; o[2] = t.l; o[3] = gs.a[2]; o[4] = ss.c; o[5] = t.n + t.h;',
  'o[0] = x; o[1] = (short)y; o[2] = v; gs.a[2] += 3; o[3] = gs.a[2]; o[4] = ss.c = y; o[5] = 5;'),
 ('memptr', 'struct S *p = &gs, *q = &ss; int *a = ga; int r; __asm__("movl %1, %0; movq %3, %2" : "=m"(p->n), "+r"(v), "=m"(q->l) : "r"(w)); o[5] = v;'.replace('"movl %1, %0; movq %3, %2"', '"movl %k1, %0; movq %3, %2"') + ' __asm__("movl %1, %0" : "=r"(r) : "m"(a[x & 3])); o[0] = r; __asm__("addl %1, %0" : "+m"(a[y & 3]) : "r"(x)); o[1] = ga[0]; o[2] = ga[y & 3]; o[3] = gs.n; o[4] = ss.l;',
  'gs.n = v; ss.l = w; o[5] = v; o[0] = ga[x & 3]; ga[y & 3] += x; o[1] = ga[0]; o[2] = ga[y & 3]; o[3] = gs.n; o[4] = ss.l;'),
 ('fixed', 'int a, b, c, d, e, f; __asm__("xchgl %%eax, %%ebx; xchgl %%ecx, %%edx; xchgl %%esi, %%edi" : "=a"(a), "=b"(b), "=c"(c), "=d"(d), "=S"(e), "=D"(f) : "a"(x), "b"(y), "c"(x + 1), "d"(y + 1), "S"(x * 2), "D"(y * 2)); o[0] = a; o[1] = b; o[2] = c; o[3] = d; o[4] = e; o[5] = f;',
  'o[0] = y; o[1] = x; o[2] = (int)(y + 1u); o[3] = (int)(x + 1u); o[4] = (int)(y * 2u); o[5] = (int)(x * 2u);'),
 ('tied', 'int a = x, b = y; long c; __asm__("xchgl %0, %1" : "=r"(a), "=r"(b) : "0"(b), "1"(a)); o[0] = a; o[1] = b; __asm__("addq %2, %0" : "=r"(c) : "0"(v), "r"(w)); o[2] = c; __asm__("imulq %1, %0" : "=a"(c) : "S"(v), "0"(w)); o[3] = c; __asm__("negl %0" : "=&r"(a) : "0"(x)); o[4] = a; __asm__("subl %2, %0; subl %3, %1" : "=&r"(gi), "=b"(si) : "d"(x), "r"(y), "1"(y), "0"(x)); o[5] = gi; o[6] = si;',
  'o[0] = x; o[1] = y; o[2] = v + w; o[3] = v * w; o[4] = (int)-(unsigned)x; gi = si = 0; o[5] = 0; o[6] = 0;'.replace('o[0] = x; o[1] = y', 'o[0] = x; o[1] = y')),
 ('named', 'long r; int k; __asm__("movq %[src], %[dst]; addq %[k], %[dst]; leal (%q[i],%q[i]), %[out]" : [dst]"=&r"(r), [out]"=&r"(k) : [src]"r"(v), [k]"i"(77), [i]"r"(x)); o[0] = r; o[1] = k; __asm__("movl %[b], %[a]" : [a]"=r"(gi) : [b]"rm"(y)); o[2] = gi; __asm__("addq $%c[n], %[r]; subq %[m], %[r]" : [r]"+r"(sl) : [n]"n"(5), [m]"g"(w)); o[3] = sl;',
  'o[0] = v + 77; o[1] = (int)(x * 2u); gi = y; o[2] = gi; sl += 5 - w; o[3] = sl;'),
 ('sizes', 'signed char c = x; short h = y; unsigned char uc; unsigned short uh; __asm__("addb %1, %0" : "+q"(c) : "q"((char)y)); __asm__("xorw %1, %0" : "+r"(h) : "r"((short)x)); __asm__("movb %1, %0" : "=q"(uc) : "q"((unsigned char)v)); __asm__("movw %w1, %0" : "=r"(uh) : "r"(w)); o[0] = c; o[1] = h; o[2] = uc; o[3] = uh; __asm__("movb %h1, %b0" : "=Q"(o[4]) : "Q"(v), "0"(0L)); o[5] = 0; __asm__("movzbl %b1, %k0" : "=r"(o[5]) : "r"(x)); __asm__("movswq %w1, %q0" : "=r"(o[6]) : "r"(y));',
  'o[0] = (signed char)(x + y); o[1] = (short)(y ^ x); o[2] = (unsigned char)v; o[3] = (unsigned short)w; o[4] = (unsigned char)(v >> 8); o[5] = (unsigned char)x; o[6] = (short)y;'),
 ('imm', 'int a = x; long b = v; __asm__("addl %1, %0" : "+r"(a) : "i"(-5)); __asm__("shll %1, %0" : "+r"(a) : "I"(3)); __asm__("xorq %1, %0" : "+r"(b) : "n"(sizeof(struct S) + 1)); __asm__("addl %1, %0" : "+r"(gi) : "ri"(9)); __asm__("addl %1, %0" : "+r"(gi) : "ri"(x)); __asm__("addl %1, %0" : "+r"(si) : "rmi"(y)); __asm__("subl %1, %0" : "+rm"(si) : "ir"(x + y)); o[0] = a; o[1] = b; o[2] = gi; o[3] = si; __asm__("movl %1, %0" : "=m"(ga[1]) : "g"(x - y)); o[4] = ga[1];',
  'o[0] = (int)((unsigned)(x - 5) << 3); o[1] = v ^ 33; gi += 9 + (unsigned)x; o[2] = gi; si += (unsigned)y - ((unsigned)x + y); o[3] = si; o[4] = ga[1] = (unsigned)x - y;'),
 ('early', 'int a, b; __asm__("movl $7, %0; addl %2, %0; movl %3, %1; subl %2, %1" : "=&r"(a), "=&r"(b) : "r"(x), "r"(y)); o[0] = a; o[1] = b; long c; __asm__("xorl %k0, %k0; addq %1, %0; addq (%2), %0" : "=&r"(c) : "m"(gl), "r"(&sl)); o[2] = c; struct S *p = &gs; __asm__("movl $1, %0; addl %1, %0; addl %0, %1" : "=&r"(a), "+m"(p->n)); o[3] = a; o[4] = gs.n;',
  'o[0] = (int)(7u + x); o[1] = (int)((unsigned)y - x); o[2] = (unsigned long)gl + sl; int a = 1u + gs.n; gs.n += (unsigned)a; o[3] = a; o[4] = gs.n;'),
 ('bitout', 'struct B b = {1, 2, 3, 4, 5}, *p = &gb; __asm__("movl %3, %0; movl %4, %1; movl %3, %2" : "=&r"(b.p), "=&r"(b.q), "=&r"(b.r) : "r"(x), "r"(y)); __asm__("movq %2, %0; movq %3, %1" : "=&r"(p->w), "=&r"(p->z) : "r"(v), "r"(w)); o[0] = b.p; o[1] = b.q; o[2] = b.r; o[3] = b.w; o[4] = b.z; o[5] = gb.w; o[6] = gb.z; o[7] = gb.p + gb.q + gb.r; __asm__("movl %1, %0" : "=r"(p->q) : "r"(y)); o[8] = gb.p + gb.q * 3 + gb.r; __asm__("addl %1, %0" : "+r"(p->r) : "r"(x)); o[9] = gb.r;',
  'struct B b = {1, 2, 3, 4, 5}, *p = &gb; b.p = x; b.q = y; b.r = x; p->w = v; p->z = w; o[0] = b.p; o[1] = b.q; o[2] = b.r; o[3] = b.w; o[4] = b.z; o[5] = gb.w; o[6] = gb.z; o[7] = gb.p + gb.q + gb.r; p->q = y; o[8] = gb.p + gb.q * 3 + gb.r; p->r += (unsigned)x; o[9] = gb.r;'),
 ('bitin', 'struct B b = {x, y, x, v, w}, *p = &b; int i, j; long k, l; __asm__("movl %4, %0; movl %5, %1; movq %6, %2; movq %7, %3" : "=&r"(i), "=&r"(j), "=&r"(k), "=&r"(l) : "r"((int)b.p), "r"((unsigned)p->q), "r"((long)b.w), "r"((unsigned long)p->z)); o[0] = i; o[1] = j; o[2] = k; o[3] = l; __asm__("notl %0" : "+r"(b.q)); __asm__("negq %0" : "+r"(p->w)); __asm__("addl %1, %0" : "+r"(p->p) : "r"(y)); o[4] = b.q; o[5] = b.w; o[6] = b.p; o[7] = b.r; o[8] = b.z;',
  'struct B b = {x, y, x, v, w}, *p = &b; o[0] = b.p; o[1] = b.q; o[2] = b.w; o[3] = b.z; b.q = ~b.q; b.w = -(unsigned long)b.w; b.p += (unsigned)y; o[4] = b.q; o[5] = b.w; o[6] = b.p; o[7] = b.r; o[8] = b.z;'),
 ('flags', 'char a; short b; int c; long d; _Bool e; struct S *p = &gs; __asm__("cmpl %5, %6" : "=@ccz"(a), "=@ccl"(b), "=@ccg"(c), "=@ccb"(d), "=@cca"(e) : "r"(x), "r"(y)); o[0] = a; o[1] = b; o[2] = c; o[3] = d; o[4] = e; __asm__("testq %2, %2" : "=@ccs"(p->n), "=@ccnz"(gi) : "r"(v)); o[5] = gs.n; o[6] = gi; int r; __asm__("movl %2, %0; addl %3, %0" : "=&r"(r), "=@cco"(p->c) : "r"(x), "r"(y)); o[7] = r; o[8] = gs.c; __asm__("cmpq %1, %2" : "=@ccle"(ga[x & 3]) : "r"(v), "r"(w)); o[9] = ga[x & 3];',
  'o[0] = x == y; o[1] = y < x; o[2] = y > x; o[3] = (unsigned)y < (unsigned)x; o[4] = (unsigned)y > (unsigned)x; o[5] = gs.n = v < 0; o[6] = gi = v != 0; o[7] = (int)((unsigned)x + y); long t = (long)x + y; o[8] = gs.c = t != (int)t; o[9] = ga[x & 3] = w <= v;'),
 ('flagbit', 'struct B b = {0}, *p = &gb; int f, g; __asm__("movl %3, %0; cmpl %4, %3" : "=&r"(b.q), "=@cce"(f), "=@ccle"(g) : "r"(x), "r"(y)); o[0] = b.q; o[1] = f; o[2] = g; __asm__("movq %2, %0; cmpq %3, %2" : "=&r"(p->w), "=@ccae"(f) : "r"(v), "r"(w)); o[3] = gb.w; o[4] = f; __asm__("cmpl %2, %3" : "=@ccl"(p->q), "=@ccne"(b.p) : "r"(x), "r"(y)); o[5] = gb.q; o[6] = b.p; o[7] = b.q; o[8] = gb.p + gb.r;',
  'struct B b = {0}, *p = &gb; b.q = x; o[0] = b.q; o[1] = x == y; o[2] = x <= y; p->w = v; o[3] = gb.w; o[4] = (unsigned long)v >= (unsigned long)w; p->q = y < x; b.p = x != y; o[5] = gb.q; o[6] = b.p; o[7] = b.q; o[8] = gb.p + gb.r;'),
 ('goto', '__asm__ goto("cmpl %1, %0; je %l2; jl %l3" : : "r"(x), "r"(y) : "cc" : eq, lt); o[0] = 1; goto d; eq: o[0] = 2; goto d; lt: o[0] = 3; d: __asm__ goto("testq %0, %0; jz %l[z]" : : "m"(gl), "r"(v) : : z);'.replace('"testq %0, %0; jz %l[z]" : : "m"(gl), "r"(v)', '"testq %1, %1; jz %l[z]" : : "m"(gl), "r"(v)') + ' o[1] = 5; z: o[2] = 6; { int k = 3; __asm__ goto("cmpl %0, %1; ja %l[up]" : : "r"(x), "r"(k) : "memory" : up); o[3] = 7; up: o[4] = k; }',
  'o[0] = x == y ? 2 : x < y ? 3 : 1; if (v) o[1] = 5; o[2] = 6; if (3 <= (unsigned)x) o[3] = 7; o[4] = 3;'),
 ('gotoclob', 'int k = x + 1; __asm__ goto("movq $1, %%r12; movq $2, %%rbx; movq $3, %%r15; testl %0, %0; jz %l[a]; cmpl $5, %0; je %l[b]" : : "r"(x) : "r12", "rbx", "r15", "rax", "rcx" : a, b); o[0] = k; goto d; a: o[1] = k; goto d; b: o[2] = k; d: o[3] = k + y;',
  'int k = x + 1u; if (!x) o[1] = k; else if (x == 5) o[2] = k; else o[0] = k; o[3] = (int)(k + (unsigned)y);'),
 ('gotobp', 'int k = x; __asm__ goto("movq $1, %%rbp; movl $9, %%ebx; testl %0, %0; js %l[a]" : : "r"(y) : "rbp", "rbx" : a); o[0] = k; return; a: o[1] = k + 1;'.replace('k + 1', 'k - y'),
  'if (y < 0) o[1] = (int)((unsigned)x - y); else o[0] = x;'),
 ('gotoout', 'int r = x; long q; __asm__ goto("subl $5, %0; movq %2, %1; je %l[a]; jl %l[b]; addl $100, %0" : "+&r"(r), "=&r"(q) : "r"(v) : "r13", "cc" : a, b); o[0] = r; o[1] = q; return; a: o[2] = r; o[3] = q; return; b: o[4] = r; o[5] = q;'.replace('"+&r"', '"+r"'),
  'int r = x - 5u; if (x == 5) o[2] = r, o[3] = v; else if (x < 5) o[4] = r, o[5] = v; else o[0] = (int)(r + 100u), o[1] = v;'),
 ('gotobit', 'struct B *p = &gb; int f; __asm__ goto("movl %2, %0; cmpl %3, %2; jg %l[a]" : "=&r"(p->q), "=@cce"(f) : "r"(x), "r"(y) : "rbx", "r12" : a); o[0] = gb.q; o[1] = f; return; a: o[2] = gb.q; o[3] = f; o[4] = gb.p + gb.r;',
  'gb.q = x; if (x > y) { o[2] = gb.q; o[3] = 0; o[4] = gb.p + gb.r; } else { o[0] = gb.q; o[1] = x == y; }'),
 ('clob', 'long a = v, b = w; int i = x, j = y; __asm__ volatile("movq $-1, %%rbx; movq %%rbx, %%r12; movq %%rbx, %%r13; movq %%rbx, %%r14; movq %%rbx, %%r15; movl $1, %%eax; movl $2, %%ecx; movl $3, %%edx" : : : "rbx", "r12", "r13", "r14", "r15", "rax", "rcx", "rdx", "memory", "cc"); o[0] = a + i; o[1] = b - j; __asm__("xorl %%esi, %%esi; xorl %%edi, %%edi; movq %%rsi, %%r8; movq %%rsi, %%r9; movq %%rsi, %%r10; movq %%rsi, %%r11" : "+r"(a), "+b"(i) : "r"(b) : "rsi", "rdi", "r8", "r9", "r10", "r11"); o[2] = a; o[3] = i;',
  'o[0] = v + x; o[1] = w - y; o[2] = v; o[3] = x;'),
 ('clobbp', 'long a = v; int i = x; __asm__("movq %2, %%rbp; addq %%rbp, %0; movl $4, %%ebx; subl %%ebx, %1" : "+r"(a), "+m"(i) : "r"(w) : "rbp", "rbx"); o[0] = a; o[1] = i; __asm__("leaq (%1,%2), %%rbp; movq %%rbp, %0" : "=r"(gl) : "r"(v), "r"((long)i) : "rbp"); o[2] = gl; struct S *p = &gs; __asm__("xorl %%ebp, %%ebp; movl %k1, %0" : "=m"(p->n) : "r"(w) : "rbp"); o[3] = gs.n;',
  'o[0] = v + w; o[1] = (int)(x - 4u); o[2] = gl = v + o[1]; o[3] = gs.n = w;'),
 ('live', 'long t = v * 3 + ({ int r; __asm__("movq $5, %%rsi; movl %1, %0" : "=r"(r) : "r"(x) : "rsi", "rdi", "r8", "r9", "r10", "r11", "rcx", "rdx"); r; }) * (w - ({ long q = y; __asm__("negq %0; xorl %%eax, %%eax" : "+r"(q) : : "rax", "rbx", "r12"); q; })); o[0] = t; o[1] = f(x, ({ int r = y; __asm__("addl %1, %0" : "+D"(r) : "S"(x) : "rdx", "rcx"); r; }), 3); o[2] = (v + w) - (v ^ ({ long r; __asm__("movq %1, %0" : "=a"(r) : "c"(w) : "r8", "r9"); r; }));',
  'o[0] = v * 3 + x * (w + y); o[1] = f(x, (unsigned)x + y, 3); o[2] = (v + w) - (v ^ w);', 'static int f(int a, int b, int c) { return a * 2u + b * 3u - c; }\n'),
 ('loop', 'int i; long s = 0; for (i = 0; i < 4; i++) { long t; __asm__("leaq (%1,%2,2), %0" : "=r"(t) : "r"(s), "r"(v + i)); s = t; __asm__("addl %1, %0" : "+m"(ga[i]) : "r"(i)); } o[0] = s; o[1] = ga[3]; switch (x & 1) { case 0: __asm__("movl $3, %0" : "=r"(i)); break; default: __asm__("movl $4, %0" : "=m"(i)); } o[2] = i; if (y) __asm__("incl %0" : "+r"(gi)); else __asm__("decl %0" : "+r"(gi)); o[3] = gi;',
  'long s = 0; for (int i = 0; i < 4; i++) { s += (v + i) * 2; ga[i] += (unsigned)i; } o[0] = s; o[1] = ga[3]; o[2] = x & 1 ? 4 : 3; gi += y ? 1u : -1u; o[3] = gi;'),
 ('ptrs', 'static int arr[3] = {4, 5, 6}; long r; __asm__("movl 4(%1), %k0; addl (%2), %k0" : "=&r"(r) : "r"(arr), "r"(&arr[2])); o[0] = (int)r; int loc[4] = {x, y, x + 1}; __asm__("movl 8(%1), %k0" : "=&r"(r) : "r"(loc)); o[1] = (int)r; int (*fp)(void); __asm__("movq %1, %0" : "=r"(fp) : "r"(g5)); o[2] = fp(); o[3] = fp == g5; int *p = loc; __asm__("addq $4, %0" : "+r"(p)); o[4] = *p; __asm__("movl %1, 12(%0)" : : "r"(loc), "r"(y) : "memory"); o[5] = loc[3]; __asm__("movl %1, %0" : "=m"(*(p + 1)) : "r"(7)); o[6] = loc[2];',
  'o[0] = 11; o[1] = (int)(x + 1u); o[2] = g5(); o[3] = 1; o[4] = y; o[5] = y; o[6] = 7;', 'static int g5(void) { return gi + 5u; }\n'),
 ('side', 'int a[4] = {1, 2, 3, 4}, *p = a, n = 0; __asm__("movl %1, %0" : "=r"(*p++) : "r"(x)); __asm__("addl %1, %0" : "+r"(*p++) : "r"(y)); __asm__("movl %1, %0" : "=m"(a[n++ + 2]) : "r"(a[n + 3])); o[0] = a[0]; o[1] = a[1]; o[2] = a[2]; o[3] = p - a; o[4] = n; int c = 0; __asm__("movl %1, %0" : "=r"(*(c++, &gi)) : "r"((c += 0, x))); '.replace('"r"(a[n + 3])', '"r"(y)').replace('"r"((c += 0, x))', '"r"(cnt(x))') + 'o[5] = gi; o[6] = c; o[7] = calls;',
  'o[0] = x; o[1] = (int)(2u + y); o[2] = y; o[3] = 2; o[4] = 1; calls++; o[5] = gi = x; o[6] = 1; o[7] = calls;', 'static int calls; static int cnt(int n) { calls++; return n; }\n'),
 ('fp', 'double d = x, e = y + 0.5; float f = x, g = 2.5f; __asm__("addsd %1, %0" : "+x"(d) : "x"(e)); __asm__("mulss %1, %0" : "+x"(f) : "x"(g)); double h; __asm__("movapd %1, %0; subsd %2, %0" : "=&x"(h) : "x"(e), "x"((double)x)); float k; __asm__("movss %1, %0" : "=x"(k) : "m"(f)); o[0] = d < 100; o[1] = f < g; o[2] = h > e; o[3] = k == f; double *pd = &h; __asm__("addsd %1, %0" : "+x"(*pd) : "m"(e)); o[4] = h < d; int i; __asm__("cvttsd2si %1, %0" : "=r"(i) : "x"(e)); o[5] = i; __asm__("cvtsi2sdl %1, %0" : "=x"(d) : "r"(y)); o[6] = d < e; int z; __asm__("ucomisd %2, %1" : "=@cca"(z) : "x"(d), "x"(e)); o[7] = z;',
  'double d = x, e = y + 0.5; float f = x, g = 2.5f; d = d + e; f = f * g; double h = e - (double)x; float k = f; o[0] = d < 100; o[1] = f < g; o[2] = h > e; o[3] = k == f; h = h + e; o[4] = h < d; o[5] = (int)e; d = y; o[6] = d < e; o[7] = d > e;'),
 ('fpclob', 'double a = x, b = y; float c = x; __asm__("xorps %%xmm2, %%xmm2; xorps %%xmm0, %%xmm0; xorps %%xmm1, %%xmm1; subsd %2, %0; addsd %2, %1" : "+x"(a), "+&x"(b) : "x"(1.5) : "xmm0", "xmm1", "xmm2"); '.replace('"+&x"', '"+x"') + 'o[0] = a < 3; o[1] = b > 4; double t = a + b * ({ double q; __asm__("movsd %1, %0" : "=x"(q) : "m"(c) : "xmm3", "xmm4", "xmm5", "xmm6", "xmm7"); q; });'.replace('"m"(c)', '"m"(b)') + ' o[2] = t < 9; int i; __asm__("movd %1, %0" : "=r"(i) : "x"(c)); o[3] = i; __asm__("movd %1, %0" : "=x"(c) : "r"(y)); union { float f; int i; } un = {c}; o[4] = un.i;',
  'double a = x, b = y; float c = x; a = a - 1.5; b = b + 1.5; o[0] = a < 3; o[1] = b > 4; double t = a + b * b; o[2] = t < 9; union { float f; int i; } un = {c}; o[3] = un.i; o[4] = y;'),
 ('x87', 'long double a = x, b = y, c, *p = &c; __asm__("fadd %1, %0" : "+t"(a) : "f"(b)); o[0] = a < 10; __asm__("fxch %1" : "=t"(a), "=u"(*p) : "0"(a), "1"(b)); o[1] = a == b; o[2] = c < 10; __asm__("fchs" : "+t"(b)); o[3] = b < 0; double d; __asm__("fldl %1" : "=t"(d) : "m"(gd)); o[4] = d == gd; __asm__("" : "=t"(c) : "0"(3.5L)); o[5] = c == 3.5L; o[6] = a < b;',
  'long double a = x, b = y, c; a = a + b; o[0] = a < 10; c = a; a = b; o[1] = a == b; o[2] = c < 10; b = -b; o[3] = b < 0; double d = gd; o[4] = d == gd; c = 3.5L; o[5] = c == 3.5L; o[6] = a < b;', 'double gd = 2.25;\n'),
 ('regvar', 'register int a __asm__("ebx"), b __asm__("r12"); register long c __asm__("rsi"); __asm__("movl %2, %0; movl $6, %1" : "=r"(a), "=r"(b) : "r"(x)); o[0] = a; o[1] = b; c = v; __asm__("addq $4, %%rsi" : "+r"(c)); o[2] = c; register long d __asm__("r10") = w; long r; __asm__("movq %%r10, %0" : "=r"(r) : "r"(d)); o[3] = r;'.replace('"=r"(a), "=r"(b)', '"=&r"(a), "=&r"(b)'),
  'o[0] = x; o[1] = 6; o[2] = v + 4; o[3] = w;'),
 ('mul', 'unsigned long lo, hi; __asm__("mulq %3" : "=a"(lo), "=d"(hi) : "0"(v), "r"(w) : "cc"); o[0] = lo; o[1] = hi; unsigned q, r; __asm__("divl %4" : "=a"(q), "=d"(r) : "0"(x), "1"(0), "r"(7)); o[2] = q; o[3] = r; __asm__("cltd" : "=d"(o[4]), "=a"(o[5]) : "a"(x)); o[4] = (int)o[4]; o[5] = (int)o[5]; unsigned char c; __asm__("sbbb %0, %0" : "=q"(c) : "0"((char)0)); o[6] = 0; __asm__("shlq %%cl, %0" : "+r"(v) : "c"(y & 63)); o[7] = v; __asm__("bswapl %0" : "+r"(x)); o[8] = x; int n; __asm__("xaddl %0, %1" : "=r"(n), "+m"(gi) : "0"(y)); o[9] = n + (long)gi;'.replace('unsigned char c; __asm__("sbbb %0, %0" : "=q"(c) : "0"((char)0)); o[6] = 0; ', ''),
  'unsigned __int128 m = (unsigned __int128)(unsigned long)v * (unsigned long)w; o[0] = (long)m; o[1] = (long)(m >> 64); o[2] = (unsigned)x / 7; o[3] = (unsigned)x % 7; o[4] = x >> 31; o[5] = x; o[7] = (unsigned long)v << (y & 63); o[8] = (int)__builtin_bswap32(x); x = o[8]; int n = gi; gi += (unsigned)y; o[9] = n + (long)gi;'),
 ('rep', 'char d[8] = {1, 2, 3, 4, 5, 6, 7, 8}; char *p = d + 1; __asm__ volatile("movb %b1, (%0); incq %0; movb %b1, (%0); incq %0" : "+D"(p) : "a"((char)x) : "memory"); o[0] = p - d; o[1] = d[0] + d[1] * 2 + d[2] * 3 + d[3] * 4; int m = 0; __asm__ volatile("" : : : "memory"); __asm__ __volatile__("movl %1, %0" : "+m"(m) : "r"(y)); o[2] = m; __asm("addl %1,%0" : "+r"(m) : "r"(1)); o[3] = m; asm inline("subl $2, %0" : "+r"(m)); o[4] = m; __asm__("# %% comment { } \\n\\tnop"); __asm__("nop" ::); __asm__("nop" : : : );'.replace(' __asm__("nop" : : : );', ''),
  'char c = x; o[0] = 3; o[1] = 1 + c * 2 + c * 3 + 16; o[2] = y; o[3] = (int)(y + 1u); o[4] = (int)(y - 1u);'),
 ('aggr', 'struct P { short a, b; } p = {x, y}, q; struct Q { char c[8]; } r; union U { int i; float f; } u = {x}; __asm__("roll $16, %0" : "=r"(q) : "0"(p)); o[0] = q.a; o[1] = q.b; __asm__("movq %1, %0" : "=r"(r) : "r"(v)); o[2] = r.c[0]; o[3] = r.c[7]; __asm__("addl %1, %0" : "+r"(u) : "r"(1)); o[4] = u.i; struct S big = {1, 2, x}; __asm__("incl 4+%0" : "+m"(big)); o[5] = big.n; __asm__("movl %1, 8%0" : "=m"(ga) : "r"(y));'.replace(' __asm__("movl %1, 8%0" : "=m"(ga) : "r"(y));', ' __asm__("movl %1, %0" : "=m"(ga) : "r"(y)); o[6] = ga[0];'),
  'o[0] = (short)y; o[1] = (short)x; o[2] = (signed char)v; o[3] = (signed char)(v >> 56); o[4] = (int)(x + 1u); o[5] = (int)(x + 1u); o[6] = ga[0] = y;'),
 ('tls', '_Bool t = x & 1; __asm__("addl %1, %0" : "+r"(ti) : "r"(x)); o[0] = ti; __asm__("movl %1, %0" : "=m"(ti) : "r"(y)); o[1] = ti; int r; __asm__("movl %1, %0" : "=r"(r) : "m"(ti)); o[2] = r; __asm__("xorb $1, %0" : "+q"(t)); o[3] = t; int *p = &ti; __asm__("incl %0" : "+m"(*p)); o[4] = ti; volatile int vi = x; __asm__("addl $1, %0" : "+m"(vi)); o[5] = vi; const int ci = y; __asm__("movl %1, %0" : "=r"(r) : "r"(ci)); o[6] = r; static const int sc = 12; __asm__("movl %1, %0" : "=r"(r) : "m"(sc)); o[7] = r;',
  'ti += (unsigned)x; o[0] = ti; o[1] = y; o[2] = y; o[3] = !(x & 1); ti = y + 1u; o[4] = ti; o[5] = (int)(x + 1u); o[6] = y; o[7] = 12;'),
]
FRAME = {   # (start, end) around a body
 'plain': ('', ''),
 'align': ('_Alignas(64) int al[4]; al[1] = x ^ 3; ', ' o[9] += al[1] + ((unsigned long)al & 63);'),
 'vla': ('int vn = (y & 1) + 1; long vl[vn]; vl[0] = v; vl[vn - 1] = w; ', ' o[9] += vl[vn - 1];'),
 'alignvla': ('_Alignas(32) long al[2]; al[1] = v; { int vn = (y & 1) + 1; char vl[vn]; vl[vn - 1] = x; ', ' o[9] += al[1] + vl[vn - 1]; }'),
 'big': ('long bg[40]; bg[0] = v; bg[39] = w; ', ' o[9] += bg[0] - bg[39];'),
}

# ---- generated statements
CT = {1: ('signed char', 'unsigned char'), 2: ('short', 'unsigned short'), 4: ('int', 'unsigned'), 8: ('long', 'unsigned long')}
SUF = {1: 'b', 2: 'w', 4: 'l', 8: 'q'}
MOD = {1: 'b', 2: 'w', 4: 'k', 8: 'q'}
FIX = ['a', 'b', 'c', 'd', 'S', 'D']
FREG = dict(a='rax', b='rbx', c='rcx', d='rdx', S='rsi', D='rdi')
ALLR = ['rax', 'rcx', 'rdx', 'rbx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15', 'rbp']
FL = {'e': '{0} == {1}', 'ne': '{0} != {1}', 'z': '{0} == {1}', 'l': '(S){0} < (S){1}', 'g': '(S){0} > (S){1}', 'le': '(S){0} <= (S){1}', 'ge': '(S){0} >= (S){1}',
      'b': '{0} < {1}', 'a': '{0} > {1}', 'ae': '{0} >= {1}', 'be': '{0} <= {1}', 'c': '{0} < {1}', 'nc': '{0} >= {1}'}


def gen(rnd, k):
    n = rnd.choice([1, 2, 4, 4, 8, 8])
    sct, uct = CT[n]
    if n == 1: sct = 'signed char'
    pre, post, decl = [], [], []
    vid = [0]

    def lval(init):
        """(lvalue, C type): where it lives varies; init is the expression stored first"""
        vid[0] += 1; i = vid[0]; ty = rnd.choice([sct, uct])
        form = rnd.choice(['loc', 'loc', 'glob', 'stat', 'ptr', 'elem', 'mem', 'pmem', 'bit', 'pbit', 'slot', 'deref2'])
        if n == 1 and form in ('bit', 'pbit'): form = 'loc'
        nm = 'v%d' % i
        if form == 'loc': pre.append('%s %s = %s;' % (ty, nm, init)); lv = nm
        elif form == 'glob': decl.append('%s g%d;' % (ty, i)); pre.append('g%d = %s;' % (i, init)); lv = 'g%d' % i
        elif form == 'stat': decl.append('static %s g%d[3];' % (ty, i)); pre.append('g%d[1] = %s;' % (i, init)); lv = 'g%d[1]' % i
        elif form == 'ptr': pre.append('%s %s_ = %s, *%s = &%s_;' % (ty, nm, init, nm, nm)); lv = '*' + nm
        elif form == 'elem': pre.append('%s %s[4] = {3, 4, 5, 6}; %s[y & 3] = %s;' % (ty, nm, nm, init)); lv = '%s[y & 3]' % nm; post.append('o[8] += %s[0] * 3 + %s[1] * 5 + %s[2] * 7 + %s[3];' % (nm, nm, nm, nm))
        elif form == 'mem': pre.append('struct { char a; %s b; char c; } %s = {1, %s, 2};' % (ty, nm, init)); lv = nm + '.b'; post.append('o[8] += %s.a + %s.c;' % (nm, nm))
        elif form == 'pmem': decl.append('struct M%d { char a; %s b; short c; } g%d = {1, 2, 3};' % (i, ty, i)); pre.append('struct M%d *%s = &g%d; %s->b = %s;' % (i, nm, i, nm, init)); lv = nm + '->b'; post.append('o[8] += g%d.a + g%d.c;' % (i, i))
        elif form in ('bit', 'pbit'):
            wd = rnd.randint(1, n * 8 - 2); b4 = rnd.randint(0, n * 8 - wd - 1)
            decl.append('struct F%d { %s a : %d; %s b : %d; %s c : %d; };' % (i, uct, b4 + 1, ty, wd, uct, max(1, n * 8 - wd - b4 - 1)))
            pre.append('struct F%d %s_ = {1, 0, 1}, *%s = &%s_; %s->b = %s;' % (i, nm, nm, nm, nm, init)); lv = nm + ('_.b' if form == 'bit' else '->b'); post.append('o[8] += %s_.a + %s_.c * 3;' % (nm, nm))
        elif form == 'slot': pre.append('%s %s[2][3] = {0}, (*p%s)[3] = %s; p%s[1][x & 1] = %s;' % (ty, nm, nm, nm, nm, init)); lv = 'p%s[1][x & 1]' % nm; post.append('o[8] += %s[1][0] - %s[1][1] * 3;' % (nm, nm))
        else: pre.append('%s %s_ = %s, *%s1 = &%s_, **%s = &%s1;' % (ty, nm, init, nm, nm, nm, nm)); lv = '**' + nm
        return lv, ty, form

    src0 = ['x', 'y', 'v', 'w', 'x + y', 'v ^ w', 'v >> 9', 'w - x', '~y']
    fixed = [f for f in FIX if n != 1 or f in 'abcd']; rnd.shuffle(fixed)
    ops = []        # dicts: out/in text, ref
    nout, nin = rnd.randint(1, 3), rnd.randint(1, 3)
    sure = rnd.random() < .7       # named operands
    used = set()
    for i in range(nout):
        lv, ty, form = lval(rnd.choice(src0))
        io = rnd.choice('=+')
        can_mem = form not in ('bit', 'pbit')
        c = rnd.choice(['r', 'r', 'F', 'q'] + (['m', 'rm'] if can_mem else []) + ([] if n == 1 else ['R', 'Q']))
        if c in 'q' and n == 1: c = 'q'
        if c == 'F':
            if not fixed: c = 'r'
            else: c = fixed.pop(); used.add(FREG[c])
        ops.append(dict(lv=lv, ty=ty, io=io, c=c, early=(c != 'm')))
    ins = []
    for i in range(nin):
        t = rnd.random()
        if t < .25: ins.append(dict(e='(%s)%s' % (sct, rnd.choice([1, 5, -3, 100, 0, 7])), c=rnd.choice(['i', 'n', 'ri', 'g', 'r']), num=1)); continue
        e = rnd.choice(src0)
        ty = rnd.choice([sct, uct])
        if t < .6: lv, ty, form = lval(e); e = lv
        else: form = 'expr'
        c = rnd.choice(['r', 'r', 'F', 'r', 'rm' if form != 'bit' else 'r', 'ri', 'g'])
        if form not in ('expr', 'bit', 'pbit') and rnd.random() < .3: c = 'm'
        if c == 'F':
            if not fixed: c = 'r'
            else: c = fixed.pop(); used.add(FREG[c])
        if form in ('bit', 'pbit'): c = c if c not in ('rm', 'g') else 'r'
        ins.append(dict(e='(%s)(%s)' % (ty, e) if form in ('expr', 'bit', 'pbit') else e, c=c))
    # a tied input for a '=' register output
    tied = []
    for i, o in enumerate(ops):
        if o['io'] == '=' and 'm' not in o['c'] and rnd.random() < .5:
            ins.append(dict(e='(%s)(%s)' % (o['ty'], rnd.choice(src0)), c=str(i), tie=i)); tied.append(i)
    clob = [r for r in ALLR if r not in used and rnd.random() < .25][:6]
    # ---- body and its meaning.  Values are unsigned of the operand width.
    asm, ref = [], []
    for r in clob: asm.append('movq $%d, %%%%%s' % (rnd.randint(-9, 9), r))
    nops = len(ops)

    def op(i): return '%' + (MOD[n] if (ops[i]['c'] if i < nops else ins[i - nops]['c']) not in ('m',) and not (i >= nops and 'num' in ins[i - nops]) and 'm' not in (ops[i]['c'] if i < nops else ins[i - nops]['c']) and (ops[i]['c'] if i < nops else ins[i - nops]['c']) not in ('g', 'ri', 'i', 'n') and rnd.random() < .4 else '') + str(i)
    mem = lambda i: 'm' in (ops[i]['c'] if i < nops else ins[i - nops]['c']) or (i >= nops and ins[i - nops]['c'] == 'g')
    for i, o in enumerate(ops):
        ref.append('U r%d = (U)(%s);' % (i, o['lv']) if o['io'] == '+' else 'U r%d = 0;' % i)
    for j, d in enumerate(ins):
        ref.append('U a%d = (U)(%s);' % (nops + j, d['e']))
    for j, d in enumerate(ins):
        if 'tie' in d: ref.append('r%d = a%d;' % (d['tie'], nops + j))
    live = {i: (o['io'] == '+' or i in tied) for i, o in enumerate(ops)}
    readable = [nops + j for j, d in enumerate(ins) if 'tie' not in d]
    val = lambda i: 'r%d' % i if i < nops else 'a%d' % i
    for step in range(rnd.randint(nops, nops + 4)):
        dst = step if step < nops else rnd.randrange(nops)
        cand = [i for i in readable + [q for q in live if live[q]] if not (mem(i) and mem(dst)) and i != dst]
        if not live[dst]:
            cand2 = cand
            if cand2:
                s = rnd.choice(cand2); asm.append('mov%s %s, %s' % (SUF[n], op(s), op(dst))); ref.append('r%d = %s;' % (dst, val(s)))
            else:
                asm.append('mov%s $9, %s' % (SUF[n], op(dst))); ref.append('r%d = 9;' % dst)
            live[dst] = True
            continue
        if cand and rnd.random() < .8:
            s = rnd.choice(cand); k2, cop = rnd.choice([('add', '+'), ('sub', '-'), ('xor', '^'), ('and', '&'), ('or', '|')])
            asm.append('%s%s %s, %s' % (k2, SUF[n], op(s), op(dst))); ref.append('r%d = r%d %s %s;' % (dst, dst, cop, val(s)))
        else:
            u, cu = rnd.choice([('not', '~'), ('neg', '-')])
            asm.append('%s%s %s' % (u, SUF[n], op(dst))); ref.append('r%d = %sr%d;' % (dst, cu, dst))
    # flags and jumps come last
    fl, lab = [], None
    regs = [i for i in list(range(nops)) if not mem(i)]
    oth = [i for i in readable if not mem(i)] or regs
    if regs and rnd.random() < .5:
        a, b = rnd.choice(regs), rnd.choice(regs + readable)
        asm.append('cmp%s %s, %s' % (SUF[n], op(b), op(a)))
        for q in range(rnd.randint(1, 2)):
            cc = rnd.choice(list(FL)); fty = rnd.choice(['char', 'int', '_Bool', 'short', 'long'])
            form = rnd.choice(['loc', 'ptr', 'glob', 'bit'])
            nm = 'f%d' % q
            if form == 'loc': pre.append('%s %s;' % (fty, nm)); lv = nm
            elif form == 'bit': pre.append('struct { unsigned a : 3, b : 2; } %s = {6, 2};' % nm); lv = nm + '.b'; post.append('o[8] += %s.a;' % nm)
            elif form == 'ptr': pre.append('%s %s_, *%s = &%s_;' % (fty, nm, nm, nm)); lv = '*' + nm
            else: decl.append('static %s h%d;' % (fty, q)); lv = 'h%d' % q
            fl.append((cc, lv, FL[cc].format(val(a), val(b))))
        if rnd.random() < .5:
            cc = rnd.choice(['e', 'l', 'a', 'be']); lab = (cc, FL[cc].format(val(a), val(b)))
    outs = [(('=@cc' + cc), lv) for cc, lv, _ in fl]
    # operand numbers in the body count outputs first: flags are appended after the other outputs
    shift = len(outs)
    if shift:
        import re
        def renum(m):
            i = int(m.group(2)); return m.group(1) + str(i + shift if i >= nops else i)
        asm = [re.sub(r'(?<!%)(%[bwkq]?)(\d+)', renum, s) for s in asm]
    ostr = ', '.join(['"%s%s%s"(%s)' % (o['io'], '&' if o['early'] and o['io'] == '=' else '', o['c'], o['lv']) for o in ops] + ['"%s"(%s)' % q for q in outs])
    istr = ', '.join('"%s"(%s)' % (d['c'], d['e']) for d in ins)
    body = '; '.join(asm)
    cl = ', '.join('"%s"' % c for c in clob + rnd.choice([[], ['cc'], ['memory', 'cc']]))
    if lab:
        jcc = {'e': 'je', 'l': 'jl', 'a': 'ja', 'be': 'jbe'}[lab[0]]
        st = '__asm__ goto("%s; %s %%l[tk]" : %s : %s : %s : tk); o[7] = 1; tk:;' % (body, jcc, ostr, istr, cl)
    else: st = '__asm__ %s("%s" : %s : %s : %s);' % (rnd.choice(['', 'volatile ']), body, ostr, istr, cl)
    st = st.replace(' : );', ');')
    tail = ' '.join('o[%d] = %s;' % (i, o['lv']) for i, o in enumerate(ops)) + ' ' + ' '.join('o[%d] = %s;' % (nops + i, lv) for i, (_, lv, _) in enumerate(fl)) + ' ' + ' '.join(post)
    keep = 'long k0 = v + 1, k1 = w ^ x; int k2 = y - 1;'
    keep2 = 'o[6] = k0 ^ k1 ^ k2;'
    rr = 'typedef %s U; typedef %s S; ' % (uct, sct)
    refst = '{ ' + rr + ' '.join(ref) + ' ' + ' '.join('%s = (%s)r%d;' % (o['lv'], o['ty'], i) for i, o in enumerate(ops)) + ' ' + ' '.join('%s = %s;' % (lv, e) for _, lv, e in fl) + (' if (!(%s)) o[7] = 1;' % lab[1] if lab else '') + ' }'
    fr = rnd.choice(list(FRAME.values()))
    a, b = fr
    if lab and 'vl[' in a: a, b = FRAME['align']
    D = ' '.join(decl) + '\n'
    src = HEAD + D + 'void test(void) { %s%s %s %s %s %s%s }\n' % (a, keep, ' '.join(pre), st, tail, keep2, b)
    rsrc = HEAD + D + 'void test(void) { %s%s %s %s %s %s%s }\n' % (a, keep, ' '.join(pre), refst, tail, keep2, b)
    return src, rsrc


def run(ck, thorough):
    rnd = random.Random(core.SEED + 25)
    b = core.Build()
    tests = []
    for h in H:
        name, body, ref = h[:3]
        decl = h[3] if len(h) > 3 else ''
        frames = list(FRAME) if thorough else ['plain', rnd.choice(list(FRAME)[1:])]
        if 'goto' in name or 'bp' in name:
            if 'vla' in frames: frames.remove('vla')
            frames = [f for f in frames if f != 'alignvla'] + (['align'] if 'align' not in frames else [])
        for fr in frames:
            s, e = FRAME[fr]
            if 'return;' in body: e = ''
            for fl in ([()] if not thorough else [(), ('-O0',), ('-fPIC',)]):
                tests.append(T('%s_%s%s' % (name, fr, ''.join(fl)), HEAD + decl + 'void test(void) { ' + s + body + e + ' }\n', IN, OUT, ref=HEAD + decl + 'void test(void) { ' + s + '{ ' + ref + ' }' + e + ' }\n', traps=False, flags=fl, timeout=60))
    n = 160 if not thorough else 500
    for k in range(n):
        src, ref = gen(rnd, k)
        tests.append(T('gen%d' % k, src, IN, OUT, ref=ref, traps=False, timeout=60))
    ck.bounds = ['%d hand-written statement groups in %d frames (plain, over-aligned, VLA, large), %d generated asm statements of up to 3 outputs, 6 inputs, 2 flag outputs, 6 clobbers and a jump: all values of two int and two long inputs' % (len(H), len(FRAME), n)]
    ck.assume = ['reference: the meaning of the asm body spelled out in C', 'operands in an unsupported constraint letter are rejected by the compiler and not claimed']
    equiv.run_all(ck, b, tests, each=80 if not thorough else 240, total=600 if not thorough else 3000)
