// The type of an expression over one-letter operands, by the rules of C23 6.3.1, 6.5 and 6.7.2
#include "main.h"
enum { BOOL = 1, CHAR, SCHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG, FLT, DBL, LDBL,
       PINT, PCINT, PVOID, PCVOID, PCHAR, PARR, PFN, PPINT, SU, PSU, ARR, FN, CINT, CSU };
// letters: see PRE in checks/c29.py
static int type_of(int c) {
  static const unsigned char t[256] = { ['a'] = BOOL, ['b'] = CHAR, ['c'] = SCHAR, ['d'] = UCHAR, ['e'] = SHORT, ['f'] = USHORT, ['g'] = INT, ['h'] = UINT, ['i'] = LONG, ['j'] = ULONG, ['k'] = LLONG, ['l'] = ULLONG,
    ['m'] = FLT, ['n'] = DBL, ['o'] = LDBL, ['p'] = UINT, ['q'] = INT, ['W'] = SHORT, ['X'] = INT, ['s'] = UCHAR, ['t'] = ULONG, ['u'] = INT, ['v'] = SHORT, ['w'] = INT, ['x'] = LONG, ['y'] = UCHAR, ['z'] = FLT,
    ['A'] = PINT, ['B'] = PCINT, ['C'] = PVOID, ['D'] = PCVOID, ['E'] = PCHAR, ['F'] = PARR, ['G'] = PFN, ['H'] = PPINT, ['I'] = SU, ['J'] = PSU, ['K'] = ARR, ['L'] = FN, ['M'] = PINT, ['N'] = ARR + 100,
    ['O'] = CINT, ['P'] = CINT, ['Q'] = UINT, ['R'] = CSU };
  return t[c];
}
static int arith(int t) { return t && t <= LDBL; }
static int integer(int t) { return t && t <= ULLONG; }
static int ptr(int t) { return t >= PINT && t <= PPINT || t == PSU; }
// the value of an lvalue of this type
static int decay(int t) { return t == ARR || t == CSU ? (t == ARR ? PINT : SU) : t == ARR + 100 ? PARR : t == FN ? PFN : t == CINT ? INT : t; }
static int promote(int t) { return t >= BOOL && t <= USHORT ? INT : t; }
static int usual(int a, int b) {
  if (a == LDBL || b == LDBL) return LDBL;
  if (a == DBL || b == DBL) return DBL;
  if (a == FLT || b == FLT) return FLT;
  a = promote(a); b = promote(b);
  if (a == b) return a;
  int ra = (a - INT) / 2, rb = (b - INT) / 2, ua = (a - INT) & 1, ub = (b - INT) & 1;      // rank, unsignedness
  if (ua == ub) return ra > rb ? a : b;
  int u = ua ? a : b, s = ua ? b : a, ru = ua ? ra : rb, rs = ua ? rb : ra;
  if (ru >= rs) return u;
  if (rs > 0 && ru == 0) return s;          // long can hold every unsigned int
  return s + 1;                              // unsigned version of the signed type
}
static int pointee(int t) { switch (t) { case PINT: return INT; case PCINT: return CINT; case PCHAR: return CHAR; case PARR: return ARR; case PFN: return FN; case PPINT: return PINT; case PSU: return SU; } return 0; }
static int addr(int t) { switch (t) { case INT: return PINT; case CINT: return PCINT; case CHAR: return PCHAR; case ARR: return PARR; case FN: return PFN; case PINT: return PPINT; case SU: return PSU; } return 0; }
// + - * / % & | ^ < > = , L (<<) R (>>) e (==) a (&&) o (||)
static int binary(int op, int x, int y) {
  int a = decay(x), b = decay(y);
  if (op == ',') return b;
  if (op == '=') return -1;
  if (op == 'a' || op == 'o') return a == SU || b == SU ? 0 : INT;
  if (arith(a) && arith(b)) {
    if (op == '<' || op == '>' || op == 'e') return INT;
    if (op == 'L' || op == 'R') return integer(a) && integer(b) ? promote(a) : 0;
    if (op == '%' || op == '&' || op == '|' || op == '^') return integer(a) && integer(b) ? usual(a, b) : 0;
    return usual(a, b);
  }
  if (op == '+' && ptr(a) && integer(b)) return a == PVOID || a == PCVOID || a == PFN ? -1 : a;
  if (op == '+' && integer(a) && ptr(b)) return b == PVOID || b == PCVOID || b == PFN ? -1 : b;
  if (op == '-' && ptr(a) && integer(b)) return a == PVOID || a == PCVOID || a == PFN ? -1 : a;
  if (op == '-' && ptr(a) && ptr(b)) return a == b && a != PVOID && a != PCVOID && a != PFN || a == PINT && b == PCINT || a == PCINT && b == PINT ? LONG : -1;
  if ((op == 'e' || op == '<' || op == '>') && ptr(a) && ptr(b)) return a == b ? INT : -1;
  return ptr(a) || ptr(b) ? -1 : 0;         // -1: nothing claimed
}
static int cond(int x, int y) {
  int a = decay(x), b = decay(y);
  if (arith(a) && arith(b)) return usual(a, b);
  if (a == b) return a;
  if (ptr(a) && ptr(b)) {
    if (a == PFN || b == PFN) return -1;
    int ca = a == PCINT || a == PCVOID, cb = b == PCINT || b == PCVOID;
    if (a == PVOID || a == PCVOID || b == PVOID || b == PCVOID) return ca || cb ? PCVOID : PVOID;
    if ((a == PINT || a == PCINT) && (b == PINT || b == PCINT)) return PCINT;
    return -1;
  }
  return -1;
}
static int unary(int op, int xc) {
  int x = type_of(xc);
  int a = decay(x);
  switch (op) {
  case '+': case '-': return arith(a) ? promote(a) : 0;
  case '~': return integer(a) ? promote(a) : 0;
  case '!': return a == SU ? 0 : INT;
  case '&': { int r = strchr("uvwxyzM", xc) ? -1 : x == ARR + 100 ? -1 : x == CSU ? -1 : addr(x); return r ? r : -1; }
  case '*': return ptr(a) ? (a == PVOID || a == PCVOID ? -1 : decay(pointee(a))) : 0;
  case 'p': case 'm': case 'P': case 'Q': return x == CINT || x == CSU || x == ARR || x == ARR + 100 || x == FN || a == SU ? -1 : a;   // ++x, --x, x++, x--
  case 's': return ULONG;
  case '(': return a;
  }
  return -1;
}
static void code(int r) {
  if (r <= 0) { fprintf(ref, "skip\n"); return; }
  fprintf(ref, "S r 4 %d\n", r);
}
static int opname(unsigned char *p, int n) {      // operator text of n characters
  if (n == 1) return p[0];
  if (p[0] == '<') return p[1] == '<' ? 'L' : 'c'; if (p[0] == '>') return p[1] == '>' ? 'R' : 'c';
  if (p[0] == '=') return 'e'; if (p[0] == '!') return 'e'; if (p[0] == '&') return 'a'; if (p[0] == '|') return 'o';
  return 0;
}
// declaration specifiers: A unsigned B signed C char D short E int F long G float H double I _Bool J const K nothing L volatile M static
static int specifiers(unsigned char *p, int n, int *q) {
  int c[256]; memset(c, 0, sizeof c);
  for (int i = 0; i < n; i++) if (p[i] != ' ') c[p[i]]++;
  int u = c['A'], s = c['B'], ch = c['C'], sh = c['D'], in = c['E'], lo = c['F'], fl = c['G'], db = c['H'], bo = c['I'];
  *q = c['J'] > 0;
  int total = u + s + ch + sh + in + lo + fl + db + bo;
  if (!total) return -1;                          // implicit int: nothing claimed
  if (u > 1 || s > 1) return -1;                  // nothing claimed
  if ( u && s || ch > 1 || sh > 1 || in > 1 || lo > 2 || fl > 1 || db > 1 || bo > 1) return 0;
  if (bo) return total == 1 ? BOOL : 0;
  if (fl) return total == 1 ? FLT : 0;
  if (db) return total == 1 ? DBL : total == 2 && lo == 1 ? LDBL : 0;
  if (ch) return total - u - s != 1 ? 0 : u ? UCHAR : s ? SCHAR : CHAR;
  if (sh) return lo ? 0 : u ? USHORT : SHORT;
  if (lo == 1) return u ? ULONG : LONG;
  if (lo == 2) return u ? ULLONG : LLONG;
  return u ? UINT : INT;
}
static void oracle(int mode, unsigned char *p, int n) {
  int t, q;
  switch (mode) {
  case 1: t = binary(opname(p + 1, n - 2), type_of(p[0]), type_of(p[n - 1])); code(t); return;      // X op Y
  case 2: code(cond(type_of(p[0]), type_of(p[2]))); return;                                       // X:Y
  case 3: code(unary(p[0], p[n - 1])); return;                                           // op X
  case 4: t = type_of(p[0]); code(t == CINT || t == CSU || t == ARR || t == ARR + 100 || t == FN || decay(t) == SU || ptr(decay(t)) || !arith(decay(type_of(p[n - 1]))) || n == 4 && !(integer(decay(t)) && integer(decay(type_of(p[3])))) || n == 3 && strchr("%&|^", p[1]) && !(integer(decay(t)) && integer(decay(type_of(p[n - 1])))) ? -1 : decay(t)); return;   // X op= Y
  case 5: t = type_of(p[0]); t = t == CINT ? 41 : t == CSU ? 42 : t == SU ? 43 : t >= ARR ? -1 : t; code(p[0] == 'v' ? 44 : p[0] == 'w' ? 45 : p[0] == 'M' ? 46 : p[0] == 'u' ? 47 : t); return;      // typeof(X), qualifiers kept
  case 6: t = type_of(p[0]); code(t == CINT ? INT : t == CSU || t == SU ? 43 : t >= ARR ? -1 : t); return;                   // typeof_unqual(X)
  case 7: t = specifiers(p, n, &q); if (t > 0 && q) t += 50; if (t > 0 || t < 0) code(t); else fprintf(ref, "reject\n"); return;
  case 14: t = specifiers(p, n, &q); if (t > 0 || t < 0) code(t); else fprintf(ref, "reject\n"); return;
  case 8: t = binary(opname(p + 1, n - 2), type_of(p[0]), type_of(p[n - 1])); code(t > 0 && t <= LDBL ? t : -1); return;   // operators on rvalues
  case 9: {   // X op Y op Z, both binary operators of one character: * / % bind tighter than + -
    int a = type_of(p[0]), b = type_of(p[2]), c = type_of(p[4]);
    int hi1 = !!strchr("*/%", p[1]), hi2 = !!strchr("*/%", p[3]);
    if (!arith(decay(a)) || !arith(decay(b)) || !arith(decay(c))) { code(-1); return; }
    if (!hi1 && hi2) { t = binary(p[3], b, c); code(t ? binary(p[1], a, t) : 0); }
    else { t = binary(p[1], a, b); code(t ? binary(p[3], t, c) : 0); }
    return; }
  case 10: { // cond ? X : Y + Z inside
    t = type_of(p[2]); int u = type_of(p[4]);
    if (!arith(decay(type_of(p[0]))) || !arith(decay(t)) || !arith(decay(u))) { code(-1); return; }
    t = binary(p[3], t, u); code(t ? cond(type_of(p[0]), t) : 0); return; }
  case 11: { int a = decay(type_of(p[0])); code(a == SU || p[0] == 'x' || p[0] == 'y' || p[0] == 'z' ? -1 : a); return; }   // _Generic selects by the value's type; generic on X itself
  case 13: { static const unsigned char bf[] = { INT, INT, INT, UINT, INT, INT, INT, INT, INT, INT }; code(bf[p[0] - 'a']); return; }    // bit-fields
  case 12: { int i = p[0], j = p[n - 1]; int a = decay(type_of(i)), b = decay(type_of(j)); if (ptr(a) && integer(b)) t = pointee(a); else if (ptr(b) && integer(a)) t = pointee(b); else { code(0); return; } code(t ? decay(t) == ARR ? -1 : decay(t) : -1); return; }   // X[Y]
  }
}
