"""types of expressions and declarations, observed through _Generic"""
import random
import core, orc
from orc import P
LEVEL = 'other'

TYPES = 'enum EU { EU1 = 1, EU2 }; enum EN { EN1 = -1, EN2 }; enum ES : short { ES1 }; enum EC : unsigned char { EC1 }; enum EL { EL1 = 0x100000000 }; enum EI : int { EI1 }; enum EQ : unsigned { EQ1 }; struct S { int m; long l; };\n'
DECL = dict((d.split(':')[0], d.split(':')[1]) for d in 'a:_Bool a;b:char b;c:signed char c;d:unsigned char d;e:short e;f:unsigned short f;g:int g;h:unsigned h;i:long i;j:unsigned long j;k:long long k;l:unsigned long long l;m:float m;n:double n;o:long double o;p:enum EU p;q:enum EN q;W:enum ES W;s:enum EC s;t:enum EL t;u:const volatile int u;v:_Atomic short v;w:volatile int w;x:const long x;y:const unsigned char y;z:volatile float z;A:int *A;B:const int *B;C:void *C;D:const void *D;E:char *E;F:int (*F)[3];G:int (*G)(int);H:int **H;I:struct S I;J:struct S *J;K:int K[3];L:int L(int);M:int *const M;N:int N[2][3];O:const int O;X:enum EI X;Q:enum EQ Q;R:const struct S R'.split(';'))


def pre(sets, extra='g'):
    """declarations of the operands that can occur"""
    used = set(''.join(s if isinstance(s, str) else s.decode() for s in sets)) | set(extra)
    d = ' '.join('extern %s;' % v for k, v in DECL.items() if k in used)
    t = ''.join(x + ';' for x in TYPES.strip().split(';') if x and (x.strip().split('{')[0].split(':')[0].strip() + ' ' in d or 'struct' in x and 'struct S' in d or x.strip().startswith('long l')))
    t = TYPES if 'struct' in d else ' '.join(x + ';' for x in TYPES.strip().split('; struct')[0].split(';') if x.split('{')[0].split(':')[0].strip() + ' ' in d)
    return t + d + '\n'


ASSOC = ', '.join('%s: %d' % (t, i + 1) for i, t in enumerate(['_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double',
                                                              'int *', 'const int *', 'void *', 'const void *', 'char *', 'int (*)[3]', 'int (*)(int)', 'int **', 'struct S', 'struct S *']))
# the same for pointers to the type in question, qualifiers included
PASSOC = ', '.join('%s: %d' % (t, k) for t, k in [(x + ' *', i + 1) for i, x in enumerate(['_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double',
                                                              'int *', 'const int *', 'void *', 'const void *', 'char *'])] + [('int (**)[3]', 21), ('int (**)(int)', 22), ('int ***', 23), ('struct S **', 25), ('const int *', 41), ('const struct S *', 42), ('struct S *', 43), ('_Atomic short *', 44), ('volatile int *', 45), ('int *const *', 46), ('const volatile int *', 47)])
CASSOC = ', '.join('%s *: %d, const %s *: %d' % (t, i + 1, t, i + 51) for i, t in enumerate(['_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double']))
AR0 = 'abcdefghijklmnopqstuvwQWX'
PT = 'ABCDEFGHJKLMN'
SPEC = {'A': 'unsigned', 'B': 'signed', 'C': 'char', 'D': 'short', 'E': 'int', 'F': 'long', 'G': 'float', 'H': 'double', 'I': '_Bool', 'J': 'const', 'K': '', 'L': 'volatile', 'M': 'static'}


def tests_(rnd, thorough):
    ts = []
    def add(name, mode, before, alpha, after, **kw):
        isar = not set(''.join(alpha)) & set(PT + 'IOR')
        ts.append(P(name, pre(alpha) + 'int r = _Generic((' + before, alpha, after + '), ' + (ASSOC.split(', int *')[0] if isar else ASSOC) + ');\n', mode, timeout=kw.pop('timeout', 60 if not thorough else 250), maxpaths=100000, flags=rnd.choice([[], ['-std=c23'], ['-O0']]), **kw))
    pool = AR0
    half = lambda s: [s[:len(s) // 2], s[len(s) // 2:]]
    for op in '+-*/%&|^<>,' if thorough else ['+*', '-%', '/&', '|<', '^>', ',+']:
        for k, hx in enumerate(half(pool)):
            if not thorough: hx = ''.join(rnd.sample(pool, 6))
            ys = pool if thorough else ''.join(rnd.sample(pool, 7))
            add('bin_%s_%d' % (''.join('%02x' % ord(c) for c in op), k), 1, '', [hx, op, ys], '')
    for op in ('<<', '>>', '==', '!=', '&&', '||', '<=', '>='):
        add('bin2_' + ''.join('%02x' % ord(c) for c in op), 1 if op[1] != '=' or op[0] in '=!' else 8, '', [''.join(rnd.sample(pool, 6 if not thorough else 22)), op[0], op[1], ''.join(rnd.sample(pool, 6 if not thorough else 22))], '') if not (op[1] == '=' and op[0] in '<>') else None
    for k in range(3 if not thorough else 1): add('cond_%d' % k, 2, 'g ? ', [''.join(rnd.sample(pool, 6)) if not thorough else pool, ':', ''.join(rnd.sample(pool, 7)) if not thorough else pool], '')
    add('condp', 2, 'g ? ', ['ABCDEFGHJKM', ':', 'ABCDEFGHJKM'], ''); add('condpar', 2, 'g ? ', ['IKLNR', ':', 'IKLNRA'], '')
    for op in '+-~!(*&':
        add('un_%02x' % ord(op), 3, '' if op != '(' else '', [op, pool + (PT + 'O' if op in '!(*&' else '')] if op != '(' else ['(', pool + PT + 'O'], '' if op != '(' else ')')
    # casts, sizeof, shifts and comparisons of parenthesized operands
    add('rv', 1, '(', [pool[::3], '+', pool[1::3]], ')')
    for k in range(2): add('tern_%d' % k, 9, '', [''.join(rnd.sample(pool, 3)), '*-', ''.join(rnd.sample(pool, 3)), '+*', ''.join(rnd.sample(pool, 3))], '', timeout=80)
    for k in range(2): add('cadd_%d' % k, 10, 'g ? ', [''.join(rnd.sample(pool, 4)), ':', ''.join(rnd.sample(pool, 4)), '+*', ''.join(rnd.sample(pool, 4))], '')
    for k, op in enumerate(('+', '-', '*', '&', '/', '^', '|', '%')): add('asg_%d' % k, 4, '', [''.join(rnd.sample(pool.replace('u', ''), 7)), op, '=', ''.join(rnd.sample(pool, 4))], '')
    add('asg_l', 4, '', [pool.replace('u', ''), '=', pool], '') if thorough else add('asg_l', 4, '', [''.join(rnd.sample(pool.replace('u', ''), 10)), '=', ''.join(rnd.sample(pool, 4))], '')
    add('ptradd', 1, '', [PT, '+-', 'abgijpqs'], ''); add('ptradd2', 1, '', ['abgijpqst', '+', PT], ''); add('ptrsub', 1, '', ['ABEFGHJKMN', '-e'[0], 'ABEFGHJKMN'], ''); add('ptrlog', 1, '', ['ACGIKLg', '&', '&', 'BDJINg'], ''); add('ptrcom', 1, '', ['ag', ',', PT + 'O' + AR0[:6]], '')
    add('ptrbad', 1, '', ['I', '+-*/%&|^', 'gnI'], ''); add('fltbad', 1, '', ['mnog', '%&|^', 'mnog'], ''); add('fltsh', 1, '', ['mnog', '<', '<', 'mnog'], '')
    add('index', 12, '', ['ABEFHJKN' + 'gn', '[', 'abgijpsK'], ']', trail=0)
    # the operand itself, lvalue conversion
    add('gen', 11, '', [AR0 + PT + 'Oxyz'], '')
    for n, before, after, mode, sets in (('typeof', '(__typeof__(', ') *)0', 5, AR0 + 'ABCDEFGHIJMOR'), ('typeof_unqual', '(typeof_unqual(', ') *)0', 6, AR0 + 'ABCDEFGHIJMOR')):
        ts.append(P(n, pre([sets]) + 'int r = _Generic(' + before, [sets], after + ', ' + PASSOC + ');\n', mode, flags=['-std=c23'], timeout=60))
    ts.append(P('addrq', pre([AR0 + 'ABCDEFGHIJMOR']) + 'int r = _Generic(&', [AR0 + 'ABCDEFGHIJMOR'], ', ' + PASSOC + ');\n', 5, timeout=60))
    # bit-field operands promote to int or unsigned
    bf = 'struct { int a : 3; unsigned b : 3, c : 31, d : 32; int e : 32; _Bool f : 1; short g : 9; unsigned short h : 16; unsigned char i : 8; char j : 2; long k; } zz;\n'
    for op in ('+', '&', '<<'):
        ts.append(P('bf_' + op.replace('<', 'l'), bf + '#define BF(x) zz.x\nint r = _Generic(BF(', ['abcdefghij'], ') %s 1, ' % op + ASSOC + ');\n', 13, timeout=60))
    ts.append(P('bfneg', bf + '#define BF(x) zz.x\nint r = _Generic(-BF(', ['abcdefghij'], '), ' + ASSOC + ');\n', 13, timeout=60))
    ts.append(P('bf2', bf + '#define BF(x) zz.x\n#define B2(x) BF(x)\nint r = _Generic(1 ? 1 : BF(', ['abcdefghij'], '), ' + ASSOC + ');\n', 13, timeout=60))
    # declaration specifiers in any order
    defs = ''.join('#define %s %s\n' % (k, v) for k, v in SPEC.items())
    for nm, sets in (('spec3', ['ABCDEFGHIJ', ' ', 'ABCDEFGHIJK', ' ', 'ABCDEFGHIJK']), ('spec4', ['ABDEFJ', ' ', 'ABEFH', ' ', 'AEFK', ' ', 'EFK']), ('spec5', ['FA', ' ', 'FEJ', ' ', 'FEA', ' ', 'JAFE', ' ', 'KEFA']), ('specm', ['M', ' ', 'LJ', ' ', 'ACFI', ' ', 'EFHJL'])):
        for part in (sets[0] if nm == 'spec3' else [sets[0]]):
            ts.append(P(nm + ('_' + part if nm == 'spec3' else ''), defs, [part] + sets[1:], ' vv; int r = _Generic(&vv, ' + (CASSOC if nm != 'specm' else CASSOC.replace('const ', 'const volatile ').replace(' *: ', ' *: ')) + (', default: 99' if nm == 'specm' else '') + ');\n', 7 if nm != 'specm' else 0, timeout=60) if nm != 'specm' else None)
    ts.append(P('specfn', defs, ['ABEFK', ' ', 'CDEFIH', ' ', 'ABEFK'], ' vf(void); int r = _Generic(vf(), ' + ASSOC.split(', int *')[0] + ');\n', 14, timeout=60))
    ts.append(P('specty', defs, ['ABEFK', ' ', 'CDEFIH', ' ', 'ABEFJK'], ' typedef tt; int r = _Generic((tt *)0, ' + CASSOC + ');\n', 7, timeout=60))
    ts.append(P('speccast', defs + 'int r = _Generic((', ['ABEFK', ' ', 'CDEFIGH', ' ', 'ABEFK'], ')1, ' + ASSOC.split(', int *')[0] + ');\n', 14, timeout=60))
    ts.append(P('specsz', defs + 'int r = _Generic((__typeof__(', ['ABEFK', ' ', 'CDEFIGH', ' ', 'ABEFJK'], ') *)0, ' + CASSOC + ');\n', 7, timeout=60))
    ts.append(P('specmem', defs + 'struct { ', ['ABEFK', ' ', 'CDEFIGH', ' ', 'ABEFJK'], ' m; } st; int r = _Generic(&st.m, ' + CASSOC + ');\n', 7, timeout=60))
    # auto from constant expressions
    for k in range(2):
        cd = ''.join('#define %s ((%s)1)\n' % (k2, v) for k2, v in zip('abcdefghijklmno', ['_Bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double']))
        ts.append(P('auto_%d' % k, cd + ['__auto_type', 'auto'][k] + ' V = ', [''.join(rnd.sample('abcdefghijklmno', 9)), '+-<,'[k * 2:k * 2 + 1], ''.join(rnd.sample('abcdefghijklmno', 9))] if k == 0 else ['abcdefghijklmno'[:12], '&', 'abcdefghijkl'], '; int r = _Generic(&V, ' + PASSOC.split(', int * *')[0] + ');\n', 8, flags=['-std=c23'], timeout=60))
    return [t for t in ts if t]


def run(ck, thorough):
    rnd = random.Random(core.SEED + 29)
    b = core.Build()
    ts = tests_(rnd, thorough)
    ck.bounds = ['operands: 23 arithmetic objects (all integer, floating and enumeration types, qualified and atomic), 14 pointers, arrays, functions and structures, bit-fields of 10 kinds; operators, operands and declaration specifiers are symbolic bytes: one or two binary operators, ?:, unary, compound assignment, subscripts, typeof, auto, &, and every order of up to 3-5 specifiers']
    ck.assume = ['the type is observed through _Generic', 'oracle: integer promotion, usual arithmetic conversions and the other rules of C23 6.3.1 and 6.5 written in oracle/c29.c', 'arithmetic on void and function pointers, pointers to incompatible types, wide bit-fields: nothing is claimed']
    orc.run_all(ck, b, 'c29', ts, each=120 if not thorough else 300, total=600 if not thorough else 3000)
