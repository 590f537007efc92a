"""no input crashes the compiler"""
import random
import core, orc
from orc import P
LEVEL = 'other'

ANY = bytes(range(256))
TXT = bytes(range(1, 256))
PU = '(){}[];,:?*&+-=<>.#"\'\\/!~%^|@ \n'
TK = PU + 'aL01_'
# contexts: text before and after the symbolic bytes
CTX = [
    ('empty', '', ''), ('line', 'int a;\n', ''), ('lineend', '', '\nint z;\n'), ('hash', '#', ''), ('hashl', '#', '\n'), ('hash2', 'int a;\n#', ' x\n#endif\n'), ('cmt', '/', ''), ('cmt1', '//', ''), ('cmt2', '/*', ''), ('cmt3', '/*', '*/'),
    ('str', 'char*s="', ''), ('str2', 'char*s="', '";'), ('chr', "int c='", ''), ('chr2', "int c='", "';"), ('strp', 'char*s=', '"a";'), ('bs', 'int a\\', ''), ('num', 'int a=1', ''), ('num0', 'int a=0', ';'), ('num1', 'double a=1.', ';'), ('numx', 'int a=0x', ';'),
    ('def', '#define ', '\n'), ('def1', '#define M', '\nM\n'), ('def2', '#define M(', '\nM(1)\n'), ('def3', '#define M(a', ') a\nM(1)\n'), ('def4', '#define M(a,b) a', 'b\nint x=M(1,2);\n'), ('def5', '#define M(...) #', '\nM(1,2)\n'), ('def6', '#define M(a...) a ', '\nM(1,2)\n'),
    ('vaopt', '#define M(a,...) a __VA_OPT__', '\nM(1,2)\n'), ('vaopt2', '#define M(a,...) a __VA_OPT__(', ')\nM(1,2)\nM(1)\n'), ('vaopt3', '#define M(a,...) a##__VA_OPT__(', ')##a\nM(1,2) M(,)\n'), ('call', '#define M(a,b) a b\nM(', ')\n'), ('call2', '#define M(a,b) a##b\nM(', ')\n'), ('call3', '#define M(a,b) #a #b\nM(', ''), ('call4', '#define M() x\n#define N M\nN', '()\n'), ('paste', '#define C(a,b) a##b\nint x = C(', ',2);\n'), ('hashhash', '#define X #', '#\nX\n'),
    ('if', '#if ', '\n#endif\n'), ('if1', '#if 1', '\n#else\n#endif\n'), ('if2', '#if (1', ')\n#endif\n'), ('if3', '#if 0\n', '\n#endif\n'), ('if4', '#if 0\n#', '\n#endif\n'), ('if5', '#if 0\n#el', '\n#endif\n'), ('if6', '#ifdef ', '\n#endif\n'), ('if7', '#if defined', '\n#endif\n'), ('if8', '#if 1/', '\n#endif\n'), ('if9', '#if 1?2', '3\n#endif\n'), ('ifa', '#if __has_include', '\n#endif\n'), ('ifb', '#if __has_include(', ')\n#endif\n'), ('ifc', '#if __has_attribute(', ')\n#endif\n'), ('ifd', '#if', ''), ('else', '#if 1\n#else', '\n#endif\n'),
    ('inc', '#include ', '\n'), ('inc1', '#include "', '"\n'), ('inc2', '#include <', '>\n'), ('incn', '#include_next ', '\n'), ('embed', '#embed ', '\n'), ('embed2', 'int a[]={\n#embed "/e" ', '\n};\n'), ('lined', '#line ', '\n'), ('line2', '#line 1 ', '\n__LINE__\n'), ('linem', '# 1 "', '\n'), ('linem2', '# 1 "a" ', '\n'), ('pragma', '#pragma ', '\n'), ('pragma2', '#pragma pack(', ')\n'), ('_pragma', '_Pragma', ';\n'), ('_pragma2', '_Pragma("', '")\n'), ('undef', '#undef ', '\n'), ('error', '#error ', '\n'), ('builtinm', '__LINE__', '\n'), ('counter', '#undef __COUNTER__\n__COUNTER__', '\n'), ('incmac', '#define I ', '\n#include I\n'),
    ('decl', 'int ', ';'), ('decl1', 'int a', ';'), ('decl2', 'int a[', '];'), ('decl3', 'int a(', ');'), ('decl4', 'int (*', ')(int);'), ('init', 'int a[]={', '};'), ('init1', 'int a[3]={[', ']=1};'), ('init2', 'struct{int x,y;}a={.x', '};'), ('init3', 'int a={', ';'), ('init4', 'char s[2]={"', '"};'), ('init5', 'int *p=&', ';'), ('init6', 'struct{int:3;int x:', ';}a={1};'), ('typed', 'typedef ', ';'), ('struct', 'struct S{int ', ';};'), ('struct2', 'struct S ', ' x;'), ('union', 'union{int a;', '}u={1};'), ('enum', 'enum E{A', '};'), ('enum2', 'enum E:', '{A};'), ('bf', 'struct{int a:', ';}x;'), ('attr', '__attribute__((', ')) int a;'), ('attr2', 'int a __attribute__((aligned', '));'), ('attr3', '[[', ']] int a;'), ('attr4', 'int f(void) __attribute__', ';'), ('alignas', '_Alignas(', ') int a;'), ('sassert', '_Static_assert(', ');'), ('typeof', 'typeof(', ') a;'), ('generic', 'int a=_Generic(1,', ');'), ('generic2', 'int a=_Generic(', ',int:1);'), ('sizeof', 'int a=sizeof', ';'), ('offsetof', 'struct S{int a[2];};int x=__builtin_offsetof(struct S,', ');'), ('asm', 'asm(', ');'), ('fn', 'int f', '{}'), ('fn1', 'int f(', '){}'), ('kr', 'int f(a)', 'a;{return a;}'), ('param', 'void f(int a[', ']){}'), ('fnend', 'int main(){', ''), ('global', 'int a; ', '\nint b;'), ('atomic', '_Atomic(', ') a;'), ('complit', 'int *p=(int[', ']){1};'), ('constexpr', 'constexpr int a=', ';'), ('vmla', 'int n;int f(){int a[n]', ';}'),
]
STM = [
    ('expr', '', ';'), ('expr1', 'a', ';'), ('expr2', 'a=b', ';'), ('expr3', 'a=(', ');'), ('expr4', 'a=p', ';'), ('expr5', 's.', ';'), ('expr6', 'q->', ';'), ('idx', 'p[', '];'), ('call', 'f(', ');'), ('cast', 'a=(', ')b;'), ('cond', 'a=b?', ';'), ('cond2', 'a?b', 'c;'), ('if', 'if(', ')a;'), ('if1', 'if(a)', ''), ('else', 'if(a);else', ';'), ('for', 'for(', ')a;'), ('for2', 'for(;', ';)a;'), ('while', 'while', 'a;'), ('do', 'do', 'while(a);'), ('switch', 'switch(a){', '}'), ('case', 'switch(a){case ', ':;}'), ('case2', 'switch(a){case 1', ':;default:;}'), ('lbl', 'L', ';'), ('goto', 'goto ', ';L:;'), ('ret', 'return', ';'), ('cl', 'a=(int){', '};'), ('cl2', 'q=&(struct S){', '};'), ('stexpr', 'a=({', '});'), ('asm', 'asm("', '");'), ('asm2', 'asm("nop":', ');'), ('asm3', 'asm("nop":"=', '"(a));'), ('asm4', 'asm("nop"::"r"(', '));'), ('asm5', 'asm("%', '"::"r"(a));'), ('asm6', 'asm("nop":::"', '");'), ('vla', 'int v[', '];'), ('local', 'int x', ';'), ('init', 'int x[2]={', '};'), ('init2', 'struct S x={', '};'), ('bi', '__builtin_', '(a);'), ('defer', 'defer ', ';'), ('brk', '{', '}'), ('sz', 'a=sizeof', 'a;'), ('bic', 'a=__builtin_constant_p(', ');'), ('bio', '__builtin_add_overflow(a,', ');'), ('biv', '__builtin_va_arg(', ');'), ('com', 'a=', '++;'), ('typ', 'typedef int ', ';'), ('ptr', '*', '=0;'), ('adr', '&', ';'), ('gen', 'a=_Generic(a,', ');'), ('labadr', 'goto *&&', ';L:;'), ('clean', 'int z __attribute__((cleanup(', ')));'), ('fnptr', 'int(*g)', '=f;'), ('dbl', 'd=d', ';'), ('shadow', 'int a=', ';'), ('cat', '__auto_type y=', ';'), ('atom', '__atomic_', '(p);'), ('stati', 'static int y=', ';')]
SPRE = 'struct S{int m;char n[3];};int f(int);void t(int a,int b,int c,int*p,struct S s,struct S*q,double d){'
KW = ['-std=c23', '-fdefer-ts', '-O0', '-fPIC']


def tests_(thorough):
    rnd = random.Random(core.SEED + 22)
    ts = []
    T = 10 if not thorough else 80
    def add(name, pre, alpha, post, flags=(), act='-S'): ts.append(P(name, pre, alpha, post, flags=flags, act=act, timeout=T, maxinsts=30000000, maxpaths=3000 if not thorough else 60000))
    for n, a, b in CTX:
        fl = [f for f in KW if rnd.random() < .3]
        add(n + '_any', a, [ANY] if not thorough else [ANY, ANY], b, fl, rnd.choice(['-S', '-S', '-E']))
        add(n + '_tk', a, [TK, ''.join(rnd.sample(PU, 4)) + 'a'] if not thorough else [TK, PU + 'a1', PU + 'a1'], b, fl)
    for n, a, b in STM:
        fl = [f for f in KW if rnd.random() < .3]
        if '-fdefer-ts' not in fl and n == 'defer': fl.append('-fdefer-ts')
        add('s' + n + '_any', SPRE + a, [TXT] if not thorough else [TXT, TXT], b + '}', fl)
        add('s' + n + '_tk', SPRE + a, [TK, ''.join(rnd.sample(PU, 4)) + 'a'] if not thorough else [TK, PU + 'ab1', PU + 'a1'], b + '}', fl)
    # the end of the file
    for n, a in (('eof_bs', '//a\\'), ('eof_bs2', '/*\\'), ('eof_q', '"a\\'), ('eof_d', '#define A\\'), ('eof_i', 'int a;\\'), ('eof_u', '\xc3'), ('eof_cr', '//\r'), ('eof_if', '#if 1\n#else\\')): add(n, a.encode('latin1'), [ANY, ANY if thorough else bytes([0, 10, 92])], '')
    return ts


def run(ck, thorough):
    b = core.Build()
    b.asan()
    ts = tests_(thorough)
    ck.bounds = ['%d contexts (directives, macros, literals, declarations, initializers, statements, expressions, inline asm, attributes, end of file) with %s symbolic bytes: one with any of the 256 values, or two from sets of token characters (the second of 5 randomly chosen ones)%s' % (len(ts), '1-2' if not thorough else '2-3', '' if not thorough else ' (three)')]
    ck.assume = ['every object is tracked: accesses outside of objects, to freed memory and through null, aborts, unreachable code and non-termination within the instruction budget are reported', 'counterexamples are replayed on a build with the address sanitizer']
    orc.run_all(ck, b, 'c22', ts, each=60 if not thorough else 130, total=600 if not thorough else 3000)
