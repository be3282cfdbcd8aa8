"""C16: expressions and declarations of every combination of operator and operand kinds, for table.json made by tools/c16table.py."""
DECLS = '''\
struct v16_s { int a; char b; };
struct v16_t { int a; char b; };
union v16_u { int a; double b; };
struct v16_bf { unsigned b : 3; int c : 5; int n; };
struct v16_cm { const int a; int b; };
struct v16_inc;
enum v16_e { v16_e0, v16_e1 };
char v16_c; short v16_h; int v16_i; unsigned v16_ui; long v16_l; unsigned long v16_ul;
float v16_f; double v16_d; long double v16_ld;
enum v16_e v16_en;
const int v16_ci = 3; const struct v16_s v16_cs;
int *v16_pi; const int *v16_pci; int *const v16_cpi; char *v16_pc; void *v16_pv; const void *v16_pcv; int **v16_ppi;
struct v16_s *v16_ps; const struct v16_s *v16_pcs; struct v16_t *v16_pt; struct v16_inc *v16_pinc; double *v16_pd;
int (*v16_pf)(int); void (*v16_pfv)(void); int (*v16_pa)[3];
struct v16_s v16_vs; struct v16_t v16_vt; union v16_u v16_vu; struct v16_bf v16_vb; struct v16_cm v16_vcm;
int v16_ai[3]; char v16_ac[4]; struct v16_s v16_as[2]; int v16_aa[2][3];
int v16_fn(int); void v16_vf(void); struct v16_s v16_sf(void); int v16_f2(double, int *);
'''

KINDS = {  # name -> an expression of that kind
 'char': 'v16_c',
 'short': 'v16_h',
 'int': 'v16_i',
 'unsigned': 'v16_ui',
 'long': 'v16_l',
 'ulong': 'v16_ul',
 'float': 'v16_f',
 'double': 'v16_d',
 'ldouble': 'v16_ld',
 'enum': 'v16_en',
 'cint': 'v16_ci',
 'cstruct': 'v16_cs',
 'pint': 'v16_pi',
 'pcint': 'v16_pci',
 'cpint': 'v16_cpi',
 'pchar': 'v16_pc',
 'pvoid': 'v16_pv',
 'pcvoid': 'v16_pcv',
 'ppint': 'v16_ppi',
 'pstruct': 'v16_ps',
 'pcstruct': 'v16_pcs',
 'pstruct2': 'v16_pt',
 'pincomplete': 'v16_pinc',
 'pdouble': 'v16_pd',
 'pfn': 'v16_pf',
 'pfnv': 'v16_pfv',
 'parray': 'v16_pa',
 'struct': 'v16_vs',
 'struct2': 'v16_vt',
 'union': 'v16_vu',
 'cmstruct': 'v16_vcm',
 'array': 'v16_ai',
 'carray': 'v16_ac',
 'sarray': 'v16_as',
 'aarray': 'v16_aa',
 'fn': 'v16_fn',
 'enumerator': 'v16_e0',
 'bitfield': 'v16_vb.b',
 'member': 'v16_vs.a',
 'pmember': 'v16_ps->a',
 'cmember': 'v16_cs.a',
 'cmmember': 'v16_vcm.a',
 'pcmember': 'v16_pcs->a',
 'element': 'v16_ai[1]',
 'deref': '(*v16_pi)',
 'cderef': '(*v16_pci)',
 'voidcall': 'v16_vf()',
 'structcall': 'v16_sf()',
 'intcall': 'v16_fn(1)',
 'callmember': 'v16_sf().a',
 'zero': '0',
 'one': '3',
 'fconst': '1.5',
 'null': '((void *) 0)',
 'string': '"abc"',
 'sum': '(v16_i + 1)',
 'psum': '(v16_pi + 1)',
 'fsum': '(v16_d + 1)',
 'incomplete': '(*v16_pinc)',
}

UN = ['+@', '-@', '~@', '!@', '*@', '&@', '++@', '--@', '@++', '@--', 'sizeof(@)', 'sizeof @', '(int) @', '(double) @', '(char *) @', '(struct v16_s) @', '(void) @', '(unsigned char) @', '(int (*)(int)) @', '@()', '@(1)', '@(1, 2)', '@(v16_vs)', '@.a', '@->a', '@.zz', '@->zz', '@[1]', '1[@]', '@["x"]', '@[1.5]', '@ ? 1 : 2', '@ && 1', '1 || @', 'v16_fn(@)', 'v16_f2(1, @)', '@, 1', '1, @', '&*@', '*&@', '(@) = 1', '@ = 0', '@ += 1', '@ = @', '&@[1]', '&@.a', '&@->a', '**@', '-@ * 2', '@ == 0', '0 == @', '@ < 0', '@ + 0', '0 - @']
BIN = ['@ + #', '@ - #', '@ * #', '@ / #', '@ % #', '@ & #', '@ | #', '@ ^ #', '@ << #', '@ >> #', '@ < #', '@ >= #', '@ == #', '@ != #', '@ && #', '@ || #', '@ = #', '@ += #', '@ -= #', '@ *= #', '@ /= #', '@ %= #', '@ |= #', '@ &= #', '@ ^= #', '@ <<= #', '@ >>= #', 'v16_i ? @ : #', '@[#]']
STMT = ['if (@) ;', 'while (@) break;', 'for (; @; ) break;', 'do ; while (@);', 'switch (@) { default: ; }', 'return @;']

# name -> declaration of a %s of that type
TYPES = {'char': 'char %s', 'uchar': 'unsigned char %s', 'short': 'short %s', 'ushort': 'unsigned short %s', 'int': 'int %s', 'unsigned': 'unsigned %s', 'long': 'long %s', 'ulong': 'unsigned long %s',
 'float': 'float %s', 'double': 'double %s', 'ldouble': 'long double %s', 'enum': 'enum v16_e %s', 'pint': 'int *%s', 'pcint': 'const int *%s', 'cpint': 'int *const %s', 'puint': 'unsigned *%s', 'pchar': 'char *%s',
 'pcchar': 'const char *%s', 'pvoid': 'void *%s', 'pcvoid': 'const void *%s', 'ppint': 'int **%s', 'pstruct': 'struct v16_s *%s', 'pcstruct': 'const struct v16_s *%s', 'pstruct2': 'struct v16_t *%s',
 'pincomplete': 'struct v16_inc *%s', 'pdouble': 'double *%s', 'pfn': 'int (*%s)(int)', 'pfnv': 'void (*%s)(void)', 'parray': 'int (*%s)[3]', 'struct': 'struct v16_s %s', 'struct2': 'struct v16_t %s', 'union': 'union v16_u %s'}
ARGS = ''.join('void v16_arg_%s(%s);\n' % (n, t % 'p') for n, t in TYPES.items()) + ''.join('typedef %s;\n' % (t % ('v16_T' + n)) for n, t in TYPES.items())
TYPED = {'init': '{ T = @; }', 'static init': '{ static T = @; }', 'arg': 'v16_arg_N(@);', 'cast': '(v16_TN) @;', 'return': 'T(void) { return @; }', 'pointer init': '{ v16_TN *v16_l = &@; }', 'element init': '{ v16_TN v16_l[2] = { @, @ }; }'}
FILE_OPS = ('return',)
K = list(KINDS)
T = list(TYPES)


def ops():
    """(operator, first operand kinds, second operand kinds)"""
    for o in UN + STMT:
        yield o, K, ['']
    for o in BIN:
        yield o, K, K
    for o in TYPED:
        yield o, K, T


def text(op, k, k2):
    e = KINDS[k]
    if op in TYPED:
        name = 'v16_l'
        t = TYPED[op]
        d = TYPES[k2] % name
        if op == 'return':
            return 'v16_T%s v16_rN(void) { return %s; }' % (k2, e)
        return t.replace('v16_TN', 'v16_T' + k2).replace('v16_arg_N', 'v16_arg_' + k2).replace('T = ', d + ' = ').replace('@', e)
    if op in STMT:
        return op.replace('@', e)
    if k2:
        return op.replace('@', '\0').replace('#', KINDS[k2]).replace('\0', e) + ';'
    return op.replace('@', e) + ';'

# invalid statements
BAD_STMT = r'''
v16_undeclared;
v16_i = v16_undeclared + 1;
v16_undeclared = 1;
v16_undeclared[1] = 2;
&v16_undeclared;
sizeof(v16_undeclared);
int v16_l1; int v16_l1;
int v16_l1; char v16_l1;
int v16_l1, v16_l1;
static int v16_l1; int v16_l1;
typedef int v16_l1; int v16_l1;
int v16_l1; enum { v16_l1 };
enum { v16_l1, v16_l1 };
struct v16_l { int a; }; struct v16_l { int a; };
struct v16_l { int a; }; union v16_l v16_l1;
struct v16_l { int a; }; enum v16_l v16_l1;
enum v16_l { v16_l1 }; struct v16_l v16_l2;
struct v16_l { int a; } v16_l1; v16_l1.b = 2;
struct v16_l { struct v16_l x; };
struct v16_l { void x; };
struct v16_l { int x(void); };
struct v16_l { struct v16_nodef x; };
struct v16_l { int a : 33; };
struct v16_l { int a : -1; };
struct v16_l { int a : 0; };
struct v16_l { float a : 3; };
struct v16_l { int a : v16_i; };
struct v16_nodef v16_l1;
struct v16_nodef v16_l1 = { 1 };
struct v16_nodef *v16_l1; v16_l1->a = 1;
struct v16_nodef *v16_l1; sizeof(*v16_l1);
sizeof(struct v16_nodef);
void v16_l1;
void v16_l1[3];
int v16_l1[];
int v16_l1[v16_i];
int v16_l1[2] = { v16_undeclared };
int v16_l1 = v16_undeclared;
int v16_l1 = v16_vs;
struct v16_s v16_l1 = 3;
struct v16_s v16_l1 = v16_vt;
int *v16_l1 = v16_vs;
static int v16_l1 = v16_i;
static int v16_l1 = v16_fn(1);
static int *v16_l1 = &v16_pi[v16_i];
const int v16_l1 = 1; v16_l1 = 2;
const int v16_l1 = 1; v16_l1++;
const int v16_l1 = 1; --v16_l1;
const int v16_l1 = 1; v16_l1 += 2;
int v16_l1 = 1; 5 = v16_l1;
int v16_l1 = 1; v16_l1 + 1 = 2;
int v16_l1 = 1; (v16_l1 ? v16_l1 : 2) = 2;
int v16_l1 = 1; v16_l1++ = 2;
int v16_l1 = 1; (char) v16_l1 = 2;
int v16_l1 = 1; &5;
int v16_l1 = 1; &(v16_l1 + 1);
auto static int v16_l1;
static extern int v16_l1;
register static int v16_l1;
unsigned signed int v16_l1;
unsigned float v16_l1;
unsigned double v16_l1;
signed struct v16_s v16_l1;
long long long v16_l1;
int char v16_l1;
float double v16_l1;
struct v16_s int v16_l1;
int void v16_l1;
short double v16_l1;
v16_i = (1 + 2;
v16_i = 1 + ;
v16_i = * ;
v16_i = 1 2;
v16_i = v16_i v16_i;
v16_i = );
v16_i = (v16_i));
v16_i ? 1;
v16_i ? 1 : ;
v16_i ? : 2 : 3;
v16_ai[1;
v16_ai[];
v16_ai 1];
v16_fn(1;
v16_fn(1,);
v16_fn(,1);
v16_fn(1 2);
v16_vs.;
v16_vs.1;
v16_ps->;
v16_ps->*v16_i;
v16_vs.a.b;
if v16_i v16_i = 1;
if (v16_i v16_i = 1;
if () v16_i = 1;
if (v16_i) else v16_i = 1;
else v16_i = 1;
while v16_i;
while () ;
while (v16_i ;
do v16_i = 1; while v16_i;
do v16_i = 1; v16_i = 2;
do v16_i = 1; while (v16_i) v16_i = 2;
for (v16_i) ;
for (v16_i; v16_i) ;
for () ;
for (v16_i = 1, v16_i < 2; v16_i++) ;
switch v16_i { }
switch (v16_d) { default: ; }
switch (v16_pi) { default: ; }
switch (v16_vs) { default: ; }
switch (v16_i) { case 1: ; case 1: ; }
switch (v16_i) { case 1: ; case 2 - 1: ; }
switch (v16_i) { case v16_i: ; }
switch (v16_i) { case 1.5: ; }
switch (v16_i) { case "x": ; }
switch (v16_i) { default: ; default: ; }
switch (v16_i) { case : ; }
switch (v16_i) { case 1 ; }
switch (v16_i) { default 1: ; }
goto ;
goto 1;
goto v16_nolabel;
v16_lab: ; v16_lab: ;
return return;
return 1 2;
int v16_l1 v16_l2;
int v16_l1 = ;
int v16_l1 = { 1 ;
int v16_l1[2] = { 1, 2 ;
int v16_l1[2] = { 1 2 };
int 5;
int *;
int (v16_l1;
int v16_l1[2;
int v16_l1(int;
int v16_l1(int,);
int v16_l1[2] = 5;
char v16_l1[2] = 5;
struct { int a } v16_l1;
struct { int a, } v16_l1;
struct { int ; a } v16_l1;
struct ;
enum { } v16_l1;
enum { v16_l1 = } ;
enum { v16_l1 = v16_i };
enum { v16_l1 = 1.5 };
enum { 1 };
enum ;
enum { v16_l1 v16_l2 };
typedef int v16_l1 v16_l2;
(int v16_i;
(int) ;
sizeof ;
sizeof(int;
sizeof(;
sizeof();
v16_i = sizeof(int) 1;
1 = 2;
"abc" = 1;
v16_ai = v16_ai;
v16_ai++;
v16_fn = 0;
v16_fn++;
v16_vf() + 1;
v16_i = v16_vf();
v16_fn(v16_vf());
v16_fn(1, 2);
v16_fn(1, 2, 3);
v16_vf(1);
v16_fn(v16_vs);
v16_f2(v16_ps, v16_pi);
v16_f2(1, v16_d);
v16_f2(1, v16_vs);
v16_i(1);
v16_d();
v16_vs();
(*v16_i)(1);
v16_i->a;
v16_vs->a;
v16_ps.a;
v16_i.a;
v16_pi->a;
*v16_i;
*v16_d;
*v16_vs;
**v16_pi;
v16_i[v16_i];
v16_d[1];
v16_vs[1];
v16_pi[1.5];
v16_pi[v16_pi];
v16_pi["x"];
-v16_vs;
-v16_pi;
+v16_pi;
~v16_d;
~v16_pi;
!v16_vs;
v16_vs++;
v16_vs + 1;
v16_pi + v16_pi;
v16_pi + 1.5;
v16_pi - v16_d;
v16_i - v16_pi;
v16_pi * 2;
v16_pi / 2;
v16_d % 2;
v16_pi % 2;
v16_d & 1;
v16_d | 1;
v16_d ^ 1;
v16_d << 1;
1 << v16_d;
v16_pi & 1;
v16_vs == v16_vs;
v16_vs && 1;
1 || v16_vs;
v16_vs < 1;
v16_d == v16_pi;
v16_vs ? 1 : 2;
1 ? v16_vs : 1;
1 ? v16_vs : v16_vt;
1 ? v16_pi : v16_d;
v16_vs = 1;
v16_i = v16_vs;
v16_vs = v16_vt;
v16_pi = v16_d;
v16_d = v16_pi;
v16_pi += v16_pi;
v16_vs += 1;
v16_pi *= 2;
v16_d %= 2;
v16_d <<= 2;
(struct v16_s) v16_i;
(int) v16_vs;
(char *) v16_d;
(double) v16_pi;
(struct v16_s) v16_vt;
sizeof(v16_vb.b);
&v16_vb.b;
sizeof(v16_undeclared_type);
(v16_undeclared_type) 1;
v16_undeclared_type v16_l1;
v16_undeclared_type *v16_l1;
v16_cs.a = 1;
v16_vcm.a = 1;
v16_vcm = v16_vcm;
*v16_pci = 1;
v16_pcs->a = 1;
v16_cpi = v16_pi;
v16_i = 0x1g;
v16_i = 1x;
v16_i = '';
v16_i = 'a;
v16_pc = "abc;
v16_i = 1 @ 2;
v16_i = 1 ` 2;
v16_i = 1.5f5;
v16_i = 1e;
v16_i = 1e+;
v16_i = \ 2;
int v16_l1(void) { return 1; }
continue 1;
break 1;
(v16_i;
v16_i];
v16_i = [1];
v16_i = .a;
v16_i = ->a;
v16_i = 1 + + ;
v16_i = ,;
v16_i = 1 = ;
v16_i = ? 1 : 2;
v16_i ++ ++;
++ ++ v16_i;
-- v16_i --;
int v16_l1 : 3;
struct v16_s v16_l1 { int a; };
asm
'\q';
v16_pc = "a\q";
'';
'a;
v16_i = '
v16_i = "abc;
int v16_l1[] = {};
int v16_l1[2] = {};
struct v16_s v16_l1 = {};
static int v16_l1 = v16_i + 1;
static int *v16_l1 = &v16_i + v16_i;
static double v16_l1 = v16_d;
static int v16_l1[2] = { 1, v16_i };
static int v16_l1 = 1 / 0;
static int v16_l1 = (int) &v16_i;
static long v16_l1 = &v16_i * 2;
static long v16_l1 = 2 * (long) &v16_i;
static long v16_l1 = -(long) &v16_i;
static long v16_l1 = ~(long) &v16_i;
static char *v16_l1 = "a" + "b";
static int v16_l1 = &v16_i - &v16_pi;
static int v16_l1 = "abc" == v16_pc;
static int v16_l1[2] = { [0] = v16_i };
static int *v16_l1 = &1;
static int *v16_l1 = &(1 + 2);
static int v16_l1 = v16_i[1];
static int v16_l1 = 1[1];
static int *v16_l1 = &v16_ai[1.5];
static int v16_l1 = 1 << 1.5;
static int v16_l1 = 1.5 % 2;
static int v16_l1 = 1.5 & 2;
static int v16_l1 = ~1.5;
static int v16_l1 = 1 ? 2;
static int v16_l1 = (1, 2;
static int v16_l1 = sizeof(int;
switch (1) { case 1.5: ; }
switch (1) { case v16_i: ; }
switch (1) { case 1 << 1.5: ; }
switch (1) { case 1: ; case 1: ; }
switch (1) { default: ; default: ; }
switch (1) { case : ; }
switch (1) { case 1 ; }
enum { v16_l1 = };
enum { , };
enum v16_le { };
struct v16_l { int a; int a; };
struct v16_l { int a; char *a; };
struct v16_l { int a; struct { int a; }; };
struct v16_l { int a, b; int c, b; };
union v16_l { int a; double a; };
struct v16_l { int : 40; };
struct v16_l { double a : 3; };
struct v16_l { int a : 3 int b; };
struct v16_l { int a int b; };
struct v16_l { int a };
struct v16_l { int ; a };
struct v16_l { void a; };
struct v16_l { int f(void); };
struct 5 { int a; };
int v16_l1 int v16_l2;
int v16_l1[1.5];
int v16_l1[v16_fn];
int v16_l1 5;
void v16_l1[2];
int v16_l1(int)[2];
long float v16_l1;
signed unsigned v16_l1;
short long v16_l1;
char char v16_l1;
int float v16_l1;
static auto int v16_l1;
typedef int v16_l1 = 1;
v16_i = sizeof(v16_nodef);
v16_i = sizeof(struct v16_nodef);
v16_i = sizeof(void (void);
v16_i = sizeof();
v16_i = (int;
v16_i = (int) ;
v16_i = (struct v16_s) v16_i;
v16_i = (int) v16_vs;
v16_vs = v16_i;
v16_i << v16_d;
v16_d << v16_i;
v16_d >> v16_i;
v16_i >> v16_pi;
v16_d % v16_i;
v16_i % v16_pi;
v16_i %= v16_d;
v16_i <<= v16_d;
v16_d |= v16_i;
v16_d & v16_i;
v16_pi | v16_i;
v16_pi / v16_i;
v16_pi - 1.5;
v16_pi += 1.5;
&1;
&(v16_i + 1);
&v16_fn(1);
v16_i();
v16_d(1);
v16_vs.v16_nomember;
v16_vs.if;
(v16_i + 1).a;
v16_fn(1).a;
1.a;
5 = v16_i;
v16_i + 1 = 2;
(v16_i ? v16_i : v16_i) = 1;
"abc" = 0;
v16_fn(1) = 2;
v16_fn(1)++;
1++;
++1;
--(v16_i + 1);
v16_i++ = 1;
(int) v16_i = 1;
sizeof v16_i = 1;
v16_i ? : 2;
v16_i ? v16_pi : v16_vs;
v16_i ? v16_vs : 1;
v16_i ? v16_pi : 1.5;
if v16_i;
if (v16_i;
if () ;
do ; while v16_i;
for (;;;) break;
for (;) break;
for (v16_i) break;
for ;
switch () { }
switch (1.5) { }
switch (v16_pi) { }
switch (v16_vs) { }
v16_l1: v16_l1: ;
else ;
v16_i);
v16_i + ;
* ;
! ;
int v16_l1[2] = { 1, 2;
struct v16_nodef v16_l1[2];
union v16_nodef v16_l1 = { 1 };
int *v16_l1 = 1.5;
double v16_l1 = v16_pi;
float v16_l1 = v16_pi;
int v16_l1 = v16_novar;
@;
`;
$;
\;
v16_i = 1.5e;
v16_i = 12abc;
v16_i = 1.2.3;
v16_i = 1..2;
'''.strip().split('\n')

# invalid at file scope
BAD_FILE = r'''
int v16_g1; char v16_g1;
int v16_g1; int *v16_g1;
int v16_g1[2]; int v16_g1[3];
int v16_g1; int v16_g1(void);
int v16_g1(void); int v16_g1;
int v16_g1(void); char v16_g1(void);
int v16_g1(int); int v16_g1(char);
int v16_g1(int); int v16_g1(int, int);
int v16_g1 = 1; int v16_g1 = 2;
int v16_g1(void) { return 1; } int v16_g1(void) { return 2; }
static int v16_g1; int v16_g1;
int v16_g1; static int v16_g1;
int v16_g1 = v16_i;
int v16_g1 = v16_fn(1);
int v16_g1 = v16_undeclared;
int v16_g1[v16_i];
int v16_g1[1.5];
int v16_g1 = 1 / 0;
int v16_g1 = 1 % 0;
int v16_g1[2] = 5;
int *v16_g1 = &v16_pi[v16_i];
struct v16_s v16_g1 = 5;
auto int v16_g1;
register int v16_g1;
static extern int v16_g1;
struct v16_nodef v16_g1 = { 1 };
struct v16_g { int a; }; struct v16_g { int a; };
struct v16_g { int a; }; union v16_g { int a; };
struct v16_g { int a; }; union v16_g v16_g1;
struct v16_g { struct v16_g x; };
struct v16_g { int a : 40; };
struct v16_g { void a; };
struct v16_g { int f(void); };
enum { v16_g1, v16_g1 };
enum { v16_g1 = v16_i };
enum { v16_i };
void v16_g1(void) { return 1; }
int v16_g1(void) { break; }
int v16_g1(void) { continue; }
int v16_g1(void) { case 1: ; }
int v16_g1(void) { default: ; }
int v16_g1(void) { goto v16_no; }
int v16_g1(void) { v16_x: ; v16_x: ; }
int v16_g1(int a) { int a; return 1; }
int v16_g1(int a) { char a; return 1; }
int v16_g1(int, char) { return 1; }
int v16_g1(static int a) { return 1; }
int v16_g1(extern int a);
int v16_g1(int a;
int v16_g1(int a, );
int v16_g1(int a b);
int v16_g1(void)[3];
void v16_g1[3];
struct v16_nodef v16_g1[3];
int v16_g1(a, b) int c; { return 1; }
int v16_g1(a) { return a }
int v16_g1(void) { return 1 + ; }
int v16_g1(void) { if (1 { } }
int v16_g1(void) { int x }
int v16_g1(void) } 
int v16_g1 = ;
int v16_g1 = { ;
int v16_g1 v16_g2;
int = 5;
= 5;
+ 5;
5;
"x";
}
)
]
( 5 );
if (1) ;
return 1;
typedef int v16_g1 = 5;
typedef int v16_g1; int v16_g1;
typedef struct v16_nodef v16_g1; v16_g1 v16_g2 = { 1 };
long long long v16_g1;
unsigned signed v16_g1;
char int v16_g1;
unsigned float v16_g1;
struct { int a } v16_g1;
enum { };
enum { a b };
int v16_g1[] = { 1, 2;
char v16_g1[] = "abc
int v16_g1 = 'a;
int v16_g1 = 1 $ 2;
int v16_g1 @;
int v16_g1 = 3 3;
int v16_g1 = (3;
int v16_g1 = 3);
int v16_g1 = sizeof(struct v16_nodef);
int v16_g1 = sizeof(v16_vb.b);
int v16_g1(void) { return v16_undeclared; }
int v16_g1(void) { v16_vs = v16_vt; }
void v16_g1(void) { v16_vs + 1; }
int v16_g1(void) return 1;
int v16_g1(void) { } }
int v16_g1 { return 1; }
int v16_g1(int a; int b) { return 1; }
int v16_g1(int a b) { return 1; }
int v16_g1(int a,) { return 1; }
int v16_g1(, int a) { return 1; }
int v16_g1(int a { return 1; }
int v16_g1(int) { return 1; }
int v16_g1(int a, ..) { return 1; }
int v16_g1(int a, ... { return 1; }
struct v16_nodef v16_g1(void) { }
union v16_nodef v16_g1(void) { }
struct v16_nodef v16_g1(void); void v16_g2(void) { v16_g1(); }
struct v16_nodef v16_g1(void); int v16_g2(void) { return v16_g1().a; }
struct v16_nodef *v16_g1(void); int v16_g2(void) { return v16_g1()->a; }
int v16_g1[] = {};
int v16_g1[];  int v16_g1 = 1;
struct v16_s v16_g1 = {};
int v16_g1 = (int) &v16_i * 2;
long v16_g1 = (long) &v16_i * 2;
long v16_g1 = (long) &v16_i % 2;
long v16_g1 = (long) &v16_i << 2;
long v16_g1 = -(long) &v16_i;
long v16_g1 = ~(long) &v16_i;
long v16_g1 = !&v16_i + v16_i;
long v16_g1 = &v16_i - &v16_x;
long v16_g1 = &v16_i - v16_pc;
int *v16_g1 = &v16_i + &v16_i;
int *v16_g1 = &v16_i * 2;
int *v16_g1 = 2 - &v16_i;
int *v16_g1 = &v16_ai[1.5];
int *v16_g1 = &v16_i[1];
int *v16_g1 = &1;
int *v16_g1 = &(v16_i + 1);
int *v16_g1 = &v16_fn(1);
int v16_g1 = *v16_pi;
int v16_g1 = v16_pi[0];
int v16_g1 = v16_vs.a;
int v16_g1 = v16_i++;
int v16_g1 = (v16_i = 1);
int v16_g1 = v16_i ? 1 : 2;
int v16_g1 = 1 ? v16_i : 2;
int v16_g1 = 1 || 2 +;
double v16_g1 = &v16_i;
float v16_g1 = &v16_i;
char *v16_g1 = 'a' "b";
struct v16_g { int a; int a; };
struct v16_g { int a, a; };
struct v16_g { int a; union { int a; }; };
struct v16_g { int a; struct { char b; int a; }; };
struct v16_g { union { int a; }; struct { int a; }; };
struct v16_g { int a int b; };
struct v16_g { int a : 0; };
struct v16_g { int a; } struct v16_h { int a; };
struct v16_nodef v16_g1[2];
void v16_g1[2];
int v16_g1(void)[2];
int v16_g1, int v16_g2;
int v16_g1,, v16_g2;
int = 1;
int 1;
int *;
v16_g1 v16_g2;
v16_g1(1);
= 1;
1;
;{
typedef int v16_g1; v16_g1 v16_g1 v16_g2;
typedef int v16_g1; typedef char v16_g1;
typedef int v16_g1; int f(void) { v16_g1 = 1; }
typedef int v16_g1 = 1;
extern int v16_g1 = ;
static int v16_g1(void) { return v16_g1 }
enum v16_g { v16_g1, v16_g2 = v16_g3 };
enum v16_g { v16_g1 = 1.5 };
enum v16_g { v16_g1, v16_g1 };
enum v16_g { };
enum v16_g { v16_g1 } v16_g1;
enum v16_g { v16_g1 }; struct v16_g { int a; };
enum { 1 };
int v16_g1 = '\q';
char *v16_g1 = "\q";
int v16_g1 = '';
char *v16_g1 = "a;
int v16_g1 = 1 @;
int v16_g1(a) { return a; } int v16_g1(b, c) { return 1; }
int v16_g1(int); int v16_g1(int a, int b) { return 1; }
int v16_g1(int); int v16_g1(double a) { return 1; }
int v16_g1(int); int v16_g1(int a, ...) { return 1; }
int v16_g1(int); void v16_g1(int a) { }
int v16_g1(void); double v16_g1(void) { return 1; }
int *v16_g1; double *v16_g1;
extern int v16_g1; extern double v16_g1;
extern int v16_g1[2]; extern int v16_g1[3];
int v16_g1(int (*)(void)); int v16_g1(int (*)(int));
int v16_g1(struct v16_s); int v16_g1(struct v16_t);
int v16_g1(int *); int v16_g1(char *);
int v16_g1(void) { goto v16_l; }
int v16_g1(void) { v16_l: ; v16_l: ; }
int v16_g1(void) { int a; int a; }
int v16_g1(int a) { int a; }
int v16_g1(void) { extern int v16_i; static double v16_i = v16_d; }
int v16_g1(struct v16_nodef a) { return 1; }
int v16_g1(int a, union v16_nodef b) { return a; }
int v16_g1(a, b) int a; struct v16_nodef b; { return a; }
'''.strip().split('\n')

# invalid directives; \n is a line end
BAD_CPP = r'''
#error v16 message
#unknown
#include "v16-no-such-file.h"
#include <v16-no-such-file.h>
#include
#include v16_x
#include "v16
#define
#define 1
#define v16_m(
#define v16_m(a
#define v16_m(a,)
#define v16_m(,a)
#define v16_m(a b) 1
#define v16_m(1) 1
#define v16_m(a, a) a
#define v16_m ## 1
#define v16_m 1 ##
#define v16_m(a) ## a
#define v16_m(a) a ##
#undef
#undef 1
#if
#if 1 +
#if (1
#if 1)
#if 1 1
#if "x"
#if 1.5
#if 1 / 0
#if 1 % 0
#if 1 = 2
#if defined
#if defined(
#if defined(1)
#ifdef
#ifdef 1
#ifndef
#ifndef 1
#elif 1
#else
#endif
#line
#line abc
#line 1 2
#line 5 abc
#define v16_m 1\n#define v16_m(a) 1
#define v16_m(a) a\n#define v16_m(b) b
#if 1\n#else\n#else\n#endif
#if 1\n#else\n#elif 1\n#endif
#define v16_m(a) a\nint v16_g9 = v16_m(1, 2);
#define v16_m(a, b) a\nint v16_g9 = v16_m(1);
#define v16_m(a,1) a
#define v16_m(a,b
#define v16_m(a b) a
#define v16_m(a) a\n#define v16_m(a, b) a
#define v16_m(a) a\n#define v16_m 1
#define v16_m 1 +\n#if v16_m\n#endif
#define v16_m(a) a\n#if v16_m(1\n#endif
#if 1 ? 2\n#endif
#if 1 ? : 2\n#endif
#if ~\n#endif
#if !\n#endif
#if 1 +* 2\n#endif
#if ()\n#endif
#if 'a\n#endif
#if ''\n#endif
#if 1 == \n#endif
#if 1, \n#endif
#if sizeof(int)\n#endif
#if (int) 1\n#endif
#if 1 && \n#endif
#if 1 || (\n#endif
#if "a" == "a"\n#endif
#if 0\n#elif 1 +\n#endif
#if 0\n#elif\n#endif
#if 0\n#elif (1\n#endif
#ifdef\n#endif
#ifndef\n#endif
#ifdef "a"\n#endif
#if defined v16_a v16_b\n#endif
#if defined(v16_a\n#endif
#if defined()\n#endif
#if 0\n#else\n#else\n#endif
#if 1\n#if 1\n#endif\n#else\n#else\n#endif
#if 1 / (2 - 2)\n#endif
#if 1 % (2 - 2)\n#endif
#line "a"
#line 5 5
#line 5 v16_a
#include v16.h
#include <v16.h
#include "v16.h
#include "v16-none.h"
#undef "a"
#define "a"
#define +
#defin v16_m
#iff 1
#!
#"a"
#define v16_m(a, b) a b\nint v16_g9 = v16_m(1);
#define v16_m(a, b) a b\nint v16_g9 = v16_m(1, 2, 3);
#define v16_m() 1\nint v16_g9 = v16_m(1);
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, l); }
#include <stdarg.h>\nvoid v16_g1(int a, int b, ...) { va_list l; va_start(l, a); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(a, a); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { int l; va_start(l, a); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, 1); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a; }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start l, a; }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { int b; va_list l; va_start(l, b); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l, int[2]); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l, 1); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(a, int); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l, int; }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l int); }
#include <stdarg.h>\nvoid v16_g1(void) { va_list l; va_start(l, v16_g1); }
#include <stdarg.h>\nvoid v16_g1(int a) { va_list l; va_start(l, a); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l, struct v16_nodef); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l, int(void)); }
#include <stdarg.h>\nvoid v16_g1(int a, ...) { va_list l; va_start(l, a); va_arg(l, void); }
'''.strip().split('\n')

# valid at file scope; \n is a line end unless in a character constant
OK_FILE = r'''
int v16_g1; int v16_g1;
int v16_g1; extern int v16_g1; int v16_g1 = 4;
extern int v16_g1; static int v16_g2 = 1;
static int v16_g1; static int v16_g1 = 2;
int v16_g1(); int v16_g1(int);
int v16_g1(int); int v16_g1(int a) { return a; }
int v16_g1(int a); int v16_g1(int b); int v16_g1(int);
int v16_g1(int, char *); int v16_g1(a, b) int a; char *b; { return a; }
int v16_g1(const int); int v16_g1(int a) { return a; }
int v16_g1(int[]); int v16_g1(int *); int v16_g1(int[3]);
int v16_g1(int(int)); int v16_g1(int (*)(int));
extern int v16_g1[]; int v16_g1[3]; int v16_g2 = sizeof(v16_g1);
int v16_g1[]; int v16_g1[3];
int v16_g1[2][3]; extern int v16_g1[][3];
int *v16_g1, v16_g2, *v16_g3[2], (*v16_g4)[2], v16_g5(int), *v16_g6(int);
struct v16_g; struct v16_g *v16_g1; struct v16_g { int a; }; struct v16_g v16_g2;
struct v16_g { struct v16_g *n; struct v16_gt *m; }; struct v16_gt { struct v16_g x; };
struct v16_g { int v16_g; } v16_g; union v16_gt { int v16_gt; } v16_gt;
struct v16_g { int a : 3, : 2, b : 0 + 4; int : 0; unsigned c : 32; };
enum v16_g { v16_g1, v16_g2 = 5, v16_g3, v16_g4 = v16_g2 - 1 }; int v16_g5[v16_g3];
enum v16_g { v16_g1 } v16_g; enum v16_g v16_g2 = v16_g1;
typedef int v16_g; v16_g v16_g1; typedef v16_g *v16_gt; v16_gt v16_g2 = &v16_g1;
typedef struct v16_g v16_g; struct v16_g { v16_g *n; };
typedef struct v16_g { int a; } v16_g, *v16_gt; v16_gt v16_g1; v16_g v16_g2;
typedef int v16_g(int); v16_g v16_g1; int v16_g1(int a) { return a; }
typedef int v16_g[]; v16_g v16_g1 = { 1, 2, 3 }, v16_g2 = { 1 }; int v16_g3[sizeof(v16_g1) / sizeof(int) == 3 ? 1 : -1];
int v16_g1 = 5 * 3 + sizeof(int) - (1 ? 2 : 3);
double v16_g1 = 1 + 2.5; float v16_g2 = -1; long double v16_g3 = 1.5;
int *v16_g1 = &v16_i; int *v16_g2 = v16_ai + 1; int *v16_g3 = &v16_ai[2]; int *v16_g4 = &v16_vs.a;
char *v16_g1 = "abc" "def"; char v16_g2[] = "abc"; char v16_g3[3] = "abc"; char v16_g4[5] = { "ab" };
int (*v16_g1)(int) = v16_fn; int (*v16_g2)(int) = &v16_fn; int (*v16_g3[])(int) = { v16_fn, 0 };
struct v16_s v16_g1 = { 1, 2 }, v16_g2[] = { { 1 }, 2, 3, { 4, 5 } };
union v16_u v16_g1 = { 3 };
int v16_g1[2][2] = { 1, 2, 3 }; int v16_g2[][2] = { { 1 }, { 2, 3 } };
void *v16_g1 = 0; void *v16_g2 = (void *) 0; int *v16_g3 = 0; char *v16_g4 = (char *) 5;
long v16_g1 = (long) &v16_i; unsigned long v16_g2 = (unsigned long) v16_ai;
static int v16_g1(void); static int v16_g2(void) { return v16_g1(); } static int v16_g1(void) { return 2; }
void v16_g1(void) { return; }
void v16_g1(void) { { ; } ; }
int v16_g1(void) { return v16_g1(); }
int v16_g1(int a) { { int a = 2; return a; } }
int v16_g1(int a) { goto a; a: return a; }
int v16_g1(void) { int v16_g1 = 3; return v16_g1; }
int v16_g1(void) { v16_x: goto v16_x; } int v16_g2(void) { v16_x: goto v16_x; }
int v16_g1(void) { goto v16_x; { v16_x: return 1; } }
int v16_g1(int a, ...) { return a; } int v16_g2(void) { return v16_g1(1, 2.5, "x", v16_vs); }
int v16_g1(int a, ...); int v16_g1(int a, ...);
struct v16_s v16_g1(struct v16_s a) { return a; }
void v16_g1(const int *a, int *const b, const struct v16_s *c) { *b = *a + c->a; a = b; }
void v16_g1(register int a) { register int b = a; auto int c = b; (void) c; }
char (*(*v16_g1(void))[3])(void);
int (*v16_g1(int a))(double);
int v16_g1(int (*f)(int), int a) { return f(a) + (*f)(a) + (**f)(a); }
const int v16_g1 = 5; const int *const v16_g2 = &v16_g1; volatile int v16_g3; const volatile int v16_g4 = 1; int const v16_g5 = 2;
short int v16_g1; int short v16_g2; long unsigned v16_g3; int long unsigned v16_g4; signed v16_g5; signed char v16_g6; double long v16_g7; unsigned int short v16_g8;
struct { int a; } v16_g1; union { int a; char b; } v16_g2;
struct v16_g { int a[3]; struct { int b; } c; } v16_g1 = { { 1, 2 }, { 3 } };
struct v16_g { int x, *y, z[2], (*f)(int); };
extern struct v16_g v16_g1; extern void *v16_g2;
static const char *const v16_g1[] = { "a", "b" };
int v16_g1(struct v16_s *p) { return p->a + (*p).b + (&*p)->a + p[0].a; }
int v16_g1 = '\n' + 'a' + '\'' + '\\' + '\x41' + '\101';
int v16_g1 = 0x1F + 017 + 10u + 10l + 10ul + 1UL;
double v16_g1 = 1.5 + .5 + 5. + 1e3 + 1.5e-3f + 1E+2L;
#define v16_m 1\n#define v16_m 1\nint v16_g1 = v16_m;
#define v16_m(a) #a\nchar *v16_g1 = v16_m(a "b" 'c');
#define v16_m(a, b) a ## b\nint v16_m(v16_, g1);
#define v16_m()\nint v16_g1 v16_m();
#define v16_m(a)\nint v16_g1 v16_m() v16_m(1);
#undef v16_m\n#undef v16_m
#ifdef v16_m\n#error no\n#elif 1\nint v16_g1;\n#else\n#error no\n#endif
#if 0\n#unknown\n#error no\n#if\n#else 5\n#endif\n#elif 2 > 1 && defined(v16_no) == 0\nint v16_g1;\n#else\nbroken (\n#endif
#if 1\n#elif\n#endif
#if 1 || 1 / 0\n#endif
#if v16_undefined_name == 0 && !v16_undefined_name\nint v16_g1;\n#endif
#if -1 < 0u\n#error no\n#endif
#pragma anything\n#\n
/* comment " ' */ int v16_g1; /* // */
int v16_\\ng1;
#define v16_m /* comment\n over lines */ 5\nint v16_g1 = v16_m;
#define v16_m(a, b) a + b\n#define v16_m(a, b) a + b\nint v16_g1 = v16_m(1, (2 * 3));
'''.strip().split('\n')

# valid statements
OK_STMT = r'''
int v16_l1; { int v16_l1; { char v16_l1; } }
int v16_l1 = 1, *v16_l2 = &v16_l1, v16_l3[2] = { 1 }; v16_l2 = v16_l3;
int v16_l1 = sizeof(v16_l1);
static int v16_l1 = 5; static int *v16_l2 = &v16_l1;
extern int v16_i; extern int v16_fn(int);
int v16_l1(int); int v16_l2(void);
typedef int v16_l; v16_l v16_l1; { int v16_l = 1; v16_l = 2; }
struct v16_l { int a; } v16_l1; v16_l1.a = 1; { struct v16_l { char b; } v16_l1; v16_l1.b = 1; }
struct v16_l *v16_l1; struct v16_l { int a; } v16_l2; v16_l1 = &v16_l2; v16_l1->a = 1;
enum v16_l { v16_l1, v16_l2 } v16_l3 = v16_l1; { enum { v16_l1 = 5 }; v16_l3 = v16_l1; }
int v16_l1; v16_l1: if (v16_l1) goto v16_l1;
goto v16_l1; v16_l1: ;
v16_l1: v16_l2: ; if (v16_i) goto v16_l2; else goto v16_l1;
switch (v16_i) { }
switch (v16_i) { case 1: case 2: default: case 3: ; }
switch (v16_c) { case 'a': break; case 'b': { case 'c': ; } }
switch (v16_l) { case 1: switch (v16_i) { case 1: break; default: ; } break; case 2: ; default: ; }
switch (v16_en) { case v16_e0: ; case v16_e1: ; }
switch (v16_i) default: v16_i = 1;
switch (v16_i) case 1 + 2 * 3: if (v16_i) case 4: v16_i = 1;
switch (v16_i) { while (v16_i) { case 1: continue; case 2: break; } }
while (v16_i) { switch (v16_i) { case 1: continue; default: break; } }
for (;;) break;
for (v16_i = 0, v16_l = 1; v16_i < 3; v16_i++, v16_l--) if (v16_i == 2) continue; else break;
do { if (v16_i) break; continue; } while (0);
do v16_i++; while (v16_i < 3);
while (v16_i--) ;
if (v16_i) ; else ;
if (v16_i) if (v16_c) v16_i = 1; else v16_i = 2; else v16_i = 3;
;;;
{ }
{ { } ; }
v16_fn(1), v16_vf();
(void) v16_fn(1);
v16_i ? v16_vf() : v16_vf();
v16_vs = v16_sf(); v16_vs = v16_i ? v16_vs : v16_sf(); v16_i = (v16_vs, v16_sf()).a;
v16_pf = v16_fn; v16_pf = &v16_fn; v16_pf = *v16_fn; v16_pf = 0; v16_i = v16_pf(1) + (*v16_pf)(2);
v16_pv = v16_pi; v16_pi = v16_pv; v16_pcv = v16_pci; v16_pci = v16_pi; v16_pcs = v16_ps;
v16_pi = 0; v16_pi = (void *) 0; v16_i = v16_pi == 0; v16_i = v16_pi != (void *) 0; v16_i = v16_pv == v16_pi; v16_i = !v16_pi;
v16_l = v16_pi - v16_ai; v16_pi = v16_ai + 1; v16_pi = 1 + v16_ai; v16_pi += v16_i; v16_i = v16_pi < v16_ai + 3;
v16_i = v16_ai[1] + 1[v16_ai] + *v16_ai + v16_aa[1][2] + (*v16_pa)[1] + **v16_aa;
v16_pa = v16_aa; v16_pa = &v16_ai; v16_ppi = &v16_pi; v16_i = **v16_ppi;
v16_vb.b = 3; v16_vb.c = v16_vb.b++; v16_i = -v16_vb.c; v16_i = v16_vb.b ? v16_vb.c : 1;
v16_vcm.b = v16_cs.a + v16_vcm.a; v16_i = v16_ci;
v16_d = v16_i + v16_f * v16_ld; v16_i = v16_d; v16_c = v16_l = v16_ul = v16_f = 3; v16_d += v16_i; v16_i *= 2.5;
v16_i <<= v16_l; v16_c |= 1; v16_ui ^= v16_c; v16_l %= 3; v16_i = ~v16_c + !v16_d;
v16_i = sizeof(int) + sizeof v16_i + sizeof(struct v16_s) + sizeof(int[3]) + sizeof(int *) + sizeof v16_ai / sizeof *v16_ai + sizeof "abc";
v16_pc = "abc"; v16_c = "abc"[1]; v16_c = *"abc";
v16_i = (int) v16_d + (char) 300 + (unsigned char) v16_l; v16_l = (long) v16_pi; v16_pi = (int *) v16_l; v16_pc = (char *) v16_pi;
v16_i = v16_en + v16_e1; v16_en = v16_e1; v16_en = 1; v16_i = v16_en == v16_e0;
v16_i = 1 ? 2 : 3 ? 4 : 5; v16_d = v16_i ? 1 : 2.5; v16_pi = v16_i ? v16_pi : 0; v16_pv = v16_i ? v16_pv : v16_pi;
(v16_i) = 1; *&v16_i = 2; *(v16_pi) = 3; (v16_ai)[1] = 4; (*v16_ps).a = 5; *v16_ai = 6;
&*v16_pi; &v16_ai[1]; &v16_fn; &v16_ai; &v16_vs.a; &v16_ps->a; *&v16_fn;
'''.strip().split('\n')
