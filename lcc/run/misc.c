/* declarations, scopes, pointers and constants in less usual forms */
void out(int x);
static void outf(float f) { out(*(int *)&f); }
/* tentative definitions, composite types */
int tent[]; int tent[7]; extern int later[]; static int st1; static int st1 = 4; int st2; int st2; extern int st2;
int sumlater(void);
typedef int vec[3]; typedef const vec cvec; typedef char *string; typedef int (*binop)(int, int); typedef struct tag tag;
struct tag { int a; struct tag *next; binop f; vec v; };
const vec cv = { 1, 2, 3 }; cvec cw = { 4, 5, 6 }; volatile const int vc = 9; string const names[] = { "a", "bc", "" };
static int add(int a, int b) { return a + b; }
static int sub(a, b) int a, b; { return a - b; }
static binop choose(int i) { return i ? add : sub; }
int (*choose2(int i))(int, int) { return i ? &sub : &add; }
int (*(*pchoose)(int))(int, int) = choose2;
int (*ops[2][2])(int, int) = { { add, sub }, { sub, add } };
struct tag t1 = { 1, &t1, add, { 1, 2, 3 } }, t2 = { 2, &t1, sub }, *pt[] = { &t1, &t2, &t1 + 1 - 1, 0 };
int m[3][4] = { { 1, 2, 3, 4 }, { 5, 6, 7, 8 }, { 9, 10, 11, 12 } };
int (*pm)[4] = m + 1; int *pe = &m[1][2]; int *pf = m[2]; int (*pall)[3][4] = &m; int *pg = *m + 5; char *pc = (char *)&m[1][1] + 1; int diff = (int)sizeof(m) / sizeof m[0][0];
char *lit = "hello" + 1; char arr[] = "x" "y" "\0z"; char full[3] = "abc"; char nest[2][3] = { "ab", { 'c' } }; char *sp[2] = { arr, arr + 2 }; void *vp = &vp; unsigned addr = 1 ? 5 : 6;
union { int i; char c[4]; struct { short lo, hi; } s; } u1 = { 0x01020304 };
struct { unsigned a : 3; int : 0; unsigned b : 5; signed c : 4; int d : 1; unsigned : 4; unsigned e : 32; } bf = { 5, 17, -3, -1, 0xdeadbeefu };
enum color { red, green = 5, blue, minus = -2, zero } col = blue; enum { anon = 'A' };
float fl[] = { 1, -2, 1e3f, 0x10, 'a', 1.5e-1, 3 / 2, -0.0 };
static int k_and_r(c, s, f, p, u) char c; short s; float f; int p[]; unsigned char u; { return c + s * 10 + (int)f * 100 + p[1] * 1000 + u * 10000; }
static int noargs() { return 77; }
implicit(x) { return x * 2; }
static int rec(int n, int (*f)()) { return n ? (*f)(n - 1, f) + n : 0; }
static int inner(void) { extern int st2, later[]; extern int sumlater(void); int add(int, int); static int count = 3; st2 += count++; return st2 + later[1] + sumlater(); }
static int shadow(int x) { int y = x; { int x = y + 1; y += x; { extern int st2; typedef char x; x z = 300 + y; y += z + st2 + sizeof(x); } y += x; } return y + x; }
static int lab(int x) { x: if (x > 10) goto out; x += 3; goto x; out: return x; }
static int dup(int n) { int r = 0; switch (n & 3) { case 0: do { r += 1; case 3: r += 10; case 2: r += 100; case 1: r += 1000; } while (--n > 0); } return r; }
static int nestsw(int a, int b) { switch (a) { case 1: switch (b) { case 1: return 11; case 2: break; default: return 19; } return 12; case 2: { int a = b; switch (a) case 5: return 25; } default: if (b) case 3: return 30 + b; } return -1; }
static int loops(int n) { int i, j, r = 0; for (;;) { if (n-- <= 0) break; for (i = 0; ; i++) { if (i > 5) break; if (i == 2) continue; j = 0; while (1) { if (++j > i) break; r++; } } do { if (r & 1) continue; r += 3; } while (0); } return r; }
static int chars(void) { char c = 200; signed char s = 200; unsigned char u = 200; short h = 40000; unsigned short w = 40000; int r = c + s * 3 + u * 5 + h * 7 + w * 11; c += 100; s -= 100; u <<= 1; h >>= 3; w *= 3; c++; --u; return r + c + s + u + h + w + (c = 300) + (u = -1) + (h = 70000); }
static int ptrs(void) { int a[6], *p = a, *q = a + 5, **pp = &p; int r; const int *cp; void *v; char *c; a[0] = 1; a[1] = 2; a[2] = 3; a[3] = 4; a[4] = 5; a[5] = 6;
 r = *p++ + *p; r = r * 10 + *++p; r = r * 10 + (*p)++; r = r * 10 + ++*p; r = r * 10 + *p--; r = r * 10 + p[1]; r = r * 10 + 1[p]; r = r * 10 + (q - p); r = r * 10 + (p < q) + (p <= q) * 2 + (p == q) * 4 + (p != 0) * 8; **pp = 9; r = r * 10 + *(*pp)++; *pp += 1; r = r * 10 + *p; v = p; cp = v; r = r * 10 + *cp; c = (char *)p; c += sizeof *p; r = r * 10 + *(int *)c; r = r + !p + !!p * 3 + (p && q) + (p || 0); p = 0; r += p ? 1 : 5; r += (p = q) ? *p : 7; q -= 2; r += *q; return r + (&a[5] - &a[1]) + ((char *)&a[2] - (char *)a) + (int)((char *)8 - (char *)3) + (int)((int *)0 + 3); }
static int comma(void) { int a = 1, b = 2, c; c = (a++, b += a, a + b); for (a = 0, b = 10; a < b; a++, b--) c += a * b; return c + (1, 2, c) + (a ? b : c, 4); }
static int conds(int a, int b) { return (a ? b ? 1 : 2 : b ? 3 : 4) + (a > b ? a : b) * 10 + ((a && b) + (a || b) * 2 + !a * 4 + !(a && !b) * 8) * 1000 + (a < b == b > a) * 100000 + (a == b ? -1 : a != b) * 1000000 + ((a ? 'x' : 2.5f) > 3); }
static int unsig(unsigned a, int b) { return (a > b) + (a / 3 > 1000000000u) * 2 + ((a >> 1) == 0x7fffffff) * 4 + (b >> 1 == -1) * 8 + ((unsigned char)b > 200) * 16 + ((unsigned short)b == 65535) * 32 + (a % 7) * 64 + (-1 / 2 == 0) * 1024 + (-7 % 3 == -1) * 2048 + (7u - 8 > 0) * 4096 + (sizeof(int) - 5 > 0) * 8192; }
static int sizes(void) { char a[5]; struct { char c; short s; } s; return sizeof a + sizeof(a + 0) * 10 + sizeof s * 100 + sizeof "abc" * 1000 + sizeof 'c' * 10000 + sizeof(char[3][4]) * 100000 + sizeof(struct tag) * 1000000 + sizeof(int (*)[5]) + sizeof(1 ? 'a' : 'b') + sizeof bf + sizeof(enum color) + sizeof(double) + sizeof 1.0f + sizeof(cv) + sizeof m[1] + sizeof *pm; }
static int autos(void) { int a[] = { 1, 2, 3 }; char s[] = "auto"; struct tag t = { 5, 0, add }, t3 = t2; int x = { 7 }; vec v = { 1 }; static const char *const strs[] = { "p", "qr" }; union { int i; float f; } u = { 5 }; float g[2][2] = { { 1.5f }, { 2.5f, 3.5f } }; struct { struct { int a, b; } in[2]; char c[3]; } deep = { { { 1, 2 }, { 3 } }, "xy" }; struct tag *q = &t, *const cq = &t3; int n = sizeof a / sizeof *a; q->v[1] = 4; (*cq).v[2] = 6; q->next = cq; return a[2] + s[3] + t.f(1, 2) + t.v[1] + t3.v[2] + t3.a + x + v[0] + v[2] + strs[1][1] + u.i + (int)(g[1][1] * 2) + g[0][1] + deep.in[1].a * 100 + deep.in[1].b + deep.c[1] + q->next->a + n + t.next->f(9, 4); }
static double dbl(double x, float y, double z) { return x * y + z; }
static void nothing(void) { ; }
static void *pass(void *p) { return p; }
static struct tag ret(int a) { struct tag r; r = t1; r.a = a; r.v[0] = a * 2; return r; }
static int structs(void) { struct tag a, b[2], *p = b; a = b[1] = ret(4); b[0] = (b[1].a++, b[1]); p++->a = 6; out(b[0].a); p->v[1] = ret(3).v[0]; return a.a + b[1].a * 10 + b[1].v[1] * 100 + ret(ret(5).v[0]).a * 1000 + (a.a ? a : b[0]).v[0] + (*(&a)).a + (&b[0])->v[0] + (p - b); }
static int bits(void) { int r; bf.a++; bf.a += 3; bf.b = ~0; bf.c = 7; bf.c++; bf.d ^= 1; bf.e >>= 4; r = bf.a * 1000000 + bf.b * 10000 + (bf.c + 20) * 100 + (bf.d + 3) * 10; bf.b >>= 2; r += bf.b-- + --bf.b; r += (bf.a = 13) + (bf.c = 9); if (bf.d) r += 1; if (!bf.a) r += 2; if (bf.c < 0 && bf.e > 0x7ffffff) r += 4; bf.d = 1; return r + (bf.d == 1 ? 50 : 70) + bf.e % 100 - bf.c; }
static int floats(float a, float b) { int r = 0; r = r * 2 + (a < b); r = r * 2 + (a <= b); r = r * 2 + (a == b); r = r * 2 + (a != b); r = r * 2 + (a >= b); r = r * 2 + !a; r = r * 2 + (a && b); a++; b--; r = r * 2 + (int)a; r = r * 2 + (int)-b; r += a; r -= (int)(a * b); a += r; b /= 4; return r + (int)a + (int)(b * 100) + (a ? 1 : 2) + (char)a + (unsigned char)b; }
static int deep(int a) { return a < 0 ? 0 : deep(a - 1) + deep(a - 2) + 1; }
#define CAT(a, b) a ## b
#define STR(x) #x
int later[4] = { 3, 4, 5 };
int sumlater(void) { int i, s = 0; for (i = 0; i < sizeof later / sizeof later[0]; i++) s += later[i]; return s; }
int test(int command, int arg0)
{
    int i, j; struct tag *p; register int reg = 3; auto int au = 4; const char *s;
    tent[6] = 5; out(tent[6] + st1 + st2 + sizeof tent); out(cv[1] + cw[2] + vc + names[1][1] + sizeof names);
    out(choose(1)(4, 5)); out(choose2(1)(9, 3)); out((*pchoose(0))(1, 2)); out((**pchoose)(1)(1, 2)); out((*ops[1][0])(7, 5) + ops[0][0](1, 1)); out((*add)(1, 2) + (&sub)(9, 1) + (****add)(2, 3));
    for (i = 0; pt[i]; i++) out(pt[i]->a + pt[i]->f(10, 3) + pt[i]->next->v[2]); for (p = &t2; p != &t1; p = p->next) out(p->a);
    out(pm[1][3] + (*pm)[0] + **pm + pm[-1][2]); out(*pe + pe[-1] + *pf + (*pall)[2][1] + *pg + *pc + diff); for (i = 0; i < 3; i++) for (j = 0; j < 4; j++) out(m[i][j] * *(*(m + i) + j)); out(&m[2][3] - &m[0][1]); out((int)(&m[2] - m)); out(*(m[1] + 2) + 2[m[1]]);
    for (s = lit; *s; s++) out(*s); for (i = 0; i < sizeof arr; i++) out(arr[i]); for (i = 0; i < 3; i++) out(full[i] + nest[0][i] + nest[1][i]); out(sp[1] - sp[0] + *sp[1]); out(*(void **)vp == vp); out(addr);
    out(u1.c[0]); out(u1.s.hi); u1.s.lo = -2; out(u1.i); out(bf.a); out(bf.b); out(bf.c); out(bf.d); out(bf.e); out(col + zero + anon + minus + sizeof col); for (i = 0; i < sizeof fl / sizeof fl[0]; i++) outf(fl[i]);
    out(k_and_r('a', 5, 2.5, m[0], 200)); out(k_and_r(300, 70000, 3.7, tent, 511)); out(noargs()); out(implicit(4)); out(rec(5, rec)); out(inner()); out(inner()); out(shadow(3)); out(lab(2)); for (i = 0; i < 9; i++) out(dup(i));
    for (i = 0; i < 5; i++) for (j = 0; j < 6; j++) out(nestsw(i, j)); out(loops(5)); out(chars()); out(ptrs()); out(comma()); for (i = -1; i < 2; i++) for (j = -1; j < 2; j++) out(conds(i, j)); out(unsig(-1, -1)); out(unsig(5, -7)); out(sizes()); out(autos()); outf(dbl(1.5, 2.5f, 3)); outf(dbl(2, 3, 4)); nothing(); out(pass(&i) == &i); out(*(int *)pass(&m[1][1]));
    out(structs()); out(bits()); out(bits()); out(floats(1.5f, 2)); out(floats(-3, -3)); out(floats(0, 1e6f)); out(deep(12)); out(CAT(re, g) + CAT(1, 2) + au); s = STR(a  +  "b\n" 'c'); while (*s) out(*s++); out(sizeof STR(x)); out(-2147483647 - 1); out(~0u >> 31); out(1 ? -1 : 0u); out((signed char)200 + (unsigned char)-1 + (short)-40000); out('\377' + '\x41' + '\0' + '\\' + '\'' + "\"q"[1]); out(0x7fffffff + 1u); out(010 + 0xA + 1e1 > 27); out(i++ + ++j); out(i-- - --j); out(- -i + + +j - ~i + !j); out(i << 3 >> 1 & 7 | 8 ^ 3); out((i, j) + (i = j = 5) + i); out(i > 3 ? j < 2 ? 1 : 2 : 3); i = j += 3; out(i * j); i *= j -= 2; out(i); out(i /= 7); out(i %= 3); out(i |= 12); out(i &= ~4); out(i ^= 0xff); out(i <<= 2); out(i >>= 1);
    return 0;
}
