#ifndef NATIVE
void out(int x);
#endif
int a[10] = { 0, 10, 20, 30, 40, 50, 60, 70, 80, 90 };
char s[] = "hello" " " "world\n\t\\\"\'\a\b\f\v\r\0x\1012\x41";
char s4[4] = "abcd", s6[6] = "abc", *sp[] = { "one", "two", "three", "one" }, *se = &s[3], **spp = &sp[1];
unsigned char us[] = { "\377\200" };
int w[] = { L'a', L'\xff' };
int m3[2][3][4] = { { { 1, 2 }, { 3, 4, 5, 6 } }, 7, 8, 9, 10, 11, 12, 13 };
int (*pm)[4] = m3[1], (*pa)[10] = &a, *ae = a + 10, *mid = &a[3] + 2, *neg = &a[9] - 4;
int off = sizeof(a) / sizeof a[0], idx = (int)(&((struct { int x; char c[7]; short s; } *)0)->s);
int f0(void) { return 1; }
int f1(int x) { return x + 1; }
int (*pf)(int) = f1, (*pf0)(void) = &f0, (*pfa[2])(int) = { f1, &f1 };
int (*sel(int i))(int) { return i ? pf : pfa[1]; }
int apply(int g(int), int x) { return g(x) + (*g)(x) + (**g)(x); }
int len(const char *p) { const char *q = p; while (*q++) ; return q - p - 1; }
int sum(int n, int v[]) { int r = 0; while (n--) r += *v++; return r; }
void swap(int *x, int *y) { int t = *x; *x = *y; *y = t; }
int va(int n, ...) { int *p = &n, r = 0; while (n-- > 0) r = r * 3 + *++p; return r; }
int big(int n) { int v[3000]; char c[5001]; int i; for (i = 0; i < 3000; i++) v[i] = i * n; for (i = 0; i < 5001; i++) c[i] = i + n; return v[2999] + c[5000] + v[0] + c[0] + (n > 0 ? big(n - 1) : 0); }
int many(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l, int m, int n, int o, int p, int q, int r, int s, int t) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8 + i * 9 + j * 10 + k * 11 + l * 12 + m * 13 + n * 14 + o * 15 + p * 16 + q * 17 + r * 18 + s * 19 + t * 20; }
int test(int command, int arg0)
{
    int *p = a, *q = &a[5], i, j, k, x = 3, y = 4;
    char *c = s, b[20];
    short sh[4], *ps = sh;
    void *v;
    for (i = 0; i < sizeof s; i++) out(s[i]);
    out(sizeof s); out(sizeof "abc" "de"); out(len(s)); out(len("")); out(sizeof s4); out(s4[3]); out(s6[5]); out(*se); out(**spp); out(spp[1][4]); out(us[0]); out(us[1]); out(us[2]); out(sizeof us); out(w[0]); out(w[1] == L'\xff');
    out(*p++); out(*++p); out((*p)++); out(++*p); out(*p--); out(*--p); out(p - a); out(q - p); out(p < q); out(p == a); out(p >= q); out(!p); out(p && q); out(p != 0);
    out(*(q - 2)); out(q[-1]); out(2[a]); out(*(3 + a)); out((q -= 2) - a); out((q += 4)[0]); out(*mid); out(*neg); out(ae - a); out(off); out(idx);
    for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) for (k = 0; k < 4; k++) out(m3[i][j][k] + *(*(*(m3 + i) + j) + k));
    out(pm[1][2]); out((*pm)[1]); out((*pa)[4]); out(sizeof *pm); out(sizeof m3[0]); out(sizeof m3[0][0]); out((int)(&m3[1] - &m3[0])); out((int)((char *)&m3[1] - (char *)&m3[0]));
    out(pf(1)); out((*pf)(2)); out(pf0()); out(pfa[1](3)); out(sel(0)(5)); out((*sel(1))(6)); out(apply(f1, 10)); out(apply(&f1, 20)); out(pf == f1); out(pf != &f1); pf = 0; out(!pf);
    swap(&x, &y); out(x * 10 + y); swap(a, a + 9); out(a[0]); out(sum(10, a)); out(sum(3, &a[7])); out(va(0)); out(va(5, 1, 2, 3, 4, 5)); out(big(2));
    out(many(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20)); out(many(f1(1), f1(2), many(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1), f1(f1(f1(1))), 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, f1(19), f1(20)));
    v = &x; *(int *)v = 1234; out(x); out(*(char *)v); ((char *)v)[1] = 1; out(x); i = (int)v; out(*(int *)i); out(*(unsigned short *)((char *)v + 2));
    for (i = 0; i < 4; i++) *ps++ = -i * 1000; out(*--ps); out(ps - sh); out(ps[-1] + *(ps - 2)); *ps += 70000; out(*ps); ps[-1] <<= 3; out(sh[2]); (*ps)--; out(sh[3]); sh[0]--; out((unsigned short)sh[0]); out(sh[0]++);
    for (i = 0; (b[i] = c[i]) != ' '; i++) ; b[i] = 0; out(len(b)); while (i--) out(b[i]); c = b; while (*c) *c++ ^= 0x20; out(b[0]); out(c - b);
    { register int r = 5; register char *rc = b; auto int z = 2; const int cc = 3; volatile int vv = r * z; static int st = 40; out(r + z + cc + vv + st++); out(*rc); { static int st = 7; out(st++); } out(st); }
    { int x = 1; { int x = 2; { int x = 3; out(x); } out(x); } out(x); }
    { typedef char T; T T2 = 'x'; { int T = 5; out(T * 2); } out(sizeof(T)); out(T2); }
    i = 0; lbl: if (i < 3) { out(i); i++; goto lbl; } for (i = 0, j = 10; i < j; i++, j--) ; out(i); do i--; while (i > 0); out(i); for (;;) { if (++i > 5) break; if (i & 1) continue; out(i); }
    out((1, 2, 3)); out((i = 5, i++, i + 1)); out(i > 3 ? i < 9 ? 1 : 2 : 3); out((i, j) ? (x, y) : 0); out(!i + !!i); out(~i); out(-i); out(+i); out(- -i); out(~-i); out(i & 1 && i | 2 || i ^ 3); out(i << 2 >> 1); out(-i >> 1); out((unsigned)-i >> 28); out(-7 / 2); out(-7 % 2); out(7 / -2); out(7 % -2); out(0xfffffff9u / 2); out(0xfffffff9u % 10);
    return len(sp[2]);
}
