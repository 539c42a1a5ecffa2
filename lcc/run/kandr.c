/* old-style definitions, promotions, implicit declarations, tentative definitions */
#ifndef NATIVE
void out(int x);
#endif
int f1();
float f2();
int t1;
int t1;
static int t2;
extern int t3;
int test(int command, int arg0)
{
    char c = -3;
    short s = -300;
    unsigned char uc = 250;
    float f = 2.5f;
    extern int t3;
    out(f1(c, s, uc));
    out((int)(4 * f2(f, 3)));
    out(implicit(7, 8));
    out(t1++); out(t1); out(t2); out(t3);
    out(k1(c, s, uc, 70000));
    { int k1 = 5; { extern int t3; out(t3 + k1); } }
    out(k2(arg0, 1, 2, 3, 4, 5, 6, 7, 8, 9));
    return t2 + 77;
}
int f1(a, b, c) char a; short b; unsigned char c; { a++; b--; c += 10; return a * 65536 + b + c; }
float f2(f, i) float f; int i; { f = f * i; return f + 0.25f; }
int implicit(a, b) { return a * 10 + b; }
int t3 = 99;
static int t2 = 5;
int t1 = 41;
k1(c, s, uc, big) unsigned char uc; short s, big; char c; { return c + 2 * s + 3 * uc + big; }
k2(a, b, c, d, e, f, g, h, i, j) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8 + i * 9 + j * 10; }
