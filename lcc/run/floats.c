/* (comparisons with not-a-number are left out: C90 does not define them) infinities, big unsigned values, negative zero */
#ifndef NATIVE
void out(int x);
#endif
volatile float zero = 0.0f, one = 1.0f, big = 3.0e38f, tiny = 1.0e-38f;
float id(float f) { return f; }
void of(float f) { out(*(int *)&f); }
void cmp(float a, float b)
{
    out((a < b) | (a <= b) << 1 | (a > b) << 2 | (a >= b) << 3 | (a == b) << 4 | (a != b) << 5);
    out(!(a < b) | !(a <= b) << 1 | !(a > b) << 2 | !(a >= b) << 3 | !(a == b) << 4 | !(a != b) << 5);
    if (a < b) out(1); else out(2);
    if (!(a < b)) out(3); else out(4);
    if (a <= b) out(5); else out(6);
    if (a > b) out(7); else out(8);
    if (a >= b) out(9); else out(10);
    if (a == b) out(11); else out(12);
    if (a != b) out(13); else out(14);
    out(a < b ? 20 : 30);
    out(a < b && b < a); out(a < b || b < a); out(a == b || a != b);
    while (a < b) { out(40); break; }
    while (!(a >= b)) { out(41); break; }
    for (; a > b; ) { out(42); break; }
    if (a) out(50); else out(51);
    if (!a) out(52); else out(53);
    out(!b); out(!!b); out(a && b); out(a || b);
}
int test(int command, int arg0)
{
    float v[9];
    int i, j;
    unsigned u;
    static unsigned us[] = { 0, 1, 255, 65535, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000u, 0x80000001u, 0xc0000000u, 0xffffff00u, 0xffffff80u, 0xffffffffu };
    static int is[] = { 0, 1, -1, 16777216, 16777217, -16777217, 2147483647, -2147483647, 33554433, 33554435 };
    v[0] = zero; v[1] = -zero; v[2] = one; v[3] = -one; v[4] = big * big; v[5] = -(big * big); v[6] = zero / zero; v[7] = tiny; v[8] = big;
    for (i = 0; i < 9; i++)
        for (j = 0; j < 9; j++)
            if (i != 6 && j != 6)
                cmp(v[i], v[j]);
    for (i = 0; i < 8; i++)
        for (j = 0; j < 8; j++)
            if (i != 6 && j != 6) {
                if (v[i] + v[j] == v[i] + v[j]) of(v[i] + v[j]);
                if (v[i] - v[j] == v[i] - v[j]) of(v[i] - v[j]);
                if (v[i] * v[j] == v[i] * v[j]) of(v[i] * v[j]);
                if (v[i] / v[j] == v[i] / v[j]) of(v[i] / v[j]);
            }
    for (i = 0; i < sizeof is / sizeof is[0]; i++) {
        float f = is[i];
        of(f); of(is[i] * 0.5f); of((float)(short)is[i]); of((char)is[i]);
        if (f < 2.0e9f && f > -2.0e9f) out((int)f);
    }
    for (i = 0; i < sizeof us / sizeof us[0]; i++) {
        u = us[i];
        if (u < 0x80000000u) { of((float)u); of(u * 0.25f); }
        of((unsigned char)u); of((unsigned short)u);
        out((unsigned char)(float)(u & 255)); out((short)(float)(u & 32767));
    }
    of(1.0f / 3.0f); of(id(1e10f) + 1); of(-id(0.0f)); of(0.0f - id(0.0f));
    { float f = 0.5f; f++; of(f); f--; --f; of(f); ++f; f += 1; f *= 3; f /= 7; f -= 10; of(f); of(f++); of(--f); }
    { int k = 7; k += 0.5f; out(k); k *= 1.5f; out(k); k /= 0.25f; out(k); k -= 100.75f; out(k); }
    { char c = 100; c += 20.5f; out(c); c /= 2.5f; out(c); }
    { unsigned char c = 200; c -= 0.5f; out(c); c = 3.99f; out(c); }
    return (int)id(-3.99f);
}
