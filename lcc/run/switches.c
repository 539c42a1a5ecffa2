#ifndef NATIVE
void out(int x);
#endif
int s1(int x) { switch (x) { case -2147483647 - 1: return 1; case -1: return 2; case 0: return 3; case 1: return 4; case 2147483647: return 5; } return 9; }
int s2(unsigned x) { switch (x) { case 0x80000000u: return 1; case 0xffffffffu: return 2; case 0: return 3; case 0x7fffffff: return 4; default: return 5; } }
int s3(char c) { switch (c) { case 'a': case 'b': case 'c': return 1; case '\xff': return 2; case '\0': return 3; default: break; case 'z': return 4; } return 5; }
int s4(int x) { int r = 0; switch (x) { default: r += 100; case 1: r += 1; case 2: r += 2; break; case 3: r += 3; case 4: { r += 4; case 5: r += 5; } case 1000: r += 6; case 1001: case 1002: case 1003: r += 7; } return r; }
int s5(int x)
{
    switch (x) {
    case 10: return 0; case 11: return 1; case 12: return 2; case 13: return 3; case 15: return 5; case 16: return 6; case 17: return 7;
    case 100: return 8; case 101: return 9; case 102: return 10; case 104: return 11; case 107: return 12; case 109: return 13;
    case -5: return 14; case -6: return 15; case -7: return 16; case -8: return 17; case -9: return 18; case -20: return 19;
    case 2147483640: return 20; case 2147483641: return 21; case 2147483642: return 22; case 2147483643: return 23; case 2147483644: return 24; case 2147483645: return 25; case 2147483647: return 26;
    case -2147483647 - 1: return 27; case -2147483647: return 28; case -2147483646: return 29; case -2147483645: return 30; case -2147483644: return 31; case -2147483643: return 32;
    }
    return -1;
}
int s6(int n, int x)
{   /* jumps into a loop */
    int r = 0;
    switch (n % 4) {
    case 0: do { r = r * 3 + x;
    case 3:      r = r * 5 + 1;
    case 2:      r ^= x;
    case 1:      r += n;
            } while ((n -= 4) > 0);
    }
    return r;
}
int s7(int a, int b)
{
    switch (a) {
    case 1: switch (b) { case 1: return 11; case 2: break; default: return 19; } return 12;
    case 2: while (b) { switch (b) { case 3: b = 0; continue; case 4: b = 3; break; default: b--; continue; } if (b == 3) break; } return 20 + b;
    case 3: for (;; b++) switch (b & 3) { case 0: return b; case 1: b += 2; default: continue; }
    case 4: goto l; case 5: b = 2; l: return b + 40;
    }
    return 0;
}
int s8(int x) { switch (x) ; switch (x) { } switch (x) { default: ; } switch (x) case 3: return 8; switch (x) { int y; case 4: y = x; return y + 1; } return 0; }
enum e { A = -3, B, C = 7, D };
int s9(enum e x) { switch (x) { case A: return 1; case B: return 2; case C: return 3; case D: return 4; } return 5; }
int test(int command, int arg0)
{
    static int v[] = { -2147483647 - 1, -2147483647, -2147483646, -2147483645, -2147483644, -2147483643, -2147483642, -22, -21, -20, -19, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,
        10, 11, 12, 13, 14, 15, 16, 17, 18, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 122, 123, 255, 256, 257, 353, 999, 1000, 1001, 1002, 1003, 1004,
        2147483639, 2147483640, 2147483641, 2147483642, 2147483643, 2147483644, 2147483645, 2147483646, 2147483647 };
    int i, j;
    for (i = 0; i < sizeof v / sizeof v[0]; i++) {
        out(s1(v[i])); out(s2(v[i])); out(s3(v[i])); out(s4(v[i])); out(s5(v[i])); out(s8(v[i])); out(s9(v[i]));
    }
    for (i = 1; i < 30; i++) out(s6(i, i * 7));
    for (i = 0; i < 7; i++) for (j = 0; j < 9; j++) out(s7(i, j));
    return 0;
}
