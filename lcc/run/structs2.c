#ifndef NATIVE
void out(int x);
#endif
typedef struct pt { int x, y; } pt;
typedef struct big { int a[40]; char c; } big;
struct cm { const int x; int y; };
struct one { char c, d[3]; };
union u { int i; float f; char c[12]; };
const struct cm c1 = { 3, 4 };
const pt cp = { 5, 6 };
pt inloop(int n) { pt p; for (;;) { p.x = n; p.y = n * n; if (n > 10) return p; n += 3; } }
pt ifelse(int n) { pt p; p.x = 1; p.y = n; if (n) return p; else { p.x = 2; return p; } }
pt sw(int n) { pt p; p.x = n; p.y = 0; switch (n) { case 0: p.y = 7; return p; case 1: p.y = 8; return p; default: p.x += 100; return p; } }
pt lab(int n) { pt p; p.x = p.y = 0; again: p.x++; if (n-- > 0) goto again; goto done; done: return p; }
big noret(int n) { big b; int i; if (n) { for (i = 0; i < 40; i++) b.a[i] = n + i; b.c = 'z'; return b; } out(-1); }
struct cm retc(void) { return c1; }
pt retcp(void) { return cp; }
const pt rconst(int i) { pt p; p.x = i; p.y = -i; return p; }
struct cm cond(int i) { struct cm z = { 9, 10 }; return i ? c1 : z; }
struct one r1(int i) { struct one o; o.c = i; while (i) return o; o.c = 77; return o; }
union u ru(int i) { union u v; v.i = i; do { return v; } while (1); }
big nest(int n) { big b; if (n > 0) { b = nest(n - 1); b.a[n % 40] += n; return b; } return noret(5); }
pt table[3] = { { 1, 2 }, { 3, 4 }, { 5, 6 } };
pt deref(const pt *p) { return *p; }
pt vol(volatile pt *p) { return *(pt *)p; }
int sum(pt a, pt b) { return a.x + 10 * a.y + 100 * b.x + 1000 * b.y; }
int test(int command, int arg0)
{
    int i;
    pt a; big b; volatile pt v;
    for (i = 0; i < 5; i++) {
        out(inloop(i).x); out(inloop(i).y); out(ifelse(i).x); out(ifelse(i).y); out(sw(i).x); out(sw(i).y);
        a = lab(i); out(a.x); out(a.y); out(rconst(i).x); out(rconst(i).y); out(cond(i & 1).x); out(cond(i & 1).y);
        out(r1(i).c); out(ru(i * 1000).i); out(ru(i).c[0]);
        out(sum(sw(i), lab(i))); out(sum(rconst(i), retcp())); out(sum(i ? a : cp, deref(table + i % 3)));
    }
    b = noret(3); out(b.a[39]); out(b.c); noret(0); b = nest(100); out(b.a[17]); out(b.a[0]); out(nest(45).a[5]);
    out(retc().x + retc().y); out(retcp().y); out(deref(&cp).x); v.x = 4; v.y = 5; out(vol(&v).x * vol(&v).y);
    out(sizeof(noret(1))); out(sizeof retc()); out(sizeof r1(2));
    sw(1); rconst(2); (void)retc();
    return sum(rconst(1), rconst(2));
}
