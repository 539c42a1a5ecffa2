#ifndef NATIVE
void out(int x);
#define AL
#endif
#define S(n) struct s##n { char c[n]; }; struct s##n g##n, h##n[3]; struct s##n f##n(struct s##n a, int i) { a.c[n - 1] += i; h##n[i % 3] = a; return h##n[i % 3]; }
S(4) S(8) S(12) S(16) S(20) S(24) S(64) S(100) S(256) S(1000)
#define T(n) { struct s##n l, m; int i; for (i = 0; i < n; i++) { l.c[i] = i * 7 + n; m.c[i] = 1; } g##n = f##n(l, 3); m = g##n; h##n[2] = f##n(f##n(m, 1), 2); \
  for (i = 0; i < n; i++) { x = x * 31 + g##n.c[i]; x = x * 31 + m.c[i]; x = x * 31 + h##n[0].c[i] + h##n[1].c[i] * 3 + h##n[2].c[i]; x = x * 31 + l.c[i]; } out(x); out(f##n(l, 5).c[n - 1]); out(f##n(l, 6).c[0]); }
typedef struct pt { int x, y; } pt;
typedef struct node { struct node *next; pt p; struct { int a; char b; } in; union { int i; float f; char c[4]; } u; } node;
pt add(pt a, pt b) { pt r; r.x = a.x + b.x; r.y = a.y + b.y; return r; }
pt neg(pt a) { a.x = -a.x; a.y = -a.y; return a; }
pt pick(int i, pt a, pt b) { return i ? a : b; }
pt *addr(pt *p) { return p + 1; }
pt fib(int n) { pt a, b; if (n < 2) { a.x = n; a.y = 1; return a; } a = fib(n - 1); b = fib(n - 2); return add(a, b); }
pt table[4] = { { 1, 2 }, { 3 }, { 5, 6 } };
node list[3] = { { &list[1], { 1, 2 }, { 3, 4 }, { 5 } }, { &list[2], { 6, 7 }, { 8, 9 }, { 10 } }, { 0, { 11, 12 }, { 13, 14 }, { 15 } } };
pt (*fp[])(pt, pt) = { add, 0 };
struct { pt a[2][3]; int n; } m = { { { { 1, 2 }, { 3, 4 }, { 5, 6 } }, { { 7 } } }, 9 };
int test(int command, int arg0)
{
    int x = 1, i;
    pt a, b, *p = &a;
    node n, *q;
    a.x = 3; a.y = 4; b = neg(a);
    out(add(a, b).x); out(add(a, neg(b)).y); out(neg(neg(a)).x);
    *p = add(*p, *p); out(p->x); out((*p).y); out(pick(0, a, b).x); out(pick(1, a, b).x);
    b = pick(a.x > b.x, a, b); out(b.x); a = b = table[2]; out(a.y + b.x);
    out((i = 2, table[i]).y); out((i ? a : b).x); out(addr(table)->x); addr(table)->y = 44; out(table[1].y);
    out(fib(15).x); out(fib(15).y); out(fp[0](table[0], table[2]).y); out((*fp[0])(table[0], table[2]).x);
    for (q = list; q; q = q->next) { out(q->p.x); out(q->p.y); out(q->in.a); out(q->in.b); out(q->u.i); }
    n = list[1]; n.p = table[0]; n.u.f = 1.0f; out(n.u.i); out(n.u.c[3]); out(n.next->p.y); list[0] = n; out(list[0].p.x); out(list->in.b);
    q = &n; q->in.a = -5; q->in.b += 100; n.next = q; out(q->next->next->in.a); out(n.next->in.b);
    for (i = 0; i < 6; i++) { out(m.a[0][i % 3].x + m.a[i / 3][0].y); out((*(m.a + i / 3) + i % 3)->y); }
    out(sizeof m); out(sizeof(node)); out(sizeof list / sizeof *list); out((char *)&n.u - (char *)&n); out(&table[3] - &table[1]); out((int)(&((node *)0)->in.b));
    T(4) T(8) T(12) T(16) T(20) T(24) T(64) T(100) T(256) T(1000)
    return x;
}
